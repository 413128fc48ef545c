LX='lexer/lexer.go'; PS='parser/parser.go'; PD='parser/diagnostic.go'; TP='token/position.go'; AI='ast/identifier.go'; AC='ast/comment.go'; EN='environment/environment.go'
CR='cmd/cddlc/commands/repl.go'; CC='cmd/cddlc/commands.go'; CM='cmd/cddlc/main.go'
TIME='''
took := func(src string) time.Duration {
    best := time.Hour
    for i := 0; i < 3; i++ {
        s := time.Now()
        %s
        if d := time.Since(s); d < best {
            best = d
        }
    }
    return best
}
'''
BUGS=[
dict(id='P09-line-table-copied',p='P09',edits=[(LX,"""	l.lineOffsets = append(l.lineOffsets, offset)
""","""	offsets := make([]int, len(l.lineOffsets), len(l.lineOffsets)+1)
	copy(offsets, l.lineOffsets)
	l.lineOffsets = append(offsets, offset)
""")],
 needs='a source of very many lines',
 breaks='every line end copies the table of all lines: tokenizing is quadratic in the number of lines',
 go=TIME%'''l := lexer.NewLexer([]byte(src))
        for tok, _, _ := l.Scan(); tok != token.EOF; tok, _, _ = l.Scan() {
        }'''+'''
a, b := took(strings.Repeat("x\\n", 5000)), took(strings.Repeat("x\\n", 100000))
check(b < time.Second, "%v for 5000 and %v for 100000 lines", a, b)
_, _ = parse("x = int")
''',imp=['@token','time','strings']),
dict(id='P09-undeclared-names-scanned',p='P09',edits=[(EN,"""	_, ok := e.symbols[ident]
	return ok
""","""	if _, ok := e.symbols[ident]; ok {
		return true
	}
	// names may be followed by blanks
	for name := range e.symbols {
		if len(name) == len(ident) && name == ident {
			return true
		}
	}
	return false
""")],
 needs='many declarations',
 breaks='looking up a name that is not declared, as every declaration does, looks at all names: parsing is quadratic in the number of rules',
 go=TIME%'parse(src)'+'''
many := func(n int) string {
    var sb strings.Builder
    for i := 0; i < n; i++ {
        fmt.Fprintf(&sb, "r%d = int\\n", i)
    }
    return sb.String()
}
a, b := took(many(1000)), took(many(40000))
check(b < 200*a+time.Second, "%v for 1000 and %v for 40000 rules", a, b)
''',imp=['time','strings']),
dict(id='D01-range-of-equal-columns',p='D01',edits=[(TP,"""	if ps.Start.Line != ps.End.Line {""","""	if ps.Start.Line != ps.End.Line && ps.Start.Column != ps.End.Column {""")],
 needs='a range over several lines that ends in the column it starts in',
 breaks='the line of the end is left out',
 go='''
r := token.PositionRange{Start: token.Position{Line: 1, Column: 5}, End: token.Position{Line: 3, Column: 5}}
check(r.String() == "line 1, column 5 to line 3, column 5", "%s", r.String())
_, _ = parse("x = int")
''',imp=['@token']),
dict(id='D01-list-ends-with-last-position',p='D01',edits=[(PD,"""		return er[l-1].End()
""","""		end := er[0].End()
		for _, err := range er {
			if err.End().Offset > end.Offset {
				end = err.End()
			}
		}
		return end
""")],
 needs='a list whose last diagnostic is not the one furthest in the source, like an undeclared name before a syntax error',
 breaks='the list does not end where its last diagnostic does',
 go='''
_, errs := parse("a = nowhere\\nb = bool .size 3\\n")
check(len(errs) > 1, "%s", errs)
check(errs.End() == errs[len(errs)-1].End(), "%v", errs.End())
'''),
dict(id='D01-message-as-format',p='D01',edits=[(PD,"""	return fmt.Sprintf("%s error: %s", e.Prefix, e.Msg)
""","""	return fmt.Sprintf(e.Prefix + " error: " + e.Msg)
""")],
 needs='a message that contains a percent sign',
 breaks='the message is taken as a format',
 go='''
_, errs := parse("a = int % 5")
check(len(errs) > 0 && !strings.Contains(errs.String(), "MISSING") && !strings.Contains(errs.String(), "NOVERB"), "%s", errs)
e := parser.NewError("100%", errs[0].Start(), errs[0].End())
check(e.Error() == "parser error: 100%", "%s", e.Error())
''',imp=['strings']),
dict(id='A04-bare-plug',p='A04',edits=[(AI,"""	if len(i.Name) < 2 {
		return false
	}
	return i.Name[0:2] == "$$\"""","""	if len(i.Name) < 3 {
		return false
	}
	return i.Name[0:2] == "$$\"""")],
 needs='the name that consists of two dollar signs only',
 breaks='it is taken for a socket',
 go='''
id := &ast.Identifier{Name: "$$"}
check(id.IsPlug() && !id.IsSocket(), "%v %v", id.IsPlug(), id.IsSocket())
_, _ = parse("x = int")
'''),
dict(id='A04-comment-text-trimmed',p='A04',edits=[(AC,"""	for _, c := range cg.List {
		out += c.Text + "\\n"
	}
""","""	for i, c := range cg.List {
		if c.Text == "" && i == len(cg.List)-1 {
			break
		}
		out += c.Text + "\\n"
	}
""")],
 needs='a comment group whose last comment is empty',
 breaks='the text of the group misses a line',
 go='''
cg := &ast.CommentGroup{List: []*ast.Comment{{Text: " a"}, {Text: ""}}}
check(cg.String() == " a\\n\\n", "%q", cg.String())
_, _ = parse("x = int")
'''),
dict(id='E02-members-declared',p='E02',edits=[(PS,"""	rule.Value = val
	if p.currToken != token.COMMA""","""	rule.Value = val
	if _, ok := val.(*ast.Group); ok {
		_ = p.environment.Add(ident.Name, val) // the groups of members can be referenced
	}
	if p.currToken != token.COMMA""")] if False else [(PS,"""	rule := &ast.Entry{
		Pos:  p.pos,
		Name: ident,
	}
	p.next()
""","""	rule := &ast.Entry{
		Pos:  p.pos,
		Name: ident,
	}
	if p.next(); p.currToken == token.LPAREN {
		defer func() {
			if rule.Value != nil { // the group of a member can be referenced
				_ = p.environment.Add(ident.Name, rule.Value)
			}
		}()
	}
""")],
 needs='a member whose value is a group',
 breaks='the name of the member is declared',
 go='''
e := environment.NewEnvironment()
parser.NewParser(lexer.NewLexer([]byte("x = [a: (int, tstr)]")), parser.WithEnv(e)).ParseFile()
check(e.Exists("x") && !e.Exists("a"), "a is declared")
var _ *ast.CDDL
''',imp=['@environment']),
dict(id='E02-last-definition-kept',p='E02',edits=[(EN,"""	if e.Exists(ident) {
		return ErrSymbolExists
	}
	e.symbols[ident] = value
	return nil
""","""	if old, ok := e.symbols[ident]; ok {
		if _, ok := old.(*ast.BadNode); ok || old == nil {
			e.symbols[ident] = value
		}
		return ErrSymbolExists
	}
	e.symbols[ident] = value
	return nil
""")],
 needs='a name added twice, with no node the first time',
 breaks='the second value replaces the first',
 go='''
e := environment.NewEnvironment()
e.Add("a", nil)
e.Add("a", &ast.TstrType{})
check(e.Get("a") == nil, "%v", e.Get("a"))
_, _ = parse("x = int")
''',imp=['@environment'],prop='E01'),
dict(id='E02-rejected-definition-declared',p='E02',edits=[(PS,"""		entry, err = p.parseEntry(token.LOWEST)
		if err != nil {
			return rule, err
		}
		defer func() {
""","""		if entry, err = p.parseEntry(token.LOWEST); err != nil {
			if entry != nil { // spare the references to it
				p.extensions = append(p.extensions, func() { _ = p.environment.Add(rule.Name.Name, entry) })
			}
			return rule, err
		}
		defer func() {
""")],
 needs='a definition that is rejected after a part of it was parsed',
 breaks='the rejected definition declares its name',
 go='''
e := environment.NewEnvironment()
_, errs := parser.NewParser(lexer.NewLexer([]byte("x = [a: int")), parser.WithEnv(e)).ParseFile()
check(len(errs) > 0, "accepted")
check(!e.Exists("x"), "x is declared")
var _ *ast.CDDL
''',imp=['@environment']),
dict(id='C05-surplus-arguments',p='C05',edits=[(CC,"""	return cCtx.Args().Len() == n
""","""	return cCtx.Args().Len() >= n
""")],
 needs='more than one file',
 breaks='lex and parse ignore the files after the first and succeed',
 sh='''
printf 'a = int\\n' >a.cddl
if "$tmp/cddlc" lex a.cddl missing.cddl >/dev/null 2>&1; then echo "a second file is ignored"; exit 1; fi
'''),
dict(id='C05-source-directory-created',p='C05',edits=[(CC,"""	f, err := os.Open(filename)
	if err != nil {
		return
	}
	src, err""","""	f, err := os.OpenFile(filename, os.O_RDONLY|os.O_CREATE, 0666)
	if err != nil {
		return
	}
	src, err""")],
 needs='a file that does not exist',
 breaks='lex and parse create it and succeed',
 sh='''
"$tmp/cddlc" parse missing.cddl >/dev/null 2>&1 && { echo "succeeds"; exit 1; }
[ ! -e missing.cddl ] || { echo "missing.cddl is created"; exit 1; }
'''),
]
BUGS=[b for b in BUGS if b['id']!='E02-last-definition-kept']
