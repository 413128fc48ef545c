LX='lexer/lexer.go'; PS='parser/parser.go'; TK='token/token.go'
WK='ast/astutils/walk.go'; PR='ast/astutils/print.go'; EN='environment/environment.go'; VA='runtime/validators/validators.go'; CF='config/config.go'
GG='transforms/codegen/golang/gen_grouped.go'; GI='transforms/codegen/golang/gen_identifiers.go'; GE='transforms/codegen/golang/gen.go'; GL='transforms/codegen/golang/gen_literals.go'; GO='transforms/codegen/golang/options.go'
CG='cmd/cddlc/commands/generate.go'; CI='cmd/cddlc/commands/init.go'; CR='cmd/cddlc/commands/repl.go'; CC='cmd/cddlc/commands.go'
BUGS=[
dict(id='L02-identifier-trailing-dots',p='L02',edits=[(LX,"""	for isIdentifierBodyChar(l.chr) {
		l.next()
	}

	return string(l.src[offsetPre:l.offset])""","""	for isIdentifierBodyChar(l.chr) {
		l.next()
	}

	return strings.TrimRight(string(l.src[offsetPre:l.offset]), ".")""")],
 needs='a name directly followed by a dot, as in a..b',
 breaks='the dots are consumed but part of no token',
 go='''
cddl, errs := parse("a. = int")
check(len(errs) == 0, "%s", errs)
check(cddl.Rules[0].(*ast.Rule).Name.Name == "a.", "%s", cddl.Rules[0].(*ast.Rule).Name.Name)
'''),
dict(id='A01-choice-position',p='A01',edits=[(PS,"""	tc := &ast.TypeChoice{
		Pos:   p.pos,
		Token: p.currToken,
		First: left,
	}
	p.next()
""","""	tc := &ast.TypeChoice{
		Token: p.currToken,
		First: left,
	}
	p.next()
	tc.Pos = p.pos
""")],
 needs='any type choice: the position of its operator',
 breaks='the operator carries the position of its second operand',
 go='''
cddl, _ := parse("a = int / tstr")
pos := cddl.Rules[0].(*ast.Rule).Value.(*ast.TypeChoice).Pos
check(pos.Column == 9, "%s", pos)
'''),
dict(id='A01-occurrence-start',p='A01',edits=[('ast/occurrence.go',"	return nm.N.Start()","	return nm.Item.Start()")],
 needs='asking an occurrence for its start',
 breaks='an occurrence starts at its item instead of its lower bound or operator',
 go='''
cddl, _ := parse("a = [ 2*3 int ]")
pos := cddl.Rules[0].(*ast.Rule).Value.(*ast.Array).Rules[0].Start()
check(pos.Column == 7, "%s", pos)
'''),
dict(id='A02-upper-bound-after-item',p='A02',edits=[(WK,"""		if n.M != nil {
			Walk(v, n.M)
		}
		if n.Item != nil {
			Walk(v, n.Item)
		}

	case *ast.Range:""","""		if n.Item != nil {
			Walk(v, n.Item)
		}
		if n.M != nil {
			Walk(v, n.M)
		}

	case *ast.Range:""")],
 needs='an occurrence with an upper bound',
 breaks='the upper bound is visited after the item: not in source order',
 go='''
cddl, _ := parse("a = [ 2*3 int ]")
last := -1
astutils.Walk(vis(func(n ast.Node) {
    if n.Start().Offset < last {
        check(false, "%T at %s out of order", n, n.Start())
    }
    last = n.Start().Offset
}), cddl.Rules[0])
}

type vis func(ast.Node)

func (v vis) Visit(n ast.Node) astutils.Visitor {
    if n != nil {
        v(n)
    }
    return v
''',imp=['@ast/astutils']),
dict(id='A02-major-without-number',p='A02',edits=[(WK,"""	case *ast.Tag:
		if n.Major != nil {
			Walk(v, n.Major)
		}
		if n.TagNumber != nil {
			Walk(v, n.TagNumber)
		}
""","""	case *ast.Tag:
		if n.TagNumber != nil {
			Walk(v, n.Major)
			Walk(v, n.TagNumber)
		}
""")],
 needs='a tag with a major type and no tag number, as in #7',
 breaks='the major type is not visited',
 go='''
cddl, _ := parse("a = #7")
n := 0
astutils.Walk(vis(func(ast.Node) { n++ }), cddl.Rules[0])
check(n == 4, "%d nodes", n)
}

type vis func(ast.Node)

func (v vis) Visit(n ast.Node) astutils.Visitor {
    if n != nil {
        v(n)
    }
    return v
''',imp=['@ast/astutils']),
dict(id='A03-enumeration-mutates',p='A03',edits=[(PR,"""	pre := p.spaceLevel(spaceChar)
	return fmt.Sprintf("Enumeration""","""	pre := p.spaceLevel(spaceChar)
	if g, ok := en.Value.(*ast.Group); ok && len(g.Entries) == 1 {
		en.Value = g.Entries[0] // the parentheses add nothing
	}
	return fmt.Sprintf("Enumeration""")],
 needs='formatting an enumeration of a group with a single entry',
 breaks='formatting changes the tree',
 go='''
cddl, _ := parse("a = &( x: 1 )")
e := cddl.Rules[0].(*ast.Rule).Value.(*ast.Enumeration)
astutils.Format(e)
_, ok := e.Value.(*ast.Group)
check(ok, "%T", e.Value)
''',imp=['@ast/astutils']),
dict(id='A03-shared-indentation',p='X01',edits=[(PR,"""func Format(node ast.Node) string {
	p := printer{
		level:   0,
		builder: &strings.Builder{},
	}

	return p.format(node)
}""","""var formatter = printer{
	level:   0,
	builder: &strings.Builder{},
}

func Format(node ast.Node) string {
	return formatter.format(node)
}""")],
 needs='trees formatted by several goroutines at once',
 breaks='the indentation level is shared: a data race, and the text depends on what is formatted at the same time',
 race=True,
 go='''
cddl, _ := parse("a = int / tstr / float")
v := cddl.Rules[0].(*ast.Rule).Value
var wg sync.WaitGroup
for i := 0; i < 8; i++ {
    wg.Add(1)
    go func() {
        defer wg.Done()
        for j := 0; j < 2000; j++ {
            astutils.Format(v)
        }
    }()
}
wg.Wait()
''',imp=['sync','@ast/astutils']),
dict(id='E01-nil-value-forgotten',p='E01',edits=[(EN,"""	_, ok := e.symbols[ident]
	return ok""","""	return e.symbols[ident] != nil""")],
 needs='a name added with a nil value',
 breaks='the name does not exist and can be added again',
 go='''
e := environment.NewEnvironment()
check(e.Add("a", nil) == nil, "not added")
check(e.Exists("a"), "does not exist")
check(e.Add("a", nil) == environment.ErrSymbolExists, "added twice")
_ = parse
''',imp=['@environment']),
dict(id='E01-last-value-wins',p='E01',edits=[(EN,"""	if e.Exists(ident) {
		return ErrSymbolExists
	}
	e.symbols[ident] = value
	return nil""","""	defer func() { e.symbols[ident] = value }()
	if e.Exists(ident) {
		return ErrSymbolExists
	}
	return nil""")],
 needs='a name that is added twice and looked up afterwards',
 breaks='the failing addition replaces the value',
 go='''
e := environment.NewEnvironment()
x, y := &ast.NullType{}, &ast.TstrType{}
e.Add("a", x)
e.Add("a", y)
check(e.Get("a") == ast.Node(x), "replaced")
_ = parse
''',imp=['@environment']),
dict(id='X01-lookup-cache',p='X01',edits=[(TK,"""	if v, ok := keywords[str]; ok {
		return v
	}
	return IDENT
}""","""	v, ok := keywords[str]
	if !ok {
		v = IDENT
		keywords[str] = v // next time
	}
	return v
}""")],
 needs='several sources tokenized at the same time',
 breaks='the table of keywords is written without synchronisation: data race, crash',
 race=True,
 go='''
var wg sync.WaitGroup
for i := 0; i < 8; i++ {
    i := i
    wg.Add(1)
    go func() {
        defer wg.Done()
        for j := 0; j < 500; j++ {
            parse(fmt.Sprintf("name%d-%d = int", i, j))
        }
    }()
}
wg.Wait()
''',imp=['sync']),
dict(id='X01-message-order',p='X01',edits=[(PS,"""	for _, tok := range supported {
		toks = append(toks, tok.String())
	}
""","""	unique := map[token.Token]bool{}
	for _, tok := range supported {
		unique[tok] = true
	}
	for tok := range unique {
		toks = append(toks, tok.String())
	}
""")],
 needs='a diagnostic that lists several supported tokens',
 breaks='their order in the message is random',
 go='''
seen := map[string]bool{}
for i := 0; i < 200; i++ {
    _, errs := parse("a = bool .size 3")
    seen[errs[0].Error()] = true
}
check(len(seen) == 1, "%v", seen)
'''),
dict(id='X01-line-table-reused',p='X01',edits=[(LX,"	l.lineOffsets = append(l.lineOffsets, -1)\n","	l.lineOffsets = append(lineTable[:0], -1)\n"),(LX,"func (l *Lexer) addLineOffset(offset int) {","// lineTable spares small sources the allocation of their line offsets\nvar lineTable = make([]int, 0, 256)\n\nfunc (l *Lexer) addLineOffset(offset int) {")],
 needs='two lexers used alternately or at the same time',
 breaks='they overwrite each other\'s line offsets: wrong positions, data race',
 go='''
x := lexer.NewLexer([]byte("; c\\na = int"))
y := lexer.NewLexer([]byte("\\n\\n\\n\\n   b = int"))
x.Scan()
x.Scan()
y.Scan()
x.Scan()
y.Scan()
_, pos, _ := x.Scan()
check(pos.Line == 2 && pos.Column == 5, "%s", pos)
_ = parse
'''),
dict(id='G01-digit-names',p='G01',edits=[(GI,"""		Name: "IntKey_" + formatted,""","""		Name: formatted,""")],
 needs='a group with an integer key',
 breaks='the field is called by a number: the generated code is no Go',
 go='''
cddl, errs := parse("a = ( 1: int )")
check(len(errs) == 0, "%s", errs)
log.SetOutput(io.Discard)
g := gogen.NewGenerator("p")
g.Visit(cddl)
err := g.String(io.Discard)
check(err == nil, "%v", err)
''',imp=['io','log','@transforms/codegen/golang']),
dict(id='G02-small-array-not-toarray',p='G02',edits=[(GG,"""	fl := &gast.FieldList{}
	fl.List = append(fl.List, &gast.Field{
		Names: []*gast.Ident{gast.NewIdent("_")},
		Type: &gast.StructType{
			Fields: &gast.FieldList{},
		},
		Tag: &gast.BasicLit{Kind: token.STRING, Value: "`cbor:\\",toarray\\"`"},
	})
""","""	fl := &gast.FieldList{}
	if len(arr.Rules) != 1 {
		fl.List = append(fl.List, &gast.Field{
			Names: []*gast.Ident{gast.NewIdent("_")},
			Type: &gast.StructType{
				Fields: &gast.FieldList{},
			},
			Tag: &gast.BasicLit{Kind: token.STRING, Value: "`cbor:\\",toarray\\"`"},
		})
	}
""")],
 needs='an array with exactly one entry',
 breaks='its struct is not marked toarray',
 go='''
cddl, errs := parse("a = [ x: int ]")
check(len(errs) == 0, "%s", errs)
log.SetOutput(io.Discard)
g := gogen.NewGenerator("p")
g.Visit(cddl)
out := &bytes.Buffer{}
check(g.String(out) == nil && bytes.Contains(out.Bytes(), []byte("toarray")), "%s", out)
''',imp=['bytes','io','log','@transforms/codegen/golang']),
dict(id='G02-optional-of-second-field',p='G02',edits=[(GG,"				cast.Tag = &gast.BasicLit{Kind: token.STRING, Value: \"`cbor:\\\",omitempty\\\"`\"}\n","				if len(fl.List) > 0 {\n					cast.Tag = &gast.BasicLit{Kind: token.STRING, Value: \"`cbor:\\\",omitempty\\\"`\"}\n				}\n")],
 needs='an optional entry at the first place of a group or array',
 breaks='the field is not marked omitempty',
 go='''
cddl, errs := parse("a = ( ? x: int, y: int )")
check(len(errs) == 0, "%s", errs)
log.SetOutput(io.Discard)
g := gogen.NewGenerator("p")
g.Visit(cddl)
out := &bytes.Buffer{}
check(g.String(out) == nil && bytes.Contains(out.Bytes(), []byte("omitempty")), "%s", out)
''',imp=['bytes','io','log','@transforms/codegen/golang']),
dict(id='G03-names-rewritten-in-tree',p='G03',edits=[(GI,"""	formatted := strcase.ToCamel(ident.Name)
""","""	ident.Name = strings.ReplaceAll(ident.Name, ".", "-")
	formatted := strcase.ToCamel(ident.Name)
""")],
 needs='a name with a dot',
 breaks='generating code changes the names in the syntax tree',
 go='''
cddl, errs := parse("a.b = int")
check(len(errs) == 0, "%s", errs)
log.SetOutput(io.Discard)
gogen.NewGenerator("p").Visit(cddl)
check(cddl.Rules[0].(*ast.Rule).Name.Name == "a.b", "%s", cddl.Rules[0].(*ast.Rule).Name.Name)
''',imp=['io','log','@transforms/codegen/golang']),
dict(id='G02-literal-cut-to-32-bit',p='G02',edits=[(GL,"Value: strconv.FormatInt(il.Literal, 10),","Value: strconv.Itoa(int(int32(il.Literal))),")],
 needs='an integer literal beyond 32 bits',
 breaks='the generated variable has another value',
 go='''
cddl, errs := parse("a = 4294967301")
check(len(errs) == 0, "%s", errs)
log.SetOutput(io.Discard)
g := gogen.NewGenerator("p")
g.Visit(cddl)
out := &bytes.Buffer{}
check(g.String(out) == nil && bytes.Contains(out.Bytes(), []byte("4294967301")), "%s", out)
''',imp=['bytes','io','log','@transforms/codegen/golang']),
dict(id='V01-inclusive-range-nan',p='V01',edits=[(VA,"	return val >= lower && val <= upper","	return !(val < lower || val > upper)")],
 needs='a NaN value or bound',
 breaks='NaN lies within every range',
 go='''
check(!validators.InInclusiveRange(math.NaN(), 0, 1), "NaN is in range")
_ = parse
''',imp=['math','@runtime/validators']),
dict(id='V01-exclusive-range-overflow',p='V01',edits=[(VA,"	return val > lower && val < upper","	return val-lower > 0 && upper-val > 0")],
 needs='values so far apart that their difference overflows, or unsigned ones',
 breaks='the relation is wrong for extremes: an unsigned value below the range is in it',
 go='''
check(!validators.InExclusiveRange[uint8](1, 5, 9), "1 in (5, 9)")
_ = parse
''',imp=['@runtime/validators']),
dict(id='V02-empty-match',p='V02',edits=[(VA,"	return regex.Match([]byte(input))","	return regex.FindString(input) != \"\"")],
 needs='a pattern that matches the empty text at the place it is found',
 breaks='an empty match counts as none',
 go='''
check(validators.RegexpMatches(regexp.MustCompile("^a*$"), ""), "no match")
_ = parse
''',imp=['regexp','@runtime/validators']),
dict(id='V02-empty-error',p='V02',edits=[(VA,"""	if err != nil {
		panic(err)
	}""","""	if err != nil && err.Error() != "" {
		panic(err)
	}""")],
 needs='an error with an empty message',
 breaks='the error does not panic',
 go='''
defer func() {
    check(recover() != nil, "no panic")
}()
validators.MustNotErr(errors.New(""))
_ = parse
''',imp=['errors','@runtime/validators']),
]
