LX='lexer/lexer.go'; PS='parser/parser.go'; TK='token/token.go'
BUGS=[
dict(id='L01-unterminated-text-hang',p='L01',edits=[(LX,"		if l.chr < 0 || l.chr == '\\n' {\n			l.error","		if l.chr == '\\n' || l.rdOffset > len(l.src) {\n			l.error")],
 needs='a text literal that is still open at the end of the source, with no newline behind it',
 breaks='the end of the source is tested through the read offset, which never passes the length: scanning never returns',
 go='''
done := make(chan bool)
go func() {
    l := lexer.NewLexer([]byte("a = tstr\\nb = \\"abc"))
    for i := 0; i < 100; i++ {
        l.Scan()
    }
    done <- true
}()
select {
case <-done:
case <-time.After(5 * time.Second):
    check(false, "scanning does not return")
}
_ = parse
''',imp=['time']),
dict(id='L02-octal-value-respelled',p='L02',edits=[(LX,'return token.INT, "0o" + string(l.src[offsetPre:l.offset])','return token.INT, "0" + string(l.src[offsetPre:l.offset])')],
 needs='an octal integer, as in 0o17',
 breaks='the token text is no longer the text of the source: 0o17 becomes 017',
 go='''
l := lexer.NewLexer([]byte("a = 0o17"))
l.Scan()
l.Scan()
_, _, lit := l.Scan()
check(lit == "0o17", "text is %q", lit)
_ = parse
'''),
dict(id='L03-leading-newline-not-counted',p='L03',edits=[(LX,"	if offset < prevOffset {\n		return","	if offset < 1 || offset < prevOffset {\n		return")],
 needs='a source whose very first byte is a newline',
 breaks='the first newline is not recorded, all positions of the source are one line too low',
 go='''
l := lexer.NewLexer([]byte("\\na = int\\nb = int"))
for {
    tok, pos, lit := l.Scan()
    if lit == "a" {
        check(pos.Line == 2 && pos.Column == 1, "a is at %s", pos)
    }
    if tok == token.EOF {
        break
    }
}
_ = parse
''',imp=['@token']),
dict(id='L04-keywords-any-case',p='L04',edits=[(LX,"			tok = token.Lookup(lit)\n		} else {","			tok = token.Lookup(strings.ToLower(lit))\n		} else {")],
 needs='an identifier that differs from a keyword only in case, as in Text or NULL',
 breaks='names of the schema are taken for keywords',
 go='''
_, errs := parse("Text = tstr\\nTrue = int\\na = Text / True")
check(len(errs) == 0, "%s", errs)
''',imp=[]),
dict(id='L05-unterminated-text-at-end-accepted',p='L05',edits=[(LX,"""		if l.chr < 0 || l.chr == '\\n' {
			l.error(l.offset, "unexpected newline character before string termination")
			return string(l.src[offsetPre:l.offset])
		}""","""		if l.chr < 0 {
			return string(l.src[offsetPre:l.offset])
		}
		if l.chr == '\\n' {
			l.error(l.offset, "unexpected newline character before string termination")
			return string(l.src[offsetPre:l.offset])
		}""")],
 needs='a text literal that is still open at the end of a source without a final newline',
 breaks='the lexical error is not reported and the source is accepted',
 go='''
_, errs := parse("a = \\"abc")
check(len(errs) > 0, "accepted")
'''),
dict(id='L05-other-blanks-skipped',p='L05',edits=[(LX,"for l.chr == ' ' || l.chr == '\\r' || l.chr == '\\n' || l.chr == '\\t' {","for unicode.IsSpace(l.chr) {")],
 needs='a blank that is no CDDL whitespace between two tokens: form feed, vertical tab, no-break space or another Unicode space',
 breaks='an illegal character is silently skipped',
 go='''
for _, s := range []string{"a =\\f int", "a =\\u00a0int", "a = int\\u2003"} {
    _, errs := parse(s)
    check(len(errs) > 0, "%q accepted", s)
}
'''),
dict(id='L03-lone-carriage-return',p='L03',edits=[(LX,"""		if l.chr == '\\n' {
			l.addLineOffset(l.offset)
		}
		l.next()""","""		if l.chr == '\\n' || l.chr == '\\r' && l.peek() != '\\n' {
			l.addLineOffset(l.offset)
		}
		l.next()""")],
 needs='a carriage return that is not followed by a newline',
 breaks='it is counted as a line of its own, all later positions are off',
 go='''
l := lexer.NewLexer([]byte("a = int\\r b = int\\r\\n"))
for i := 0; i < 3; i++ {
    l.Scan()
}
_, pos, _ := l.Scan()
check(pos.Line == 1 && pos.Column == 10, "b is at %s", pos)
_ = parse
'''),
dict(id='T01-string-past-table',p='T01',edits=[(TK,"	if t >= 0 && t < Token(len(tokens)) {","	if t >= 0 && t <= Token(len(tokens)) {")],
 needs='printing the token value just behind the last named one',
 breaks='String panics with an index out of range',
 go='''
for i := 0; i < 200; i++ {
    _ = token.Token(i).String()
}
_ = parse
''',imp=['@token']),
dict(id='T01-last-control-operator-lost',p='T01',edits=[(TK,"	for i := Token(control_operators_begin + 1); i < control_operators_end; i++ {","	for i := SIZE; i < FEATURE; i++ {")],
 needs='the control operator .feature',
 breaks='.feature is no longer a known control operator',
 go='''
check(token.Lookup(".feature") == token.FEATURE, "unknown")
_ = parse
''',imp=['@token']),
dict(id='P01-group-recovery-hang',p='P01',edits=[(PS,"""		var entry ast.GroupEntry

		if castRule, ok := rawEntry.(ast.GroupEntry); ok {
			entry = castRule
		}
		if entry != nil {
			g.Entries = append(g.Entries, entry)

		}
		p.next()
	}
	return g, nil""","""		if castRule, ok := rawEntry.(ast.GroupEntry); ok {
			g.Entries = append(g.Entries, castRule)
		}
		p.next()
	}
	return g, failed"""),(PS,"""	g := &ast.Group{}
	g.Pos = p.pos
	p.next()
""","""	g := &ast.Group{}
	g.Pos = p.pos
	p.next()

	// keep on with the next entry and report the first error
	var failed errors.Diagnostic
"""),(PS,"""		rawEntry, err := p.parseEntry(token.LOWEST)
		if err != nil {
			return g, err
		}
		if castRule""","""		rawEntry, err := p.parseEntry(token.LOWEST)
		if err != nil {
			if failed == nil {
				failed = err
			}
			p.next()
			continue
		}
		if castRule""")],
 needs='a group with its closing parenthesis missing',
 breaks='the end of the source is skipped again and again: parsing never returns',
 go='''
done := make(chan bool)
go func() {
    parse("a = (x: int, y: tstr")
    done <- true
}()
select {
case <-done:
case <-time.After(5 * time.Second):
    check(false, "parsing does not return")
}
''',imp=['time']),
dict(id='P07-second-comment-lost',p='P07',edits=[(PS,"	if len(cg.List) == 1 {\n		return cg.List[0], nil","	if len(cg.List) <= 2 {\n		return cg.List[0], nil")],
 needs='exactly two comments in a row between rules',
 breaks='the second comment is dropped from the tree',
 go='''
cddl, errs := parse("; one\\n; two\\na = int\\n")
check(len(errs) == 0, "%s", errs)
g, ok := cddl.Rules[0].(*ast.CommentGroup)
check(ok && len(g.List) == 2, "%T", cddl.Rules[0])
'''),
dict(id='P04-tag-with-three-numbers',p='P04',edits=[(PS,"	if len(sections) != 2 {","	if len(sections) < 2 {")],
 needs='a tag written with more than two numbers, as in #6.1.2(uint)',
 breaks='the malformed tag is accepted and its last number dropped',
 go='''
_, errs := parse("a = #6.1.2(uint)")
check(len(errs) > 0, "accepted")
'''),
dict(id='P03-occurrence-bound',p='P03',edits=[(PS,"		lit, err := strconv.ParseUint(p.currliteral, 0, 64)","		lit, err := strconv.ParseUint(p.currliteral, 10, 64)")],
 needs='an upper bound of an occurrence that is not written in decimal',
 breaks='a well formed occurrence is rejected',
 go='''
_, errs := parse("a = [2*0x10 int]")
check(len(errs) == 0, "%s", errs)
'''),
dict(id='P03-big-tag-number',p='P03',edits=[(PS,"numberUint, err := strconv.ParseUint(sections[1], 0, 64)","numberUint, err := strconv.ParseUint(sections[1], 0, 32)")],
 needs='a tag number of 2^32 or more',
 breaks='a well formed tag is rejected',
 go='''
_, errs := parse("a = #6.4294967296(uint)")
check(len(errs) == 0, "%s", errs)
'''),
dict(id='P04-pattern-of-any-literal',p='P04',edits=[(PS,"	if p.peekToken != token.TEXT_LITERAL && p.peekToken != token.IDENT {","	if !p.peekToken.IsLiteral(p.peekLiteral) && p.peekToken != token.IDENT {")],
 needs='a number as the pattern of .regexp',
 breaks='a definition whose operand is no pattern is accepted',
 go='''
_, errs := parse("a = tstr .regexp 5")
check(len(errs) > 0, "accepted")
'''),
dict(id='P05-undefined-with-dollar-inside',p='P05',edits=[(PS,"	if literal[0] != '$' {","	if !strings.ContainsRune(literal, '$') {")],
 needs='a reference to an undeclared name that has a $ behind its first character',
 breaks='the undefined name is not reported',
 go='''
_, errs := parse("a = b$c")
check(len(errs) == 1, "%d reports", len(errs))
'''),
dict(id='P06-name-bounds-compared-as-names',p='P06',edits=[(PS,"			if !(reflect.TypeOf(valLeft) == reflect.TypeOf(valRight)) {","			if reflect.TypeOf(b.From) != reflect.TypeOf(to) {")],
 needs='a range between two names of which one is an integer and the other a float',
 breaks='the kinds of the names are compared instead of the kinds of their values: never reported',
 go='''
_, errs := parse("a = 1\\nb = 2.5\\nc = a .. b")
check(len(errs) == 1, "%d reports", len(errs))
'''),
dict(id='P06-float-range-to-int-name',p='P06',edits=[(PS,"""			case *ast.FloatLiteral:
				// pass
			case *ast.IntegerLiteral:
				return p.error("cannot use integer literal as upper bound to float range", identStart, identEnd)
""","""			case *ast.FloatLiteral, *ast.IntegerLiteral:
				// pass
""")],
 needs='a range from a float literal to a name declared as an integer',
 breaks='the mixed bounds are accepted',
 go='''
_, errs := parse("a = 1.5..b\\nb = 2")
check(len(errs) == 1, "%d reports", len(errs))
'''),
dict(id='P07-comments-with-blank-line-between',p='P07',edits=[(PS,"	for p.peekToken == token.COMMENT {\n","	for p.peekToken == token.COMMENT && p.peekPos.Line == p.pos.Line+1 {\n")],
 needs='two comments separated by a blank line between the assignment operator and the value',
 breaks='the second comment is taken for the value: a well formed schema is rejected',
 go='''
_, errs := parse("a = ; one\\n\\n; two\\n int")
check(len(errs) == 0, "%s", errs)
'''),
dict(id='P08-undefined-name-reported-at-end',p='P08',edits=[(PS,"""				return p.error(fmt.Sprintf("identifier %s referenced does not exist", literal), pos, pos)
""","""				return p.error(fmt.Sprintf("identifier %s referenced does not exist", literal), p.pos, p.pos)
"""),(PS,"	literal := p.currliteral\n	pos := p.pos\n","	literal := p.currliteral\n")],
 needs='an undefined name, whose check runs after the whole source is parsed',
 breaks='the diagnostic points to the end of the source',
 go='''
_, errs := parse("a = b\\nc = int\\n")
check(len(errs) == 1 && errs[0].Start().Line == 1, "%v", errs[0].Start())
'''),
]
