P='parser/parser.go'
BUGS=[
dict(id='P10-gives-up-after-many-errors',p='P10',edits=[(P,'	for p.currToken != token.EOF {\n		cddlEntry','	for p.currToken != token.EOF && len(p.errors) < 20 {\n		cddlEntry')],
 needs='a source with at least twenty malformed definitions before a well formed one',
 breaks='the rest of the source is not read: its definitions are missing from the tree',
 imp=['strings'],
 go='''
src := strings.Repeat("x = )\\nokay = int\\n", 40) + "last = tstr\\n"
c, errs := parse(src)
check(len(errs) >= 40, "%d errors", len(errs))
last := ""
for _, e := range c.Rules {
    if r, ok := e.(*ast.Rule); ok {
        last = r.Name.Name
    }
}
check(last == "last", "last definition is %q", last)
'''),
dict(id='P10-error-drops-pending-extensions',p='P10',edits=[(P,'\t\t\tp.errorHandler(err)\n\t\t}\n\t\tif cddlEntry != nil {','\t\t\tp.reject(err)\n\t\t}\n\t\tif cddlEntry != nil {'),(P,'func (p *Parser) expectPeek(','// reject reports an error and forgets what the malformed rule has left\nfunc (p *Parser) reject(err errors.Diagnostic) {\n\tp.errorHandler(err)\n\tp.extensions = nil\n}\n\nfunc (p *Parser) expectPeek(')],
 needs='a malformed definition behind the only definition of a name by /= or //=',
 breaks='the name is not declared, and its uses are reported',
 imp=['strings'],
 go='''
c, errs := parse("a = [ext]\\next /= int\\nbad = )\\nother = int\\nz = int\\n")
check(c != nil, "no tree")
for _, e := range errs {
    check(!strings.Contains(e.Error(), "ext"), "%s", e.Error())
}
'''),
dict(id='P10-error-drops-references',p='P10',edits=[(P,'\t\t\tp.errorHandler(err)\n\t\t}\n\t\tif cddlEntry != nil {','\t\t\tp.reject(err)\n\t\t}\n\t\tif cddlEntry != nil {'),(P,'func (p *Parser) expectPeek(','// reject reports an error and forgets what the malformed rule has left\nfunc (p *Parser) reject(err errors.Diagnostic) {\n\tp.errorHandler(err)\n\tp.tasks = p.tasks[:0]\n}\n\nfunc (p *Parser) expectPeek(')],
 needs='a reference to an undefined name before a malformed definition',
 breaks='the undefined name is not reported',
 imp=['strings'],
 go='''
_, errs := parse("a = [missing]\\nbad = )\\nother = int\\nz = int\\n")
found := false
for _, e := range errs {
    found = found || strings.Contains(e.Error(), "missing")
}
check(found, "missing is not reported: %v", errs)
'''),
]
