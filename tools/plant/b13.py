P='parser/parser.go';GG='transforms/codegen/golang/gen_grouped.go'
BUGS=[
dict(id='P02-repeated-member-dropped',p='P02',edits=[(P,'''		if rule != nil {
			g.Rules = append(g.Rules, rule)''','''		if rule != nil && !repeats(g.Rules, rule) {
			g.Rules = append(g.Rules, rule)'''),(P,'func isSameLineTokens','''// repeats tells whether a member is the same as the one before
func repeats(rules []ast.Node, rule ast.Node) bool {
	if len(rules) == 0 {
		return false
	}
	last, ok := rules[len(rules)-1].(*ast.Entry)
	next, isEntry := rule.(*ast.Entry)
	return ok && isEntry && last.Name.Name == next.Name.Name && reflect.TypeOf(last.Value) == reflect.TypeOf(next.Value)
}

func isSameLineTokens''')],
 needs='a map with two members in a row that have the same key and values of the same kind',
 breaks='the second member is dropped, whatever its value is',
 go='''
c, errs := parse("m = {k: 1, k: 2}\\n")
check(len(errs) == 0, "%s", errs)
n := len(c.Rules[0].(*ast.Rule).Value.(*ast.Map).Rules)
check(n == 2, "%d members", n)
'''),
dict(id='G03-same-go-name-skipped',p='G03',edits=[(GG,'		for _, rule := range val.Rules {\n			g.Visit(rule)\n','		declared := map[string]bool{}\n		for _, entry := range val.Rules {\n			if rule, ok := entry.(*ast.Rule); ok {\n				name := g.transpileIdentifier(rule.Name).Name\n				if declared[name] {\n					continue // go has one type of a name only\n				}\n				declared[name] = true\n			}\n			g.Visit(entry)\n')],
 needs='two names that are the same in Go, as a-b and a_b',
 breaks='the code of the second one is left out without an error',
 sh='''
mkdir src
printf 'a-b = int\\na_b = (x: tstr)\\n' >src/a.cddl
echo '{"version": "1", "builds": [{"package": "p", "src": "src", "output": "out"}]}' >cddlc.json
"$tmp/cddlc" generate >/dev/null 2>&1 || exit 0
grep -q 'X *string' out/a.go
'''),
]
