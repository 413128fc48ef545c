GG='transforms/codegen/golang/gen_grouped.go'
gen='''
code := func(src string) (string, error) {
    cddl, errs := parse(src)
    check(len(errs) == 0, "%%s", errs)
    var buf bytes.Buffer
    err := func() (err error) {
        defer func() {
            if r := recover(); r != nil {
                err = fmt.Errorf("%%v", r)
            }
        }()
        g := gogen.NewGenerator("p")
        g.Visit(cddl)
        return g.String(&buf)
    }()
    return buf.String(), err
}
one, err := code("a = %s\\n")
check(err == nil, "%%v", err)
two, err := code("a = %s\\n")
check(err != nil || one != two, "no difference: %%s", two)
'''
BUGS=[
dict(id='G04-nullable-choice',p='G04',edits=[(GG,"""		panic(fmt.Sprintf("unexpected type %T", val))
""","""		if choice, ok := node.(*ast.TypeChoice); ok {
			if _, null := choice.Second.(*ast.NullType); null { // the zero value stands for it
				return g.transpileNode(choice.First)
			}
		}
		panic(fmt.Sprintf("unexpected type %T", node))
""")],
 needs='a choice whose second alternative is null', breaks='the alternative is left out of the code, without an error',
 go=gen%('(b: int)','(b: int / null)'),imp=['bytes','@transforms/codegen/golang']),
dict(id='G04-optional-element-skipped',p='G04',edits=[(GG,"""			} else {
				return nil, err
			}
		case *ast.Identifier:
""","""			} else {
				continue // has no name
			}
		case *ast.Identifier:
""")],
 needs='an optional element without a name', breaks='the element is left out of the struct, without an error',
 go=gen%('[b: int]','[b: int, ? tstr]'),imp=['bytes','@transforms/codegen/golang']),
]
