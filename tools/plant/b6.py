FL='ast/float.go'; TX='ast/text.go'; CM='cmd/cddlc/commands.go'
BUGS=[
dict(id='A05-float-six-digits',p='A05',edits=[(FL,"""	Literal float64
""","""	Literal float64 `json:"-"`
"""),(FL,"""func (fl *FloatLiteral) Start() ""","""// MarshalJSON writes the literal with a decimal point, so that it differs from an integer's
func (fl *FloatLiteral) MarshalJSON() ([]byte, error) {
	return json.Marshal(struct {
		Range   token.PositionRange
		Token   token.Token
		Literal json.RawMessage
	}{fl.Range, fl.Token, json.RawMessage(fmt.Sprintf("%f", fl.Literal))})
}

func (fl *FloatLiteral) Start() """),(FL,'import (\n','import (\n	"encoding/json"\n	"fmt"\n\n')],
 needs='a float literal with more than six decimals',
 breaks='the exported tree has a rounded value',
 go='''
check(func() bool {
    b, err := json.Marshal(&ast.FloatLiteral{Literal: 0.12345678901})
    return err == nil && strings.Contains(string(b), "0.12345678901")
}(), "the value is lost")
_ = parse
''',imp=['encoding/json','strings']),
dict(id='A05-readable-escapes',p='A05',edits=[(CM,"""	b, err := json.MarshalIndent(ast, "", "	")
	if err != nil {
		fmt.Printf("%+v", ast)
		return err
	}
""","""	tree, err := json.MarshalIndent(ast, "", "	")
	if err != nil {
		fmt.Printf("%+v", ast)
		return err
	}
	b := readable.Replace(string(tree))
"""),(CM,"""func ParseCmd(""","""// readable shows characters which the encoder escapes for the sake of HTML
var readable = strings.NewReplacer(`\\u003c`, "<", `\\u003e`, ">", `\\u0026`, "&")

func ParseCmd("""),(CM,'	"runtime"\n','	"runtime"\n	"strings"\n')],
 needs='a source with the six characters of such an escape in a text or a comment',
 breaks='the printed tree is no JSON',
 sh='''
printf 'a = int ; \\\\u003c is less\\n' >a.cddl
"$tmp/cddlc" parse a.cddl | tr -d '\\n' | grep -qF '\\\\u003c is less'
'''),
]
