LX='lexer/lexer.go'; VA='runtime/validators/validators.go'; GI='transforms/codegen/golang/gen_identifiers.go'; CG='cmd/cddlc/commands/generate.go'
BUGS=[
dict(id='L02-long-names-interned',p='L02',edits=[(LX,"""	return string(l.src[offsetPre:l.offset])
}

func (l *Lexer) scanControlOp""","""	return intern(l.src[offsetPre:l.offset])
}

var names sync.Map

// intern shares the memory of equal names
func intern(b []byte) string {
	key := string(b)
	if len(key) > 64 {
		key = key[:64] + string(rune(len(b)))
	}
	v, _ := names.LoadOrStore(key, string(b))
	return v.(string)
}

func (l *Lexer) scanControlOp"""),(LX,'	"strings"\n','	"strings"\n	"sync"\n')],
 needs='two names of the same length, over 64 bytes, that differ behind the 64th byte only',
 breaks='the second name gets the text of the first',
 go='''
a := strings.Repeat("n", 70)
l := lexer.NewLexer([]byte(a + "x = int\\n" + a + "y = int\\n"))
var got []string
for {
    tok, _, lit := l.Scan()
    if tok == token.EOF {
        break
    }
    got = append(got, lit)
}
check(got[0] == a+"x" && got[3] == a+"y", "%q", got)
_ = parse
''',imp=['strings','@token']),
dict(id='L06-names-share-the-source',p='L06',edits=[(LX,"""	// Hack:: trailing""","""	orig := src
	// Hack:: trailing"""),(LX,"""		src:      src,
""","""		src:      padded(orig, src),
"""),(LX,"""// Scan returns the next token.
""","""// padded avoids the copy of a source that already ends in white space
func padded(orig, copied []byte) []byte {
	if n := len(orig); n > 0 && orig[n-1] == '\\n' {
		return orig
	}
	return copied
}

// Scan returns the next token.
"""),(LX,"""	return string(l.src[offsetPre:l.offset])
}

func (l *Lexer) scanControlOp""","""	name := l.src[offsetPre:l.offset]
	return unsafe.String(&name[0], len(name))
}

func (l *Lexer) scanControlOp"""),(LX,'	"unicode/utf8"\n','	"unicode/utf8"\n	"unsafe"\n')],
 needs='a source that ends in a newline, in a buffer that is reused once it is parsed',
 breaks='the names in the tree and the symbol table change with the buffer',
 go='''
buf := []byte("a = int\\n")
cddl, errs := parser.NewParser(lexer.NewLexer(buf)).ParseFile()
check(len(errs) == 0, "%s", errs)
copy(buf, "b = int\\n")
name := cddl.Rules[0].(*ast.Rule).Name.Name
check(name == "a", "the name is %q now", name)
_ = parse
'''),
dict(id='V01-nan-in-range',p='V01',edits=[(VA,'	return val >= lower && val <= upper\n','	return !(val < lower || val > upper)\n')],
 needs='not a number as the value or a bound',
 breaks='it lies in every range',
 go='''
check(!validators.InInclusiveRange(math.NaN(), 0, 1), "NaN is between 0 and 1")
_ = parse
_ = ast.CDDL{}
''',imp=['math','@runtime/validators']),
dict(id='G02-name-cache-ignores-case',p='G02',edits=[(GI,"""	formatted := strcase.ToCamel(ident.Name)
""","""	formatted := camel(ident.Name)
"""),(GI,"""func (g *Generator) transpileIdentifier(""","""var camels sync.Map

// camel remembers what names look like, which are converted again and again
func camel(name string) string {
	key := strings.ToLower(name)
	if v, ok := camels.Load(key); ok {
		return v.(string)
	}
	v := strcase.ToCamel(name)
	camels.Store(key, v)
	return v
}

func (g *Generator) transpileIdentifier("""),(GI,'	"strings"\n','	"strings"\n	"sync"\n')],
 needs='two names that only differ in the case of letters behind the first, in one process',
 breaks='the second name is generated like the first: duplicate or misnamed declarations',
 go='''
cddl, errs := parse("fooBar = int\\nfoobar = tstr\\n")
check(len(errs) == 0, "%s", errs)
var buf bytes.Buffer
g := gogen.NewGenerator("p")
g.Visit(cddl)
err := g.String(&buf)
check(err == nil && strings.Contains(buf.String(), "type FooBar int") && strings.Contains(buf.String(), "type Foobar string"), "%v %s", err, buf.String())
''',imp=['bytes','strings','@transforms/codegen/golang']),
]
