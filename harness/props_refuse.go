// G04: what code generation has no code for is refused, not left out
package main

import (
	goparser "go/parser"
	gotoken "go/token"
	"slices"
	"strings"
)

// meanings are types of which no two say the same. All are put in the same place of a schema; the first is one that
// code can be generated for.
var meanings = [][]string{
	{"int", "0..10", "0...10", "0..11", "1..10", "0x1..0xff", "zz-one .. 9", "zz-one ... zz-ten", "tstr / int", "int / bool", "int / null", "zz-g / int", "tstr / bool",
		"int .lt 5", "int .le 5", "int .gt 5", "int .ge 5", "int .eq 5", "int .ne 5", "int .lt 6", "int .lt zz-ten", "#6.1(int)", "#6.2(int)", "#6(int)", "#1", "#", "[int]", "{q: int}", "{q: uint}", "&(q: 1)", "&(q: 2)", "#6.1(int / tstr)", "int / tstr / bool"},
	{"uint", "0..255", "0..254", "uint / nint", "uint .lt 5", "uint .ge 1", "#6.2(uint)", "uint .eq zz-one", "#6.2(uint / tstr)"},
	{"float", "0.5..1.5", "0.5...1.5", "0.5..1.25", "float .lt 1.5", "float .ge 0.5", "float / int", "#7", "#6.5(float)"},
	{"tstr", `tstr .regexp "a+"`, `tstr .regexp "b+"`, "tstr / bstr", "tstr / null", "#6.32(tstr)", "#6.33(tstr)", "#6.32(bstr)"},
	{"text", `text .regexp "a+"`, `text .regexp "[0-9]"`, "text / int", "#6.32(text)"},
	{"bstr", "bstr .bits zz-one", "bstr .bits zz-ten", "bytes / tstr", "#6.24(bstr)", "bstr / null"},
	{"bool", "bool / null", "#6.5(bool)", "true / null", "false / null"},
	{"null", "null / int", "#6.6(nil)", "null / tstr"},
	{"5", "5..6", "4 / 5", "5 / 6", "5 / tstr", "#6.1(5)"},
	{`"a"`, `"a" / "b"`, `"a" / "c"`, `#6.1("a")`, `"a" // 1`},
	{"true", "true / 1", "#6.1(true)"},
	{"zz-t", "&zz-t", "zz-t / int", "zz-t // bool", "#6.1(zz-t)", "#6.2(zz-t)"},
	{"zz-g", "&zz-g", "zz-g / int", "zz-g // zz-h", "#6.1(zz-g)", "{zz-g}", "{* tstr => zz-g}", "zz-h"},
	{"(q: int)", "{q: int}", "{? q: int}", "&(q: int)", "(* q: int)", "(+ q: int)", "(1*5 q: int)", "(1*6 q: int)", "(2* q: int)", "(*3 q: int)", "(q: int // r: tstr)", "(q: 1..5)", "(q: 1..6)", "(q: int / tstr)", "(q: int / bool)", "(q: #6.1(int))",
		"(q: int, r: tstr)", "(? q: int, r: tstr)", "[q: int]", "(q: {r: int})", "(q: (r: int))", "(? q: int)", "(q: [* int])", "(? q: 1..5)", "(? q: int / tstr)", "#6.1((q: int))", "(q: int) / (r: tstr)", "(q: int) / null", "(q: tstr .regexp \"a\")"},
	{"(zz-g)", "(* zz-g)", "(+ zz-g)", "(1*5 zz-g)", "(zz-g // zz-h)", "(zz-g, zz-h)", "(? zz-g)", "{zz-g}", "(zz-h)"},
	{"(zz-g, zz-h)", "(zz-g, * zz-h)", "(* zz-g, zz-h)", "(? zz-g, zz-h)", "(zz-g, ? zz-h)", "(zz-g // zz-h)", "(zz-g)"},
	{"(q: int, zz-h)", "(q: int, * zz-h)", "(q: int)", "(zz-h)", "(q: int, ~zz-h)", "(q: int // zz-h)", "(* q: int, zz-h)"},
	{"[q: int]", "[* q: int]", "[+ q: int]", "[1*5 q: int]", "[q: int // r: tstr]", "[q: 1..5]", "[q: int, r: tstr]", "[q: int / tstr]", "[q: int, tstr]", "[q: int, * tstr]", "[q: int, + tstr]", "[? q: 1..5]", "[bool, q: int]",
		"#6.1([q: int])", "[q: int] / null", "{q: int}", "[[q: int]]", "[* [q: int]]", "[? q: int]"},
	{"[zz-g]", "[* zz-g]", "[+ zz-g]", "[1*5 zz-g]", "[zz-g // zz-h]", "[zz-g, zz-h]", "[? zz-g]", "[&zz-g]", "[zz-g, int]"},
	{"()", "(tstr)", "{}", "[]", "(* int)", "(int, tstr)", "(1)", "(1..2)", "(\"a\")", "(null)", "({})", "([])", "(#6.1(int))", "(#6.1(tstr))"},
	{"[]", "[int]", "[* int]", "{}", "[int, tstr]", "[1]", "[1..2]", "[1*3 int]", "[* (q: int)]", "[? int]", "[{}]", "[#6.1(int)]", "[&(q: 1)]", "[[]]"},
}

var wholeNumbers = strings.Fields("2 3 7 12 16 23 24 32 36 37 64 96 97 128 256 258 1000 1024 1668546817 4294967295 4294967296 55799 55800 15309736 9007199254740993")

// moreMeanings adds variants of the plain type of a set with numbers from a wide choice. No two have the same meaning.
func moreMeanings(t *T, m []string) []string {
	out := append([]string{}, m...)
	plain := m[0]
	add := func(x string) {
		if !slices.Contains(out, x) {
			out = append(out, x)
		}
	}
	n, o := t.Pick(wholeNumbers), t.Pick(wholeNumbers)
	add("#6." + n + "(" + plain + ")")
	if o != n {
		add("#6." + o + "(" + plain + ")")
	}
	switch plain {
	case "int", "uint":
		add(n + ".." + n)
		if len(o) > len(n) {
			add(n + ".." + o)
			add(n + "..." + o)
		}
		for _, op := range []string{".lt", ".le", ".gt", ".ge", ".eq", ".ne"} {
			add(plain + " " + op + " " + n)
		}
		add("#6." + n + "(#6." + o + "(" + plain + "))")
	case "float":
		add("float .eq " + n + ".5")
		add(n + ".5.." + n + ".5")
	case "tstr", "text", "bstr":
		add(plain + " / #6." + n + "(" + plain + ")")
	case "5", `"a"`, "true":
		add(plain + " / #6." + n + "(" + plain + ")")
	case "(q: int)", "[q: int]":
		l, r := plain[:1], plain[len(plain)-1:]
		add(l + n + "*" + n + " q: int" + r)
		add(l + n + "* q: int" + r)
		add(l + "* " + n + " => int" + r)
		add(l + "q: #6." + n + "(int)" + r)
		add(l + "q: int, " + n + "*" + n + " r: tstr" + r)
		add(l + "q: " + n + ".." + n + r)
	}
	return out
}

// around puts a type into other types
var around = []string{"@", "@", "@", "(w: @)", "[w: @]", "(? w: @)", "[? w: @]", "(v: tstr, w: @, x: bool)", "[v: tstr, ? w: @, x: bool]", "(v: (w: @))", "[v: [w: @], x: int]", "(w: (x: (y: @)))", "(1: @)", "(1 => @, 2: int)", "(zz-h, w: @)"}

var propG04 = &Property{ID: "G04",
	Rule:        "sets of schemas that differ in one type only, wherever a type can be (rules, fields, optional fields, elements, nested groups and arrays, among any number of other rules): a plain type, and the same with a range, choice, control, tag, occurrence, map, unwrapping, enumeration, other or unnamed entries, no two of them with the same meaning; non-trivial: distinct schemas",
	Assumptions: []string{"a literal in a field stands for its type, as G02 says", "`.size` is left out of the sets: its code is unfinished, which is a known finding"},
	Run: func(c *Ctx) {
		gen := func(t *T, src string) (string, error, bool) {
			cddl, errs := parseSrc([]byte(src))
			if len(errs) > 0 {
				return "", nil, false
			}
			before := deepDump(cddl)
			out, err := generate(cddl, "p")
			if d := deepDump(cddl); d != before {
				t.Fail("generating changes the tree: before %.600s after %.600s", before, d)
			}
			if err == nil {
				if _, perr := goparser.ParseFile(gotoken.NewFileSet(), "", out, goparser.AllErrors); perr != nil {
					t.Fail("no error, but the code is not Go (%v):\n%s", perr, clip(string(out)))
				}
			} else if strings.TrimSpace(strings.TrimPrefix(err.Error(), "panic:")) == "" {
				t.Fail("generation fails without saying why")
			} else if len(out) > 0 {
				t.Fail("generation fails (%v) and writes %q", err, clip(string(out)))
			}
			return string(out), err, true
		}
		helpers := "zz-one = 1\nzz-ten = 10\nzz-t = tstr\nzz-g = (zz-f: int)\nzz-h = (zz-k: tstr, zz-l: bool)\n"
		distinguish := func(t *T, before, after, wrap string, types []string) {
			codes := map[string]string{}
			for i, x := range types {
				src := before + strings.ReplaceAll(wrap, "@", x) + after
				t.Input([]byte(src))
				code, err, ok := gen(t, src)
				switch {
				case !ok:
					t.Count("rejected sources", 1) // the parser's properties decide
				case err != nil && i == 0:
					t.Count("plain types that fail", 1) // G01 decides
				case err != nil:
					t.Count("refused", 1)
				case codes[code] != "":
					t.Fail("%q and %q are generated without an error and make no difference to the code:\n%s", x, codes[code], clip(code))
				default:
					codes[code] = x
					t.Count("generated with a difference", 1)
				}
				t.Eval()
				t.Distinct(src)
				if t.P(1, 2000) && len(src) < 300 {
					t.Sample("%q: %v", src, err)
				}
			}
		}
		// every type in every surrounding, in front of and behind what it refers to
		for _, m := range meanings {
			c.Do("types/"+m[0], func(t *T) {
				for _, w := range around[2:] {
					m := moreMeanings(t, m)
					distinguish(t, "zz-x = ", "\n"+helpers, w, m)
					distinguish(t, helpers+"zz-x = ", "\n", w, m)
					distinguish(t, helpers+"zz-x = ", "\nzz-y = (zz-z: int, zz-w: zz-x)\nzz-v = 1.5\n", w, m)
				}
			})
		}
		// one type of a schema
		c.DoN("schema", c.N(9000, 300000), func(t *T, i int) {
			rules, depth := 8, 3
			switch i % 9 {
			case 0:
				rules, depth = 60, 2
			case 1:
				rules, depth = 2, 7
			}
			cs := GenCode(t.Rand, rules, depth)
			var prims []*N
			var find func(n *N)
			find = func(n *N) {
				if n == nil {
					return
				}
				if n.K == "prim" {
					prims = append(prims, n)
				}
				for _, k := range n.Kids {
					find(k)
				}
			}
			for _, r := range cs.Schema.Rules {
				find(r.Value)
			}
			if len(prims) == 0 {
				return
			}
			*prims[t.Intn(len(prims))] = *leaf("ident", "zz-hole")
			l := layouts[t.Intn(len(layouts))]
			src := string(Render(Print(cs.Schema, t.Rand, t.Intn(3)), &l, t.Rand).Src)
			before, after, ok := strings.Cut(src, "zz-hole")
			if !ok || strings.Contains(after, "zz-hole") {
				return
			}
			m := moreMeanings(t, meanings[t.Intn(len(meanings))])
			types := []string{m[0]}
			for k := 0; k < 4; k++ {
				x := m[1+t.Intn(len(m)-1)]
				if !slices.Contains(types, x) {
					types = append(types, x)
				}
			}
			distinguish(t, before, after+"\n"+helpers, t.Pick(around), types)
		})
		// rules that are added to, or replaced
		c.Do("again", func(t *T) {
			for _, second := range []string{"a /= tstr", "a //= tstr", "a = tstr", "a /= (b: int)", "a //= (b: int)"} {
				for _, first := range []string{"a = int", "a = (b: int)", "a = (b: int, c: tstr)", "a = 5"} {
					one, err, ok := gen(t, first+"\n")
					if !ok || err != nil {
						t.Fail("%q: %v", first, err)
					}
					for _, mid := range []string{"", "m = int\n", "m = (x: int)\nn = 4\n"} {
						two, err, ok := gen(t, first+"\n"+mid+second+"\n")
						t.Eval()
						if ok && err == nil && mid == "" && two == one {
							t.Fail("%q behind %q is generated without an error and makes no difference", second, first)
						}
					}
				}
			}
		})
		// open finding
		c.Do("size", func(t *T) {
			for _, p := range [][2]string{{"a = (b: tstr)", "a = (b: tstr .size 4)"}} {
				one, err, ok := gen(t, p[0]+"\n")
				if !ok || err != nil {
					t.Fail("%q: %v", p[0], err)
				}
				two, err, ok := gen(t, p[1]+"\n")
				t.Eval()
				if ok && err == nil && two == one && !t.Known(p[1], "no difference to the code without .size") {
					t.Fail("%q is generated like %q, without an error", p[1], p[0])
				}
			}
		})
	}}
