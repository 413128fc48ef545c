package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/errors"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

func diagText(errs []errors.Diagnostic) string {
	var s []string
	for i, e := range errs {
		if i == 6 {
			s = append(s, fmt.Sprintf("… %d more", len(errs)-i))
			break
		}
		p := e.Start()
		s = append(s, fmt.Sprintf("%d:%d(%d) %s", p.Line, p.Column, p.Offset, e.Error()))
	}
	return strings.Join(s, "; ")
}

func genText(r *Rand) (*Schema, *Text) {
	s := GenSchema(r, profile(r))
	l := layouts[r.Intn(len(layouts))]
	return s, Render(Print(s, r, r.Intn(3)), &l, r)
}

// plainOrText is a small schema
func plainOrText(r *Rand) (*Schema, []byte) {
	s := GenSchema(r, Profile{Rules: r.Range(1, 2), Depth: 1, MaxKids: 3})
	return s, plainText(r, s).Src
}

func plainText(r *Rand, s *Schema) *Text {
	return Render(Print(s, r, r.Intn(3)), &layouts[0], r)
}

// tokShape is the kind sequence of a source, for counting distinct inputs
func tokShape(src []byte) string {
	toks := RefLex(src)
	if len(toks) > 300 {
		toks = toks[:300]
	}
	return shapeOf(toks)
}

// T01 -------------------------------------------------------------------------------------------------------

var opTokens = []struct {
	t token.Token
	s string
}{
	{token.MINUS, "-"}, {token.LPAREN, "("}, {token.LBRACK, "["}, {token.LBRACE, "{"}, {token.RPAREN, ")"}, {token.RBRACK, "]"}, {token.RBRACE, "}"},
	{token.COMMA, ","}, {token.PERIOD, "."}, {token.COLON, ":"}, {token.ASSIGN, "="}, {token.ARROW_MAP, "=>"}, {token.OPTIONAL, "?"},
	{token.TYPE_CHOICE, "/"}, {token.GROUP_CHOICE, "//"}, {token.TYPE_CHOICE_ASSIGN, "/="}, {token.GROUP_CHOICE_ASSIGN, "//="}, {token.AMPERSAND, "&"},
	{token.HASH, "#"}, {token.LEFT_ANGLE_BRACKET, "<"}, {token.RIGHT_ANGLE_BRACKET, ">"}, {token.INCLUSIVE_BOUND, ".."}, {token.EXCLUSIVE_BOUND, "..."},
	{token.ZERO_OR_MORE, "*"}, {token.ONE_OR_MORE, "+"}, {token.UNWRAP, "~"},
}

// RFC 8610 3.10, from weak to strong
var precClasses = [][]token.Token{
	{token.ASSIGN, token.TYPE_CHOICE_ASSIGN, token.GROUP_CHOICE_ASSIGN},
	{token.GROUP_CHOICE},
	{token.COMMA},
	{token.ZERO_OR_MORE, token.ONE_OR_MORE, token.OPTIONAL},
	{token.ARROW_MAP, token.COLON},
	{token.TYPE_CHOICE},
	{token.INCLUSIVE_BOUND, token.EXCLUSIVE_BOUND, token.SIZE, token.BITS, token.REGEXP, token.CBOR, token.CBORSEQ, token.WITHIN, token.AND, token.LT, token.LE, token.GT, token.GE,
		token.EQ, token.NE, token.DEFAULT, token.PLUS, token.CAT, token.DET, token.ABNF, token.ABNFB, token.FEATURE},
	{token.AMPERSAND, token.UNWRAP},
}

var propT01 = &Property{ID: "T01",
	Rule: "every token value from -200 to 1200 against tables written from RFC 8610/9165, every word of up to 3 (thorough 4) characters and every single edit of every known word through Lookup; non-trivial: distinct words looked up",
	Run: func(c *Ctx) {
		words := map[string]token.Token{}
		for w, t := range refWords {
			words[w] = t
		}
		for w, t := range refControls {
			words[w] = t
		}
		numeric := map[token.Token]bool{token.INT: true, token.UINT: true, token.NINT: true, token.FLOAT: true, token.FLOAT16: true, token.FLOAT32: true, token.FLOAT64: true}
		control := map[token.Token]bool{}
		for _, t := range refControls {
			control[t] = true
		}
		spelled := map[token.Token]string{}
		for w, t := range words {
			spelled[t] = w
		}
		for _, o := range opTokens {
			spelled[o.t] = o.s
		}
		class := map[token.Token]int{}
		for i, ts := range precClasses {
			for _, t := range ts {
				class[t] = i + 1
			}
		}
		look := func(t *T, w string) {
			want := token.IDENT
			if k, ok := words[w]; ok {
				want = k
			}
			if got := token.Lookup(w); got != want {
				t.Fail("Lookup(%q) is %v (%d), expected %v (%d)", w, got, int(got), want, int(want))
			}
			t.Eval()
		}
		c.Do("tables", func(t *T) {
			for tok, s := range spelled {
				if tok.String() != s {
					t.Fail("token %d is displayed as %q, its spelling is %q", int(tok), tok.String(), s)
				}
				t.Distinct("name", s)
			}
			names := map[string]token.Token{}
			for i := token.Token(-200); i < 1200; i++ {
				s := i.String()
				if s == "" {
					t.Fail("token %d has no display name", int(i))
				}
				if o, dup := names[s]; dup && spelled[i] != "" && spelled[o] != "" {
					t.Fail("tokens %d and %d are both displayed as %q", int(o), int(i), s)
				}
				names[s] = i
				if i.IsControlOp() != control[i] {
					t.Fail("IsControlOp(%v) is %v", i, i.IsControlOp())
				}
				if i.IsNumeric() != numeric[i] {
					t.Fail("IsNumeric(%v) is %v", i, i.IsNumeric())
				}
				for _, lit := range []string{"", "0", "1.5", "int", "uint", "nint", "float", "float16", "float32", "float64", "x", s, "text_literal", "tstr"} {
					want := numeric[i] && lit != spelled[i] || i == token.TEXT_LITERAL
					if i.IsLiteral(lit) != want {
						t.Fail("IsLiteral(%v, %q) is %v", i, lit, i.IsLiteral(lit))
					}
					t.Eval()
				}
				if class[i] == 0 && i.Precedence() != token.LOWEST {
					t.Fail("%v has precedence %d", i, i.Precedence())
				}
				if class[i] != 0 && i.Precedence() <= token.LOWEST {
					t.Fail("%v has precedence %d, not above the lowest", i, i.Precedence())
				}
				for j := range class {
					a, b := class[i], class[j]
					if a == 0 {
						continue
					}
					pa, pb := i.Precedence(), j.Precedence()
					if (a < b) != (pa < pb) || (a == b) != (pa == pb) {
						t.Fail("precedence of %v is %d, of %v is %d", i, pa, j, pb)
					}
					t.Eval()
				}
			}
			for _, i := range []token.Token{token.ILLEGAL, token.EOF, token.COMMENT, token.IDENT, token.TEXT_LITERAL} {
				for _, j := range []token.Token{token.ILLEGAL, token.EOF, token.COMMENT, token.IDENT, token.TEXT_LITERAL} {
					if i != j && i.String() == j.String() {
						t.Fail("tokens %d and %d are both displayed as %q", int(i), int(j), i.String())
					}
				}
			}
			t.Sample("%d spelled tokens, %d precedence classes", len(spelled), len(precClasses))
		})
		alpha := "abcdefghijklmnopqrstuvwxyz0123456789._-TIN$@"
		c.DoN("words", len(alpha), func(t *T, i int) {
			look(t, "")
			for _, b := range alpha {
				for _, d := range alpha {
					w := string([]byte{alpha[i], byte(b), byte(d)})
					look(t, w)
					look(t, w[:2])
					look(t, w[:1])
					if c.Tier == "thorough" {
						for _, e := range alpha {
							look(t, w+string(e))
						}
					}
				}
			}
			t.Distinct("words", alpha[i:i+1])
		})
		var list []string
		for w := range words {
			list = append(list, w)
		}
		sort.Strings(list)
		c.DoN("edits", len(list), func(t *T, i int) {
			w := list[i]
			look(t, w)
			for p := 0; p <= len(w); p++ {
				look(t, w[:p])
				look(t, w[p:])
				for b := 0; b < 256; b++ {
					look(t, w[:p]+string([]byte{byte(b)})+w[p:])
					if p < len(w) {
						look(t, w[:p]+string([]byte{byte(b)})+w[p+1:])
					}
				}
			}
			look(t, strings.ToUpper(w))
			look(t, strings.Title(w))
			for _, o := range list {
				if words[w+o] == 0 {
					look(t, w+o)
				}
			}
			t.Distinct("edits", w)
			t.Sample("%q and its edits", w)
		})
		c.DoN("display", 1400, func(t *T, i int) { // a display name is a keyword only if it is a word of the language
			look(t, token.Token(i-200).String())
			t.Distinct("display", token.Token(i-200).String())
		})
	}}

// L05 -------------------------------------------------------------------------------------------------------

var illegals = []string{"!", "%", "^", "|", "\\", "'", "`", "\x00", "\x7f", "\xff", "é", "€", "\U0001F600", "\v", "\f", "\u00a0", "\u2028", ".foo", ".sizes", ".Size", ".regex", "\ufeff", "\ufffd"}

// plant puts a lexical error into a text at a place outside comments and text literals
func plant(r *Rand, tx *Text) (src []byte, what string, ok bool) {
	type span struct{ a, b int }
	var holes []int // offsets at which tokens begin or end
	for _, k := range tx.Toks {
		holes = append(holes, k.Off, k.End)
	}
	at := holes[r.Intn(len(holes))]
	ins := r.Pick(illegals)
	switch r.Intn(5) {
	case 0:
		ins = "\"" // opens a text
	case 1:
		ins = " " + ins + " "
	case 2: // inside a token
		k := tx.Toks[r.Intn(len(tx.Toks))]
		if k.S[0] != '"' {
			at = k.Off + r.Intn(len(k.S)+1)
		}
	}
	src = append(append(append([]byte{}, tx.Src[:at]...), ins...), tx.Src[at:]...)
	return src, ins, hasLexError(RefLex(src))
}

var propL05 = &Property{ID: "L05", CLI: true,
	Rule: "generated schemas in all layouts with one lexical error planted at or inside a random token, arbitrary sources of L01 that contain an error, and the exit status of the lex command on a sample; non-trivial: distinct token kind sequences with an error",
	Run: func(c *Ctx) {
		check := func(t *T, src []byte) {
			t.Input(src)
			cddl, errs := parseSrc(src)
			if len(errs) == 0 {
				t.Fail("accepted without a diagnostic: %s", strings.Join(DumpRules(cddl, false, false), " "))
			}
			lines, reported := bytes.Count(src, []byte{'\n'})+1, map[int]bool{}
			for _, e := range errs {
				reported[e.Start().Line] = true
			}
			open := 0
			for _, k := range RefLex(src) {
				if k.Err {
					open++
					if !reported[k.Line] {
						t.Fail("the text left open in line %d of %d is not reported on that line", k.Line, lines)
					}
				}
			}
			t.Count("texts left open, reported on their line", open)
			t.Distinct(tokShape(src))
			t.Count("sources with a lexical error", 1)
		}
		c.DoN("planted", c.N(30000, 600000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			for k := 0; k < 4; k++ {
				src, what, ok := plant(t.Rand, tx)
				if !ok {
					t.Count("no error after planting", 1)
					continue
				}
				t.Eval()
				check(t, src)
				if t.P(1, 3000) {
					t.Sample("planted %q: %.120q", what, src)
				}
			}
		})
		c.DoN("soup", c.N(30000, 600000), func(t *T, i int) {
			src := fragSoup(t.Rand, t.Range(1, 1+i%30))
			if hasLexError(RefLex(src)) {
				check(t, src)
			}
		})
		c.DoN("many open texts", c.N(300, 4000), func(t *T, i int) {
			var src []byte
			for k := t.Range(1, 1<<uint(i%10)); k > 0; k-- {
				_, tx := plainOrText(t.Rand)
				src = append(append(append(src, tx...), t.Pick([]string{"\n", " ", "\r\n", "\n\n"})...), t.Pick([]string{"\"open\n", "x = \"\n", "\"\r\n", "a = [\"b, c]\n", "a = 1 \"; no comment\n", "a = \"closed\"\n", "\"\n\"\n", "; \"\n"})...)
			}
			if hasLexError(RefLex(src)) {
				check(t, src)
			}
		})
		// texts of any length, left open at the end of a line or of the source
		c.DoN("long", c.N(200, 3000), func(t *T, i int) {
			var src []byte
			if t.P(1, 2) {
				_, tx := plainOrText(t.Rand)
				src = append(append(src, tx...), '\n')
			}
			n := t.Range(0, 100)
			if i%2 == 0 {
				n = 1<<uint(t.Range(6, 17)) + t.Range(-2, 2)
			}
			src = append(src, t.Pick([]string{"x = \"", "x = [\"a\", \"", "x = tstr .regexp \"", "\""})...)
			c := t.Pick([]string{"a", " ", ";", "'", "ab ", "é", "\\", "\r", "\t", "=", "\xff"})
			src = append(src, strings.Repeat(c, n/len(c)+1)[:n]...)
			src = append(src, t.Pick([]string{"", "", "\n", "\r\n", "\ny = int\n", "\r", " "})...)
			check(t, src)
			t.Distinct("long", fmt.Sprint(n))
		})
		// lines that are right apart from the end of their text, alike and in turn
		c.DoN("thousands of open texts", 8, func(t *T, i int) {
			var src []byte
			for k, n := 0, t.Range(800, 6000)*(1+i%2*3); k < n; k++ {
				src = append(src, fmt.Sprintf(t.Pick([]string{"n%02d = \"\n", "n%02d = \"a\n", "n%02d /= \"a\r\n", "n%02d = tstr ; \"\n"}), k)...)
			}
			check(t, src)
			t.Rearm()
		})
		c.DoN("lines of open texts", c.N(2000, 30000), func(t *T, i int) {
			var src []byte
			kinds := []string{"n%02d = \"\n", "n%02d = \"a\n", "n%02d = tstr ; \"\n", "n%02d = \"b\"\n", "\n", "; c\n", "n%02d = tstr / \"int\n", "n%02d /= \"a\r\n", "name%02d = \"\n", "  n%02d = \"a\n"}
			a, b := t.Pick(kinds), t.Pick(kinds)
			for k, n := 0, t.Range(2, 90); k < n; k++ {
				switch {
				case t.P(1, 10):
					src = append(src, fmt.Sprintf(t.Pick(kinds)+"%.0[1]d", k)...)
				case t.P(1, 2):
					src = append(src, fmt.Sprintf(b+"%.0[1]d", k)...)
				default:
					src = append(src, fmt.Sprintf(a+"%.0[1]d", k)...)
				}
			}
			if hasLexError(RefLex(src)) {
				check(t, src)
			}
		})
		cliCase := func(t *T, src []byte) {
			t.Input(src)
			ill := 0
			for _, k := range RefLex(src) {
				if k.Tok == token.ILLEGAL {
					ill++
				}
			}
			res := runCLI(t, []string{"lex", "s.cddl"}, map[string]string{"s.cddl": string(src)}, cliOpts{})
			if (res.code != 0) != (ill > 0) {
				t.Fail("%d illegal tokens, the lex command exits with %d: %s", ill, res.code, res.stderr)
			}
			t.Count("lex commands", 1)
			t.Distinct("cli", fmt.Sprint(ill > 0), tokShape(src))
		}
		c.DoN("lex command", c.N(300, 4000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			src := tx.Src
			switch i % 3 {
			case 1:
				src, _, _ = plant(t.Rand, tx)
			case 2:
				src = fragSoup(t.Rand, t.Range(1, 10))
			}
			cliCase(t, src)
		})
		// many illegal tokens, so that a count that wraps around shows
		c.DoN("lex command counts", 6, func(t *T, i int) {
			cliCase(t, []byte(strings.Repeat("! ", []int{1, 2, 255, 256, 257, 65536}[i])))
		})
	}}

// P01 -------------------------------------------------------------------------------------------------------

func deepSources(n int) map[string]string {
	rep := strings.Repeat
	return map[string]string{
		"groups": "x = " + rep("(", n) + rep(")", n), "open groups": "x = " + rep("(", n), "arrays": "x = " + rep("[", n) + "int" + rep("]", n),
		"maps": "x = " + rep("{", n) + rep("}", n), "mixed": "x = " + rep("([{", n/3) + rep("}])", n/3), "wrong": "x = " + rep("([{", n/3) + rep(")", n),
		"choices": "x = " + rep("1 / ", n) + "1", "group choices": "x = [" + rep("1 // ", n) + "1]", "open choice": "x = " + rep("1 / ", n), "unwraps": "x = " + rep("~", n) + "x",
		"enums": "x = " + rep("&", n) + "x", "tags": "x = " + rep("#6.1(", n) + "int" + rep(")", n), "optionals": "x = [" + rep("? ", n) + "int]",
		"occurrences": "x = [" + rep("* ", n) + "int]", "bounds": "x = [" + rep("1*2 ", n) + "int]", "entries": "x = [" + rep("a: (", n) + "int" + rep(")", n) + "]",
		"sizes": "x = " + rep("uint .size (", n) + "1" + rep(")", n), "commas": "x = [" + rep(",", n) + "]", "colons": "x = [" + rep("a:", n) + "int]",
		"closings": "x = int " + rep(")", n), "rules": rep("x = ", n) + "int", "hashes": "x = " + rep("#", n), "duplicates": rep("x = int\n", n), "undefined": rep("x /= y\n", n),
		"extensions": rep("x /= int\n", n) + rep("x //= (x)\n", n), "comments in group": "x = (" + rep(";c\n", n) + ")", "comment in entry": "x = [" + rep("a: int, ; c\n", n) + "]",
		"ranges": "x = " + rep("0..", n) + "1", "long range": "a = 0\n" + rep("x /= 0..a\n", n), "comparisons": "x = " + rep("uint .lt ", n) + "3", "regexps": "x = " + rep("tstr .regexp ", n) + "\"a\"",
	}
}

var propP01 = &Property{ID: "P01",
	Rule:        "all sources of L01, token soups, mutated schemas, and sources nested or repeated up to 30000 (thorough 3,000,000) times; the returned tree is walked, formatted and asked for positions; non-trivial: distinct token kind sequences",
	Assumptions: []string{"a parse that uses more than 20 s of CPU time twice does not terminate", "the number of diagnostics is bounded by three per token"},
	Run: func(c *Ctx) {
		check := func(t *T, src []byte, deep bool) {
			t.Input(src)
			cddl, errs := parseSrc(src)
			if cddl == nil {
				t.Fail("no tree")
			}
			toks, _, ok := realLex(src)
			if !ok {
				t.Fail("the lexer does not end")
			}
			if len(errs) > 3*len(toks)+3 {
				t.Fail("%d diagnostics for %d tokens", len(errs), len(toks))
			}
			n := 0
			for _, e := range errs {
				if n++; n > 2000 {
					break
				}
				if e == nil {
					t.Fail("a diagnostic is nil")
				}
				if e.Error() == "" || e.Diagnostic() == "" || e.String() == "" {
					t.Fail("a diagnostic is empty")
				}
				_, _ = e.Start(), e.End()
			}
			_, _, _ = errs.String(), errs.Error(), errs.Diagnostic()
			_, _ = errs.Start(), errs.End()
			t.Count("diagnostics", len(errs))
			visited := 0
			astutils.Walk(visitFunc(func(n ast.Node) { visited++ }), cddl)
			if deep {
				t.Count("nodes visited", visited)
				_ = astutils.Format(cddl)
				for _, r := range cddl.Rules {
					_, _, _ = r.Start(), r.End(), astutils.Format(r)
				}
			} else {
				nodes := allNodes(cddl)
				for _, x := range nodes {
					_, _ = x.Start(), x.End()
					if astutils.Format(x) == "" {
						t.Fail("%T formats as nothing", x)
					}
				}
				t.Count("nodes visited", len(nodes))
				_ = cddl.String()
			}
			if len(toks) < 400 {
				t.Distinct(shapeOf(toks))
			}
			if t.P(1, 2000) {
				t.Sample("%.80q: %d diagnostics, %d nodes", src, len(errs), visited)
			}
		}
		sources(c, func(t *T, src []byte) { check(t, src, len(src) > 20000) })
		c.DoN("tokens", c.N(60000, 2000000), func(t *T, i int) { check(t, tokenSoup(t.Rand, t.Range(1, 2+i%40)), false) })
		c.DoN("mutants", c.N(20000, 600000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			check(t, mutateTokens(t.Rand, tx), false)
		})
		for _, n := range []int{10, 300, 5000, c.Pick(30000, 3000000)} {
			src := deepSources(n)
			var names []string
			for k := range src {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				c.Do(fmt.Sprintf("deep/%d/%s", n, k), func(t *T) { check(t, []byte(src[k]), true) })
			}
		}
		// so deep that the stack would not suffice for all of it
		if c.Tier != "fast" {
			n := 2500000
			for _, v := range [][3]string{{"(", "a", ")"}, {"[", "int", "]"}, {"#6.1(", "int", ")"}, {"?", "int", ""}, {"~", "a", ""}, {"&", "a", ""}} {
				c.Do("abyss/"+v[0], func(t *T) {
					src := []byte("x = " + strings.Repeat(v[0], n) + v[1] + strings.Repeat(v[2], n/8) + "\n")
					t.Input(src)
					cddl, errs := parseSrc(src)
					if cddl == nil {
						t.Fail("no tree")
					}
					if len(errs) == 0 {
						t.Fail("unbalanced brackets or an undeclared name are accepted")
					}
					visited := 0
					astutils.Walk(visitFunc(func(n ast.Node) { visited++ }), cddl)
					t.Count("abysses", 1)
					t.Distinct("abyss", v[0])
				})
			}
		}
	}}

type visitFunc func(n ast.Node)

func (f visitFunc) Visit(n ast.Node) astutils.Visitor {
	if n != nil {
		f(n)
	}
	return f
}

var soupTokens = strings.Fields("a b a a int uint tstr text float bool true nil bytes bstr 0 1 2 10 1.5 2.5 \"t\" = = = /= //= / / // ( ) ( ) [ ] [ ] { } , , : : => ? * + .. ... # #6 #6.1 ~ & .size .lt .regexp .bits .eq - < > . any .cbor $s $$p ;c")

// tokenSoup is a sequence of tokens, usually a rule at the start
func tokenSoup(r *Rand, n int) []byte {
	var sb strings.Builder
	if r.P(3, 4) {
		sb.WriteString("a = ")
	}
	for i := 0; i < n; i++ {
		k := r.Pick(soupTokens)
		sb.WriteString(k)
		if k == ";c" || r.P(1, 6) {
			sb.WriteByte('\n')
		} else {
			sb.WriteByte(' ')
		}
	}
	return []byte(sb.String())
}

// mutateTokens deletes, duplicates, swaps, replaces or inserts tokens
func mutateTokens(r *Rand, tx *Text) []byte {
	var toks []string
	for _, k := range tx.Toks {
		toks = append(toks, k.S)
	}
	for n := r.Range(1, 3); n > 0 && len(toks) > 1; n-- {
		i := r.Intn(len(toks))
		switch r.Intn(6) {
		case 0:
			toks = append(toks[:i], toks[i+1:]...)
		case 1:
			toks = append(toks[:i+1], toks[i:]...)
		case 2:
			j := r.Intn(len(toks))
			toks[i], toks[j] = toks[j], toks[i]
		case 3:
			toks[i] = r.Pick(soupTokens)
		case 4:
			toks = append(toks[:i], append([]string{r.Pick(soupTokens)}, toks[i:]...)...)
		default: // swap neighbours
			if i+1 < len(toks) {
				toks[i], toks[i+1] = toks[i+1], toks[i]
			}
		}
	}
	return joinTokens(r, toks)
}

func joinTokens(r *Rand, toks []string) []byte {
	var sb strings.Builder
	for _, k := range toks {
		sb.WriteString(k)
		if strings.HasPrefix(k, ";") || r.P(1, 8) {
			sb.WriteByte('\n')
		} else {
			sb.WriteByte(' ')
		}
	}
	return []byte(sb.String())
}

// P02 -------------------------------------------------------------------------------------------------------

var propP02 = &Property{ID: "P02",
	Rule: "token soups, mutated schemas, fragment soups and generated schemas that the parser accepts; their tree is unparsed and aligned with the token stream; non-trivial: distinct token kind sequences of accepted sources",
	Run: func(c *Ctx) {
		check := func(t *T, src []byte) bool {
			t.Input(src)
			cddl, errs := parseSrc(src)
			if len(errs) > 0 {
				return false
			}
			toks, _, ok := realLex(src)
			if !ok {
				t.Fail("the lexer does not end")
			}
			a, b := accSource(toks), accTree(cddl)
			if d := accDiff(a, b); d != "" {
				t.Fail("%s; tree %s", d, strings.Join(DumpRules(cddl, false, false), " "))
			}
			if len(toks) > 4 && len(toks) < 400 {
				t.Distinct(shapeOf(toks))
			}
			t.Count("accepted sources", 1)
			t.Count("tokens accounted for", len(a))
			if t.P(1, 1500) {
				t.Sample("%.100q: %d elements in order", src, len(a))
			}
			return true
		}
		c.DoN("schema", c.N(12000, 300000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			if !check(t, tx.Src) {
				t.Count("rejected schemas", 1) // P03 decides
			}
		})
		c.DoN("mutants", c.N(40000, 1000000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			for k := 0; k < 6; k++ {
				check(t, mutateTokens(t.Rand, tx))
				t.Eval()
			}
		})
		c.DoN("tokens", c.N(60000, 2000000), func(t *T, i int) {
			for k := 0; k < 4; k++ {
				check(t, tokenSoup(t.Rand, t.Range(1, 2+i%9)))
				t.Eval()
			}
		})
		c.DoN("big", 30, func(t *T, i int) {
			s := bigSchema(t.Rand, i, c.Pick(3, 12))
			l := layouts[t.Intn(len(layouts))]
			if !check(t, Render(Print(s, t.Rand, t.Intn(3)), &l, t.Rand).Src) {
				t.Count("rejected schemas", 1)
			}
		})
		// every sequence of a few tokens inside a bracket
		small := strings.Fields("a int 1 1.5 \"t\" true ( ) , : / // .. ? * + # ~ & .size .lt => = #6.1 .regexp tstr .bits $s")
		c.DoN("enumerated", len(small)*len(small), func(t *T, i int) {
			x, y := small[i/len(small)], small[i%len(small)]
			for _, z := range small {
				for _, w := range small {
					check(t, []byte("a = ["+x+" "+y+" "+z+" "+w+" ]"))
					check(t, []byte("a = "+x+" "+y+" "+z+" "+w))
					t.Eval()
				}
				check(t, []byte("a = { "+x+" "+y+" "+z+" }"))
				check(t, []byte("a = ("+x+" "+y+" "+z+" )\nb = int"))
			}
		})
		c.DoN("deep", 40, func(t *T, i int) {
			d := deepSources([]int{20, 3000}[i%2])
			var names []string
			for k := range d {
				names = append(names, k)
			}
			sort.Strings(names)
			for j, k := range names {
				if j%20 == i/2 {
					check(t, []byte(d[k]))
					t.Eval()
				}
			}
		})
	}}

// P03 -------------------------------------------------------------------------------------------------------

func diffRules(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		a, b := "nothing", "nothing"
		if i < len(want) {
			a = want[i]
		}
		if i < len(got) {
			b = got[i]
		}
		if a != b {
			// the first difference in context
			k := 0
			for k < len(a) && k < len(b) && a[k] == b[k] {
				k++
			}
			from := max(0, k-60)
			return fmt.Sprintf("rule %d differs at …%.160s… expected …%.160s…\n got  %.600s\n want %.600s", i, b[min(from, len(b)):], a[min(from, len(a)):], b, a)
		}
	}
	return ""
}

// kindsOf describes which constructs a schema combines
func kindsOf(s *Schema, t *T) {
	for _, r := range s.Rules {
		walkModel(r.Value, func(n, parent *N) {
			p := "rule" + r.Assign
			if parent != nil {
				p = parent.K + parent.S
				if parent.K == "tag" || len(p) > 12 {
					p = parent.K
				}
			}
			s := n.K
			switch n.K {
			case "ctl", "range", "occ", "prim", "entry":
				s += n.S
			}
			t.Distinct(p, s)
			t.Count("nodes compared", 1)
		})
	}
}

// bigSchema makes schemas that are large in one dimension
func bigSchema(r *Rand, i, scale int) *Schema {
	id := func(s string) *N { return leaf("ident", s) }
	prim := func() *N { return leaf("prim", r.Pick(prims)) }
	many := func(n int, f func(i int) *N) (out []*N) {
		for i := 0; i < n; i++ {
			out = append(out, f(i))
		}
		return
	}
	chain := func(k, op string, parts []*N) *N {
		out := parts[len(parts)-1]
		for i := len(parts) - 2; i >= 0; i-- {
			out = &N{K: k, S: op, Kids: []*N{parts[i], out}}
		}
		return out
	}
	rule := func(n string, v *N) *Rule { return &Rule{Name: n, Assign: "=", Value: v} }
	nest := func(n int, f func(*N) *N) *N {
		v := prim()
		for i := 0; i < n; i++ {
			v = f(v)
		}
		return v
	}
	entry := func(k string, v *N) *N { return &N{K: "entry", S: ":", Kids: []*N{id(k), v}} }
	s := &Schema{}
	switch i % 15 {
	case 0:
		for k := 0; k < 3000*scale; k++ {
			s.Rules = append(s.Rules, rule(fmt.Sprintf("r%d", k), id(fmt.Sprintf("r%d", r.Intn(3000*scale)))))
		}
	case 1:
		s.Rules = append(s.Rules, rule("x", &N{K: "array", Kids: many(4000*scale, func(i int) *N { return entry(fmt.Sprintf("k%d", i), prim()) })}))
	case 2:
		s.Rules = append(s.Rules, rule("x", chain("choice", "/", many(2000*scale, func(int) *N { return prim() }))))
	case 3:
		s.Rules = append(s.Rules, rule("x", &N{K: "map", Kids: []*N{chain("gchoice", "//", many(1500*scale, func(i int) *N { return entry(fmt.Sprintf("k%d", i), prim()) }))}}))
	case 4:
		s.Rules = append(s.Rules, rule("x", nest(800*scale, func(v *N) *N { return &N{K: r.Pick([]string{"group", "array", "map"}), Kids: []*N{v}} })))
	case 5:
		s.Rules = append(s.Rules, rule("x", nest(600*scale, func(v *N) *N { return &N{K: "array", Kids: []*N{entry("k", v), prim()}} })))
	case 6:
		s.Rules = append(s.Rules, rule("x", nest(600*scale, func(v *N) *N { return &N{K: "tag", S: "6.32", Kids: []*N{v}} })))
	case 7:
		s.Rules = append(s.Rules, rule("x", &N{K: "group", Kids: many(3000*scale, func(i int) *N { return leaf("text", strings.Repeat("t", r.Intn(40))) })}))
	case 8:
		s.Rules = append(s.Rules, rule(strings.Repeat("long-name.", 3000*scale)+"x", leaf("text", strings.Repeat("é;\\", 5000*scale))))
	case 9:
		s.Rules = append(s.Rules, rule("x", &N{K: "array", Kids: many(1000*scale, func(i int) *N {
			return &N{K: "occ", S: "*", N0: leaf("int", fmt.Sprint(i)), M: leaf("int", fmt.Sprint(i+r.Intn(1<<40))), Kids: []*N{entry(fmt.Sprintf("k%d", i), prim())}}
		})}))
	case 11:
		s.Rules = append(s.Rules, rule("x", &N{K: r.Pick([]string{"map", "group", "array"}), Kids: many(3000*scale, func(i int) *N {
			e := entry(fmt.Sprintf("k%d", i), prim())
			switch i % 5 {
			case 1:
				e.Kids[0] = leaf("int", fmt.Sprint(i))
			case 2:
				e.S = "=>"
				e.Kids[0] = id("x")
			case 3:
				return &N{K: "opt", S: "?", Kids: []*N{e}}
			case 4:
				return prim()
			}
			return e
		})}))
	case 12, 13:
		// mixed nesting with something before and behind each level
		s.Rules = append(s.Rules, rule("x", nest((20+r.Intn(380))*scale, func(v *N) *N {
			n := &N{K: r.Pick([]string{"group", "array", "map"})}
			for r.P(1, 3) {
				n.Kids = append(n.Kids, entry(r.Pick([]string{"a", "b"}), &N{K: r.Pick([]string{"group", "array", "map"})}))
			}
			switch r.Intn(4) {
			case 0:
				n.Kids = append(n.Kids, v)
			case 1:
				n.Kids = append(n.Kids, &N{K: "opt", S: "?", Kids: []*N{entry("o", v)}})
			case 2:
				n.Kids = append(n.Kids, &N{K: "tag", S: "6.9", Kids: []*N{v}})
			default:
				n.Kids = append(n.Kids, entry("e", v))
			}
			for r.P(1, 3) {
				n.Kids = append(n.Kids, &N{K: r.Pick([]string{"group", "array", "map"})})
			}
			return n
		})))
	case 14:
		s.Rules = append(s.Rules, rule("x", chain("choice", "/", many(700*scale, func(i int) *N {
			switch i % 3 {
			case 0:
				return leaf("int", fmt.Sprint(i))
			case 1:
				return leaf("text", fmt.Sprint(i))
			}
			return id("x")
		}))))
	default:
		for k := 0; k < 1500*scale; k++ {
			s.Rules = append(s.Rules, &Rule{Name: r.Pick([]string{"x", "y", "z"}), Assign: r.Pick([]string{"/=", "//="}), Value: &N{K: "group", Kids: []*N{leaf("int", fmt.Sprint(k))}}})
		}
	}
	return s
}

// probes are inputs on which the parser is known to leave the grammar: they are reported as known findings while
// the outcome is the recorded one
var p03Probes = []struct{ src, want string }{
	{"x = (a: int, b: int // c: int)", "(rule (ident x) (group (gchoice [(entry (ident a) (IntegerType:int)) (entry (ident b) (IntegerType:int))] (entry (ident c) (IntegerType:int)))))"},
	{"x = [a: 5 * tstr]", "(rule (ident x) (array (entry (ident a) (intlit 5)) (occ 0.. (TstrType:tstr))))"},
}

var propP03 = &Property{ID: "P03",
	Rule: "schemas generated from the supported grammar in all layouts, compared node by node with the model they were printed from, including schemas large in one dimension; non-trivial: distinct (parent construct, construct) pairs",
	Assumptions: []string{"the tree represents what the parser package documents: = and /= and //= rules alike, : and => alike, a chain of choices nested to the right, an absent lower bound as 0 or 1",
		"a number directly before * or + is its lower bound also without a comma between (RFC 8610 takes the longest occurrence)"},
	Run: func(c *Ctx) {
		check := func(t *T, s *Schema, tx *Text) {
			t.Input(tx.Src)
			cddl, errs := parseSrc(tx.Src)
			if len(errs) > 0 {
				t.Fail("rejected: %s", diagText(errs))
			}
			if d := diffRules(ExpectRules(s, nil), DumpRules(cddl, false, false)); d != "" {
				t.Fail("%s", d)
			}
			kindsOf(s, t)
			t.Count("schemas compared", 1)
			if t.P(1, 1000) {
				t.Sample("%.200q", tx.Src)
			}
		}
		c.DoN("schema", c.N(40000, 1200000), func(t *T, i int) {
			s, tx := genText(t.Rand)
			check(t, s, tx)
		})
		c.DoN("big", 30, func(t *T, i int) {
			s := bigSchema(t.Rand, i, c.Pick(3, 12))
			l := layouts[t.Intn(len(layouts))]
			check(t, s, Render(Print(s, t.Rand, t.Intn(3)), &l, t.Rand))
		})
		// as deep as promised, and no deeper
		c.DoN("deepest", 10, func(t *T, i int) {
			n := t.Range(9900, 10000)
			if t.P(1, 2) {
				n = 10000
			}
			v := leaf("prim", t.Pick(prims))
			key := func(v *N) *N { return &N{K: "entry", S: ":", Kids: []*N{leaf("ident", t.Pick([]string{"k", "l"})), v}} }
			in := func(kids ...*N) *N { return &N{K: t.Pick([]string{"group", "array", "map"}), Kids: kids} }
			for k := 0; k < n; k++ {
				switch i {
				case 0:
					v = in(v)
				case 1:
					v = in(key(v))
				case 2:
					v = in(&N{K: "opt", S: "?", Kids: []*N{key(v)}})
				case 3:
					v = &N{K: "tag", S: "6.32", Kids: []*N{v}}
				case 4:
					v = in(leaf("prim", "int"), v, leaf("prim", "tstr"))
				case 5:
					v = in(&N{K: "choice", S: "/", Kids: []*N{leaf("prim", "int"), v}})
				case 6:
					v = in(&N{K: "occ", S: "*", Kids: []*N{key(v)}})
				case 7:
					v = &N{K: "choice", S: "/", Kids: []*N{leaf("prim", "int"), v}}
				case 8:
					v = &N{K: "gchoice", S: "//", Kids: []*N{key(leaf("prim", "int")), v}}
					if k == n-1 {
						v = in(v)
					}
				default:
					switch t.Intn(4) {
					case 0:
						v = in(key(v), key(in()))
					case 1:
						v = &N{K: "tag", S: "6.32", Kids: []*N{v}}
					case 2:
						v = in(&N{K: "opt", S: "?", Kids: []*N{key(v)}})
					default:
						v = in(in(), v)
					}
				}
			}
			s := &Schema{Rules: []*Rule{{Name: "x", Assign: "=", Value: v}}}
			l := layouts[t.Intn(2)]
			tx := Render(Print(s, t.Rand, 0), &l, t.Rand)
			t.Rearm()
			cddl, errs := parseSrc(tx.Src)
			if len(errs) > 0 {
				t.Fail("nested %d deep (shape %d) is rejected: %.300s", n, i, diagText(errs))
			}
			t.Rearm()
			if d := diffRules(ExpectRules(s, nil), DumpRules(cddl, false, false)); d != "" {
				t.Fail("nested %d deep (shape %d): %.500s", n, i, d)
			}
			t.Count("as deep as promised", 1)
			t.Distinct("deepest", fmt.Sprint(i))
		})
		// more of each construct than anything can be nested
		c.DoN("widest", 4, func(t *T, i int) {
			if c.Tier == "fast" {
				return
			}
			n := t.Range(100200, 101000)
			id := func(s string) *N { return leaf("ident", s) }
			prim := func() *N { return leaf("prim", t.Pick(prims)) }
			key := func(v *N) *N { return &N{K: "entry", S: ":", Kids: []*N{id(t.Pick([]string{"k", "l"})), v}} }
			w := func(k, s string, kids ...*N) *N { return &N{K: k, S: s, Kids: kids} }
			var parts []*N
			if i%2 == 0 {
				parts = []*N{key(prim()), w("opt", "?", key(prim())), w("tag", "6.32", prim()), w("tag", "1"), w("map", "", w("occ", "*", w("entry", "=>", id("a"), prim()))), w("group", "", key(w("array", ""))),
					w("choice", "/", prim(), w("choice", "/", leaf("text", "t"), id("a")))}
			} else {
				parts = []*N{w("range", "..", leaf("int", "0"), leaf("int", "9")), w("range", "...", leaf("float", "0.5"), leaf("float", "9.5")), w("range", "..", leaf("int", "0"), id("i")),
					w("ctl", ".size", leaf("prim", "tstr"), leaf("int", "3")), w("ctl", ".regexp", leaf("prim", "tstr"), leaf("text", "a")), w("ctl", ".lt", leaf("prim", "uint"), leaf("int", "3")),
					w("ctl", ".bits", leaf("prim", "bytes"), id("a")), key(w("unwrap", "~", id("g"))), key(w("enum", "&", id("g"))), key(id("$open")), key(leaf("bool", "true"))}
			}
			s := &Schema{Rules: []*Rule{{Name: "a", Assign: "=", Value: prim()}, {Name: "i", Assign: "=", Value: leaf("int", "7")}, {Name: "g", Assign: "=", Value: w("group", "", key(prim()))}}}
			el := &N{K: t.Pick([]string{"group", "array"}), Kids: parts}
			s.Rules = append(s.Rules, &Rule{Name: "x", Assign: "=", Value: el})
			tx := string(Render(Print(s, t.Rand, 0), &layouts[0], t.Rand).Src)
			at := strings.LastIndex(tx, "x")
			for !strings.HasPrefix(strings.TrimLeft(tx[at+1:], " "), "=") {
				at = strings.LastIndex(tx[:at], "x")
			}
			head, one := tx[:at], strings.TrimSpace(strings.TrimLeft(tx[at+1:], "= "))
			want := Expect(el, nil)
			var sb strings.Builder
			sb.WriteString(head)
			if i < 2 {
				sb.WriteString("x=[" + strings.Repeat(one+",", n) + "]\n")
			} else {
				for k := 0; k < n; k++ {
					fmt.Fprintf(&sb, "x%d=%s\n", k, one)
				}
			}
			t.Rearm()
			t.Input([]byte(sb.String()[:len(head)+4*len(one)]))
			cddl, errs := parseSrc([]byte(sb.String()))
			if len(errs) > 0 {
				t.Fail("%d of each (%d) are rejected: %.300s", n, i, diagText(errs))
			}
			t.Rearm()
			var got []ast.Node
			for k, r := range cddl.Rules {
				if k < 3 {
					continue
				}
				v := r.(*ast.Rule).Value
				if arr, ok := v.(*ast.Array); ok && i < 2 {
					for _, e := range arr.Rules {
						got = append(got, e)
					}
				} else {
					got = append(got, v)
				}
			}
			if len(got) != n {
				t.Fail("%d definitions or entries instead of %d (%d)", len(got), n, i)
			}
			for k, g := range got {
				if k%1000 == 0 {
					t.Rearm()
				}
				if d := Dump(g, false); d != want {
					t.Fail("number %d of %d (%d): %.300s", k, n, i, diffAt(d, want))
				}
			}
			t.Count("wider than deep", 1)
			t.Distinct("widest", fmt.Sprint(i))
		})
		// every value of every literal kind in every place a literal can stand
		c.DoN("values", c.N(6000, 100000), func(t *T, i int) {
			v := t.Uint64() >> uint(1+t.Intn(62))
			spell := fmt.Sprintf([]string{"%d", "0x%x", "0x%X", "0b%b", "0o%o"}[t.Intn(5)], v)
			il := func() *N { return leaf("int", spell) }
			fl := leaf("float", fmt.Sprintf("%d.%0*d", t.Uint64()>>uint(11+t.Intn(52)), t.Range(1, 18), t.Uint64()%1000000))
			tx := leaf("text", string(randText(t.Rand)))
			s := &Schema{Rules: []*Rule{
				{Name: "i", Assign: "=", Value: il()}, {Name: "f", Assign: "=", Value: fl}, {Name: "t", Assign: "=", Value: tx},
				{Name: "r", Assign: "=", Value: &N{K: "range", S: t.Pick([]string{"..", "..."}), Kids: []*N{leaf("int", "0"), il()}}},
				{Name: "s", Assign: "=", Value: &N{K: "ctl", S: ".size", Kids: []*N{leaf("prim", "tstr"), il()}}},
				{Name: "o", Assign: "=", Value: &N{K: "array", Kids: []*N{{K: "occ", S: "*", N0: il(), M: il(), Kids: []*N{leaf("prim", "int")}}}}},
				{Name: "k", Assign: "=", Value: &N{K: "map", Kids: []*N{{K: "entry", S: ":", Kids: []*N{il(), leaf("prim", "int")}}}}},
				{Name: "x", Assign: "=", Value: &N{K: "ctl", S: ".regexp", Kids: []*N{leaf("prim", "tstr"), leaf("text", string(randText(t.Rand)))}}},
			}}
			if t.P(1, 2) {
				s.Rules = append(s.Rules, &Rule{Name: "tag", Assign: "=", Value: &N{K: "tag", S: fmt.Sprintf("%d.%d", t.Intn(8), t.Uint64()>>uint(t.Intn(64))), Kids: []*N{leaf("prim", "int")}}})
			}
			t.Distinct("value", spell)
			check(t, s, plainText(t.Rand, s))
		})
		c.DoN("probe", len(p03Probes), func(t *T, i int) {
			p := p03Probes[i]
			t.Input([]byte(p.src))
			cddl, errs := parseSrc([]byte(p.src))
			got := strings.Join(DumpRules(cddl, false, false), " ")
			if len(errs) > 0 {
				got = "rejected: " + diagText(errs)
			}
			if got == p.want || t.Known(p.src, got) {
				return
			}
			t.Fail("parses to %s, expected %s", got, p.want)
		})
	}}

func randText(r *Rand) []byte {
	n := r.Intn(20)
	b := []byte{}
	for i := 0; i < n; i++ {
		ch := rune(32 + r.Intn(95))
		switch r.Intn(8) {
		case 0:
			ch = rune(r.Intn(0x500))
		case 1:
			ch = rune(0x4e00 + r.Intn(0x100))
		}
		if ch == '"' || ch == '\n' {
			ch = '~'
		}
		if r.P(1, 25) { // not UTF-8
			b = append(b, byte(128+r.Intn(128)))
			continue
		}
		b = append(b, string(ch)...)
	}
	return b
}

// P04 -------------------------------------------------------------------------------------------------------

type mutant struct {
	kind string
	toks []string
}

var bracketPairs = map[string]string{"(": ")", "[": "]", "{": "}"}

func isBracket(s string) bool { return len(s) == 1 && strings.Contains("()[]{}", s) }

var binaryOps = map[string]bool{"/": true, "//": true, "..": true, "...": true, ":": true, "=>": true, ".size": true, ".regexp": true, ".bits": true, ".lt": true, ".le": true, ".gt": true, ".ge": true, ".eq": true, ".ne": true}

// impossible are values that no definition can have
var impossible = []string{
	"tstr .regexp 5", "tstr .regexp 1.5", "text .regexp true", "tstr .regexp false", "tstr .regexp int", "text .regexp tstr", "tstr .regexp [ int ]", "tstr .regexp { }", "tstr .regexp #6.1(tstr)", "tstr .regexp null", "tstr .regexp 0x1f",
	"int .regexp \"a\"", "uint .regexp \"a\"", "bool .regexp \"a\"", "bstr .regexp \"a\"", "5 .regexp \"a\"", "1.5 .regexp \"a\"", "\"t\" .regexp \"a\"", "[ tstr ] .regexp \"a\"", "{ } .regexp \"a\"", "true .regexp \"a\"", "null .regexp \"a\"", "float .regexp \"a\"",
	"bool .size 3", "null .size 3", "nil .size 1", "float .size 4", "float64 .size 4", "true .size 1", "5 .size 3", "1.5 .size 3", "\"abc\" .size 3", "[ int ] .size 3", "{ a : int } .size 3", "( int ) .size 3",
	"tstr .lt 5", "text .ge 5", "bstr .gt 1", "bool .le 5", "null .eq 5", "5 .lt 6", "1.5 .ge 1.0", "\"a\" .ne 5", "[ int ] .lt 5", "{ } .eq 5", "( int ) .gt 5", "true .ne 0",
	"#6.1.2 ( uint )", "#6.1.2", "#6.32.1 ( tstr )", "#1.2.3.4", "#0.0.0 ( int )", "#6.99999999999999999999 ( int )", "#99999999999999999999", "#99999999999999999999.1 ( int )", "#6.0x1 ( int )", "# 6.18446744073709551616 ( int )",
	"0x", "0b", "0o", "0xg", "0b2", "0o8", "99999999999999999999", "18446744073709551616", "0xfffffffffffffffff", "1.2.3", "0.0.0", "0b11111111111111111111111111111111111111111111111111111111111111111",
	"[ 99999999999999999999 * int ]", "[ 1 * 99999999999999999999 int ]", "[ 0x * int ]", "[ 1 * 0b int ]",
	"{ [ int ] : tstr }", "[ ( int ) : tstr ]", "{ { } : int }", "( #6.1(int) : int )", "{ 99999999999999999999 : int }", "{ 0x : int }",
	"0 .. 0x", "0x .. 5", "0 .. 99999999999999999999", "1.2.3 .. 2.0", "uint .size 0x", "uint .lt 99999999999999999999",
	"0 .. 1 .. 2", "1.0 .. 2.0 ... 3.0", "uint .size 3 .size 4", "tstr .regexp \"a\" .regexp \"b\"", "uint .lt 3 .lt 4", "0 .. 5 .lt 3", "tstr .size 3 .regexp \"a\"",
}

// mutants makes one malformed variant of a printed schema
func makeMutant(r *Rand, s *Schema, toks []PTok) (m mutant, ok bool) {
	strs := make([]string, len(toks))
	for i, k := range toks {
		strs[i] = k.S
	}
	cut := func(a, b int) []string { return append(append([]string{}, strs[:a]...), strs[b:]...) }
	ins := func(at int, what ...string) []string {
		return append(append(append([]string{}, strs[:at]...), what...), strs[at:]...)
	}
	pick := func(f func(i int) bool) int {
		var c []int
		for i := range strs {
			if f(i) {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return -1
		}
		return c[r.Intn(len(c))]
	}
	rule := s.Rules[r.Intn(len(s.Rules))]
	switch r.Intn(16) {
	case 14, 15:
		// a value that can not be: an operator on what it does not apply to, a number that is none
		var places []*N
		for _, rl := range s.Rules {
			walkModel(rl.Value, func(n, p *N) {
				if n.K != "prim" && n.K != "ident" && n.K != "text" && n.K != "float" {
					return
				}
				if p == nil || p.K == "group" || p.K == "array" || p.K == "map" || p.K == "choice" || p.K == "gchoice" || p.K == "tag" || p.K == "opt" || p.K == "entry" && n == p.Kids[1] {
					places = append(places, n)
				}
			})
		}
		if len(places) > 0 {
			n := places[r.Intn(len(places))]
			w := r.Pick(impossible)
			return mutant{"impossible value", append(cut(n.start, n.last+1)[:n.start:n.start], append(strings.Fields(w), strs[n.last+1:]...)...)}, true
		}
	case 0:
		if i := pick(func(i int) bool { return isBracket(strs[i]) }); i >= 0 {
			return mutant{"bracket removed", cut(i, i+1)}, true
		}
	case 1:
		i := r.Intn(len(strs) + 1)
		return mutant{"bracket inserted", ins(i, r.Pick([]string{"(", ")", "[", "]", "{", "}"}))}, true
	case 2:
		if i := pick(func(i int) bool { return isBracket(strs[i]) }); i >= 0 {
			out := append([]string{}, strs...)
			for out[i] == strs[i] {
				if bracketPairs[strs[i]] != "" {
					out[i] = r.Pick([]string{"(", "[", "{"})
				} else {
					out[i] = r.Pick([]string{")", "]", "}"})
				}
			}
			return mutant{"bracket replaced", out}, true
		}
	case 3:
		if r.P(1, 2) {
			out := append([]string{}, strs...)
			out[rule.assign] = r.Pick([]string{":", "=>", "/", "//", "..", "...", ".size", ".regexp", ".lt", ".eq", "?", "*", "+", "~", "&", "#", ",", "->", ">", ">=", "<=", "<", "-", ":=", "==", "|=", "|", "5", "1.5", "x", "int", "\"=\"", "$s", "is"})
			return mutant{"assignment replaced", out}, true
		}
		return mutant{"assignment removed", cut(rule.assign, rule.assign+1)}, true
	case 4:
		return mutant{"value removed", cut(rule.assign+1, rule.last+1)}, true
	case 5:
		return mutant{"name removed", cut(rule.first, rule.first+1)}, true
	case 6, 7, 8:
		// an operand goes, and what is next to it can not take its place
		type op struct {
			a, b  int
			right bool
		}
		var ops []op
		for _, rl := range s.Rules {
			walkModel(rl.Value, func(n, p *N) {
				if p == nil {
					return
				}
				switch p.K {
				case "choice", "gchoice", "range", "ctl", "entry":
					ops = append(ops, op{n.start, n.last + 1, n == p.Kids[1]})
				case "unwrap", "enum", "opt":
					ops = append(ops, op{n.start, n.last + 1, true})
				case "tag":
					ops = append(ops, op{n.start, n.last + 1, true})
				case "occ":
					if p.M == nil && n == p.Kids[0] {
						ops = append(ops, op{n.start, n.last + 1, true})
					}
				}
			})
		}
		if len(ops) == 0 {
			return
		}
		o := ops[r.Intn(len(ops))]
		if o.right {
			if o.b < len(toks) && !toks[o.b].First && strs[o.b] != "," && strs[o.b] != ")" && strs[o.b] != "]" && strs[o.b] != "}" && !binaryOps[strs[o.b]] {
				return
			}
		} else {
			prev := strs[o.a-1]
			if bracketPairs[prev] == "" && prev != "," && prev != "=" && prev != "/=" && prev != "//=" && !binaryOps[prev] && prev != "~" && prev != "&" && prev != "?" {
				return
			}
			if prev == "(" && o.a >= 2 && (strs[o.a-2] == "#" || o.a >= 3 && strs[o.a-3] == "#") {
				// the content of a tag: a missing operand all the same
			}
		}
		return mutant{"operand removed", cut(o.a, o.b)}, true
	case 9:
		if i := pick(func(i int) bool { return binaryOps[strs[i]] }); i >= 0 {
			return mutant{"operator doubled", ins(i, strs[i])}, true
		}
	case 10:
		i := r.Intn(len(strs) + 1)
		return mutant{"assignment inserted", ins(i, r.Pick([]string{"=", "=", "/=", "//="}))}, true
	case 11:
		if i := pick(func(i int) bool { return toks[i].Depth > 0 }); i >= 0 {
			return mutant{"rule inside a definition", ins(i, rule.Name, "=")}, true
		}
	case 12:
		if i := pick(func(i int) bool { return toks[i].Depth > 0 }); i >= 0 {
			return mutant{"truncated", append([]string{}, strs[:i]...)}, true
		}
	case 13:
		if r.P(1, 2) {
			i := r.Intn(len(strs) + 1)
			return mutant{"illegal character", ins(i, r.Pick(illegals))}, true
		}
		if i := pick(func(i int) bool { return strs[i][0] == '"' }); i >= 0 {
			out := append([]string{}, strs...)
			out[i] = out[i][:len(out[i])-1]
			return mutant{"quote removed", out}, true
		}
	}
	return
}

var propP04 = &Property{ID: "P04",
	Rule: "every kind of malformation at random places of generated schemas, every single place of small ones; non-trivial: distinct (kind of malformation, tokens before and after it)",
	Run: func(c *Ctx) {
		check := func(t *T, m mutant, r *Rand) {
			src := joinTokens(r, m.toks)
			if m.kind == "quote removed" || m.kind == "illegal character" {
				if !hasLexError(RefLex(src)) {
					return
				}
			}
			t.Input(src)
			cddl, errs := parseSrc(src)
			if len(errs) == 0 {
				t.Fail("%s, but accepted as %s", m.kind, strings.Join(DumpRules(cddl, false, false), " "))
			}
			t.Eval()
			t.Count(m.kind, 1)
			t.Distinct(m.kind, tokShape(src))
			if t.P(1, 3000) {
				t.Sample("%s: %.150q: %s", m.kind, src, errs[0].Error())
			}
		}
		c.DoN("schema", c.N(25000, 700000), func(t *T, i int) {
			s := GenSchema(t.Rand, profile(t.Rand))
			toks := Print(s, t.Rand, t.Intn(3))
			for k := 0; k < 6; k++ {
				if m, ok := makeMutant(t.Rand, s, toks); ok {
					check(t, m, t.Rand)
				}
			}
		})
		// each construct alone, broken in many ways
		c.DoN("small", c.N(25000, 400000), func(t *T, i int) {
			s := GenSchema(t.Rand, Profile{Rules: 2, Depth: t.Intn(3), MaxKids: 2, Sockets: true, Ranges: true, Controls: true})
			toks := Print(s, t.Rand, t.Intn(3))
			for k := 0; k < 12; k++ {
				if m, ok := makeMutant(t.Rand, s, toks); ok {
					check(t, m, t.Rand)
				}
			}
		})
		c.DoN("big", 15, func(t *T, i int) {
			s := bigSchema(t.Rand, i, 1)
			toks := Print(s, t.Rand, t.Intn(3))
			for k := 0; k < 12; k++ {
				if m, ok := makeMutant(t.Rand, s, toks); ok {
					check(t, m, t.Rand)
				}
			}
		})
	}}

// P05 -------------------------------------------------------------------------------------------------------

func positions(errs []errors.Diagnostic) map[int]bool {
	m := map[int]bool{}
	for _, e := range errs {
		m[e.Start().Offset] = true
	}
	return m
}

func diffPos(want, got map[int]bool, src []byte) string {
	var miss, extra []string
	show := func(o int) string {
		l, c := 0, 0
		if o <= len(src) {
			l, c = linecol(src, o)
		}
		return fmt.Sprintf("%d:%d (offset %d)", l, c, o)
	}
	for o := range want {
		if !got[o] {
			miss = append(miss, show(o))
		}
	}
	for o := range got {
		if !want[o] {
			extra = append(extra, show(o))
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	if len(miss)+len(extra) == 0 {
		return ""
	}
	return fmt.Sprintf("not reported: %s; reported without reason: %s", strings.Join(miss, ", "), strings.Join(extra, ", "))
}

// breakNames makes references undefined and rules duplicate. It returns the nodes and rules to be reported.
// names that look like something else, not declared
var oddUndef = []string{"@", "_", "@x", "_x", "__", "@@", "Int", "INT", "Tstr", "TRUE", "True", "False", "Null", "NIL", "UINT", "size", "regexp", "bits", "Bool", "tdate", "uri", "number", "bigint", "biguint", "b64url", "eb64url", "undefined", "encoded-cbor",
	"int-_", "int.0", "tstr_", "float128", "float8", "uint8", "x$", "a$b", "true-_", "nil0", "IDENT", "EOF", "cbor-any", "integer", "unsigned", "decfrac", "time", "mime-message", "regex", "i", "I", "l", "O"}

// nearName changes a name a little
func nearName(t *Rand, s string) string {
	switch i := t.Intn(len(s)); t.Intn(7) {
	case 0:
		return s + t.Pick([]string{"-", ".", "_", "$", "@", "0", "1", "s", "-type", ".0"})
	case 1:
		return s[:len(s)-1]
	case 2:
		return t.Pick([]string{"_", "@", "a"}) + s
	case 3:
		return s[:i] + swapCase(s[i:i+1]) + s[i+1:]
	case 4:
		return swapCase(s)
	case 5:
		return strings.NewReplacer("-", "_", "_", "-", ".", "-").Replace(s)
	default:
		return s[:i] + s[i+1:]
	}
}

func swapCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

func breakNames(t *Rand, s *Schema, declared map[string]bool) (nodes map[*N]bool, rules map[*Rule]bool) {
	nodes, rules = map[*N]bool{}, map[*Rule]bool{}
	und := t.Intn(3)
	dup := t.Intn(3)
	taken := map[string]bool{}
	for k := range declared {
		taken[k] = true
	}
	var near []string
	for _, r := range s.Rules {
		taken[r.Name] = true
		near = append(near, r.Name)
	}
	keep := func(n string) bool { // the name belongs to nothing
		return declared == nil && !taken[n] && refWords[n] == 0
	}
	for _, r := range s.Rules {
		walkModel(r.Value, func(n, p *N) {
			if n.K != "ident" || n.S[0] == '$' || p != nil && (p.K == "range" || p.K == "entry" && n == p.Kids[0] && p.S == ":") {
				return
			}
			if p != nil && p.K == "entry" && n == p.Kids[0] {
				return // whether a key before => is a reference is left open here
			}
			if und > 0 && t.P(und, 8) {
				n.S = fmt.Sprintf("undef%d-%s", t.Intn(5), n.S)
				switch odd := t.Pick(oddUndef); t.Intn(6) {
				case 0, 1:
					if keep(odd) {
						n.S = odd
					}
				case 2:
					// nearly the name of a rule
					odd = nearName(t, t.Pick(near))
					if len(odd) > 0 && odd[0] != '$' && reIdent.FindString(odd) == odd && keep(odd) {
						n.S = odd
					}
				}
				nodes[n] = true
			}
		})
	}
	var out []*Rule
	plain := map[string]bool{}
	for k := range declared {
		plain[k] = true
	}
	for i, r := range s.Rules {
		out = append(out, r)
		if r.Assign == "=" {
			plain[r.Name] = true
		}
		for dup > 0 && t.P(dup, 12) {
			d := s.Rules[t.Intn(i+1)]
			if !plain[d.Name] {
				continue
			}
			n := &Rule{Name: d.Name, Assign: "=", Value: leaf("prim", t.Pick(prims))}
			out = append(out, n)
			rules[n] = true
		}
	}
	s.Rules = out
	return
}

// arrowKeys: references used as keys before => are resolved as references, like any other
func arrowKeyRefs(s *Schema) (out []*N) {
	for _, r := range s.Rules {
		walkModel(r.Value, func(n, p *N) {
			if p != nil && p.K == "entry" && p.S == "=>" && n == p.Kids[0] && n.K == "ident" {
				out = append(out, n)
			}
		})
	}
	return
}

var rePlace = regexp.MustCompile(`line \d+, column \d+`)

// checkNames breaks names of a schema and compares the positions of the diagnostics with those to be reported
func checkNames(t *T, s *Schema, env *environment.Environment, declared map[string]bool, label string) {
	// keys before => count as references in the parser: give them declared names or expect nothing of them
	declare := map[string]bool{}
	for k := range declared {
		declare[k] = true
	}
	for _, r := range s.Rules {
		declare[r.Name] = true
	}
	for _, n := range arrowKeyRefs(s) {
		if !declare[n.S] {
			n.S = s.Rules[0].Name
		}
	}
	nodes, rules := breakNames(t.Rand, s, declared)
	l := layouts[t.Intn(len(layouts))]
	tx := Render(Print(s, t.Rand, t.Intn(3)), &l, t.Rand)
	t.Input(tx.Src)
	var opts []parser.ConfigOpts
	if env != nil {
		opts = append(opts, parser.WithEnv(env))
	}
	_, errs := parseSrc(tx.Src, opts...)
	want, wantName := map[int]bool{}, map[int]string{}
	for n := range nodes {
		want[tx.Toks[n.start].Off] = true
		wantName[tx.Toks[n.start].Off] = n.S
	}
	for r := range rules {
		want[tx.Toks[r.first].Off] = true
		wantName[tx.Toks[r.first].Off] = r.Name
	}
	// a plain rule for a name of an earlier source is a duplicate as well
	for _, r := range s.Rules {
		if r.Assign == "=" && declared[r.Name] {
			want[tx.Toks[r.first].Off] = true
			wantName[tx.Toks[r.first].Off] = r.Name
		}
	}
	if d := diffPos(want, positions(errs), tx.Src); d != "" {
		t.Fail("%s%s; diagnostics: %s", label, d, diagText(errs))
	}
	named := map[int]bool{}
	for _, e := range errs {
		o := e.Start().Offset
		named[o] = named[o] || strings.Contains(e.Error(), wantName[o])
	}
	for o, name := range wantName {
		if !named[o] {
			t.Fail("%sno diagnostic at offset %d names %q: %s", label, o, name, diagText(errs))
		}
	}
	// a place that the report of a duplicate names is one in a declaration of the name
	if env == nil && len(rules) > 0 {
		line, start, seen := 1, 0, 0
		places := map[string]map[string]bool{}
		for k, r := range s.Rules {
			if r.Assign != "=" || places[r.Name] != nil {
				continue
			}
			places[r.Name] = map[string]bool{}
			end := len(tx.Toks)
			if k+1 < len(s.Rules) {
				end = s.Rules[k+1].first
			}
			for x := r.first; x < end; x++ {
				for ; seen < tx.Toks[x].Off; seen++ {
					if tx.Src[seen] == '\n' {
						line, start = line+1, seen+1
					}
				}
				places[r.Name][fmt.Sprintf("line %d, column %d", line, seen-start+1)] = true
			}
		}
		for _, e := range errs {
			own := places[wantName[e.Start().Offset]]
			for _, at := range rePlace.FindAllString(e.Error(), -1) {
				if own != nil && !own[at] {
					t.Fail("the report of a duplicate of %q names a place outside its declaration: %s", wantName[e.Start().Offset], e.Error())
				}
				t.Count("places in messages", 1)
			}
		}
	}
	t.Count("references reported", len(nodes))
	t.Count("duplicates reported", len(rules))
	t.Count("schemas", 1)
	t.Distinct(fmt.Sprint(len(nodes), len(rules)), tokShape(tx.Src))
	if len(want) > 0 && t.P(1, 800) {
		t.Sample("%.150q: reported at %v", tx.Src, want)
	}
}

var propP05 = &Property{ID: "P05",
	Rule: "generated schemas with random undeclared references and duplicate rules, in all layouts and split over 1 to 4 sources that share an environment; the set of diagnostic positions is compared with the model's; non-trivial: distinct (number of undefined, number of duplicates, token kinds) among schemas",
	Run: func(c *Ctx) {
		run := checkNames
		c.DoN("single", c.N(30000, 800000), func(t *T, i int) {
			run(t, GenSchema(t.Rand, profile(t.Rand)), nil, nil, "")
		})
		c.DoN("shared", c.N(10000, 300000), func(t *T, i int) {
			env := environment.NewEnvironment()
			declared := map[string]bool{}
			ext := map[string]bool{}
			for k := t.Range(2, 4); k > 0; k-- {
				pf := profile(t.Rand)
				pf.Ranges, pf.Rules = false, min(pf.Rules, 8) // an earlier declaration of a bound would decide its kind
				s := GenSchema(t.Rand, pf)
				// a name that was only extended before is left alone
				var keep []*Rule
				names := map[string]bool{}
				for _, r := range s.Rules {
					names[r.Name] = true
					if !ext[r.Name] {
						keep = append(keep, r)
					}
				}
				if len(keep) == 0 {
					continue
				}
				s.Rules = keep
				// references to names of earlier sources
				for _, r := range s.Rules {
					walkModel(r.Value, func(n, p *N) {
						if n.K == "ident" && n.S[0] != '$' && len(declared) > 0 && t.P(1, 4) && !(p != nil && p.K == "entry" && n == p.Kids[0]) {
							n.S = anyKey(t.Rand, declared)
						}
					})
				}
				run(t, s, env, declared, fmt.Sprintf("with %d names known: ", len(declared)))
				for _, r := range s.Rules {
					if r.Assign == "=" {
						declared[r.Name] = true
					}
				}
				for _, r := range s.Rules {
					if r.Assign != "=" && !declared[r.Name] {
						ext[r.Name] = true
					}
				}
				t.Eval()
			}
		})
		// names that digests do not tell apart
		c.DoN("confused", 4*len(confused), func(t *T, i int) {
			p := confused[i/4]
			a, b := p[i%2], p[1-i%2]
			for _, x := range []struct {
				src  string
				want []int // in the order of the source
			}{
				{a + " = int\n" + b + " = tstr\n", nil},
				{a + " = int\nx = " + b + "\n", []int{len(a) + 11}},
				{a + " = int\nx = [" + a + ", k: " + b + "]\n", []int{2*len(a) + 17}},
				{b + " = tstr\n" + a + " = int\n" + a + " = uint\n", []int{len(a) + len(b) + 15}},
				{a + " = " + b + "\n", []int{len(a) + 3}},
				{"x = (" + a + ": int)\n" + b + " = [" + b + "]\n", nil},
			} {
				t.Input([]byte(x.src))
				env := environment.NewEnvironment()
				var opts []parser.ConfigOpts
				if i%4 > 1 {
					opts = append(opts, parser.WithEnv(env))
				}
				_, errs := parseSrc([]byte(x.src), opts...)
				want := map[int]bool{}
				for _, o := range x.want {
					want[o] = true
				}
				if d := diffPos(want, positions(errs), []byte(x.src)); d != "" {
					t.Fail("%s; diagnostics: %s", d, diagText(errs))
				}
				t.Count("references reported", len(want))
				t.Distinct(x.src)
				t.Eval()
			}
		})
		c.DoN("many", 12, func(t *T, i int) {
			s := bigSchema(t.Rand, []int{0, 1, 10}[i%3], c.Pick(6, 20))
			run(t, s, nil, nil, "")
		})
	}}

func anyKey(r *Rand, m map[string]bool) string {
	var ks []string
	for k := range m {
		if k[0] != '$' {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return "$none"
	}
	sort.Strings(ks)
	return r.Pick(ks)
}

// P06 -------------------------------------------------------------------------------------------------------

type boundKind struct {
	name  string
	text  string // how it is written
	decl  string // rule that declares it, "" if none
	class string // int, float, undeclared, direct, or the kind of the named value
	named bool
}

var boundKinds = []boundKind{
	{"int literal", "5", "", "int", false}, {"hex literal", "0xff", "", "int", false}, {"zero", "0", "", "int", false}, {"binary literal", "0b11", "", "int", false},
	{"float literal", "1.5", "", "float", false}, {"float zero", "0.0", "", "float", false},
	{"int name", "i1", "i1 = 3", "int", true}, {"other int name", "i2", "i2 = 0x10", "int", true},
	{"float name", "f1", "f1 = 2.5", "float", true}, {"other float name", "f2", "f2 = 0.5", "float", true},
	{"text name", "t1", "t1 = \"a\"", "text", true}, {"other text name", "t2", "t2 = \"b\"", "text", true}, {"bool name", "b1", "b1 = true", "boollit", true},
	{"int type name", "p1", "p1 = int", "inttype", true}, {"tstr type name", "p2", "p2 = tstr", "tstrtype", true}, {"other int type name", "p3", "p3 = int", "inttype", true},
	{"array name", "a1", "a1 = [int]", "array", true}, {"map name", "m1", "m1 = {a: int}", "map", true}, {"group name", "g1", "g1 = (a: int)", "group", true},
	{"choice name", "c1", "c1 = 1 / 2", "choice", true}, {"range name", "r1", "r1 = 0..9", "range", true}, {"tag name", "h1", "h1 = #6.1(int)", "tag", true},
	{"float type name", "p4", "p4 = float", "floattype", true}, {"uint type name", "p5", "p5 = uint", "uinttype", true},
	{"undeclared name", "u1", "", "undeclared", true}, {"other undeclared name", "u2", "", "undeclared", true},
	{"open socket", "$s1", "", "open", true}, {"other open socket", "$s2", "", "open", true}, {"open plug", "$$s1", "", "open", true}, {"int socket", "$i4", "$i4 = 4", "int", true}, {"float plug", "$$f4", "$$f4 = 4.5", "float", true},
	{"text literal", "\"a\"", "", "direct", false}, {"bool literal", "true", "", "direct", false}, {"int type", "int", "", "direct", false}, {"uint type", "uint", "", "direct", false},
	{"float type", "float", "", "direct", false}, {"tstr type", "tstr", "", "direct", false}, {"array", "[1]", "", "direct", false}, {"map", "{a: 1}", "", "direct", false},
	{"group", "(1)", "", "direct", false}, {"tag", "#6.1(1)", "", "direct", false}, {"null", "null", "", "direct", false}, {"bstr", "bstr", "", "direct", false},
	{"unwrap", "~i6", "i6 = 6", "direct", false}, {"enumeration", "&i6", "i6 = 6", "direct", false}, {"empty array", "[]", "", "direct", false}, {"bytes type", "bytes", "", "direct", false},
	{"nint type", "nint", "", "direct", false}, {"float64 type", "float64", "", "direct", false}, {"group of a name", "(i6)", "i6 = 6", "direct", false}, {"control", "uint .size 2", "", "direct", false},
}

var rangeContexts = []string{"x = %s", "x = [%s]", "x = [k: %s]", "x = {k: %s, l: int}", "x = (%s)", "x = int / %s", "x = %s / tstr", "x = [* k: %s]", "x = [? k: %s]", "x = uint .size (%s)",
	"x = #6.1(%s)", "x = [(({k: [%s]}))]", "x = (k: int // l: %s)", "x = (l: %s // k: int)", "x /= %s", "x //= (%s)", "x = [2*3 k: %s]", "x = [%s, %[1]s]", "x = int\ny = %s\nz = tstr", "x = [k: %s, ; comment\n l: int]", "x = bstr .bits (%s)", "x = ~(%s)", "x = &(a: %s)"}

// vary writes the kind with another value
func (k boundKind) vary(r *Rand) boundKind {
	v := ""
	switch k.name {
	case "int literal":
		v = r.Pick([]string{"0", "1", "7", "23", "24", "255", "256", "65535", "65536", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "00", "1000000"})
	case "hex literal":
		v = r.Pick([]string{"0x0", "0x1", "0xFFFF", "0x7fffffffffffffff", "0xabc", "0x00000001"})
	case "zero":
		v = r.Pick([]string{"0", "0x0", "0b0", "00"})
	case "binary literal":
		v = r.Pick([]string{"0b0", "0b1", "0b101", "0b11111111"})
	case "float literal":
		v = r.Pick([]string{"0.5", "1.0", "2.0", "100.0", "3.14159", "0.1", "4294967296.0", "1234567.5", "9007199254740993.0"})
	case "float zero":
		v = r.Pick([]string{"0.0", "0.00", "00.0"})
	case "int name", "other int name":
		v = r.Pick([]string{"0", "1", "2", "3", "255", "0x10", "0b1", "4294967296", "9223372036854775807", "0x0"})
	case "float name", "other float name":
		v = r.Pick([]string{"0.0", "1.0", "2.0", "2.5", "0.5", "100.0", "65536.0", "0.25", "4294967296.0", "3.999"})
	case "open socket":
		v = r.Pick([]string{"$s3", "$$s4", "$s-5", "$s1.a", "$$u1", "$sint", "$i1", "$f1", "$x"})
	case "text name", "other text name":
		v = r.Pick([]string{`""`, `"a"`, `"1"`, `"1.5"`, `"int"`, `"é"`, `"a b"`, `"true"`})
	case "bool name":
		v = r.Pick([]string{"true", "false"})
	case "array name":
		v = r.Pick([]string{"[int]", "[1]", "[]", "[k: 1]", "[* int]"})
	case "map name":
		v = r.Pick([]string{"{a: int}", "{}", "{? a: 1}"})
	case "group name":
		v = r.Pick([]string{"(a: int)", "(a: 1, b: 2)", "(? a: 1)"})
	case "choice name":
		v = r.Pick([]string{"1 / 2", "int / tstr", "1.5 / 2.5", `"a" / "b"`})
	case "range name":
		v = r.Pick([]string{"0..9", "0 ... 9", "1.5 .. 2.5"})
	case "tag name":
		v = r.Pick([]string{"#6.1(int)", "#6.32(tstr)", "#6.1(1)"})
	}
	if v == "" || !r.P(1, 2) {
		return k
	}
	if k.decl == "" {
		k.text = v
	} else {
		k.decl = k.text + " = " + v
	}
	return k
}

// between two rules
var ruleGaps = []string{"\n", "\n", " ", "\t", "\r\n", "\n\n; a comment\n", "   ", " ; a comment\n", ", "}

// verdict of a range: 1 accepted, -1 reported, 0 left open
func rangeVerdict(a, b boundKind) int {
	num := func(k boundKind) bool { return k.class == "int" || k.class == "float" }
	switch {
	case a.class == "direct" || b.class == "direct" || a.class == "undeclared" || b.class == "undeclared":
		return -1
	case a.class == "open" || b.class == "open": // need not be declared, so nothing is known about it
		return 1
	case num(a) && num(b):
		if a.class == b.class {
			return 1
		}
		return -1
	case a.named && b.named:
		if a.class == b.class {
			return 1
		}
		return -1
	case !a.named: // a literal to a name of another kind
		return -1
	}
	return 0
}

var propP06 = &Property{ID: "P06",
	Rule: "every pair of 51 bound kinds with both operators in 23 contexts, with declarations before and after, against a decision table; random sets of several ranges; non-trivial: distinct (kind, operator, kind, context)",
	Run: func(c *Ctx) {
		check := func(t *T, a, b boundKind, op, ctx string, before bool, spaced bool) {
			v := rangeVerdict(a, b)
			same := a.name == b.name
			a, b = a.vary(t.Rand), b.vary(t.Rand)
			if same && a.decl != "" {
				b = a
			}
			rng := a.text + " " + op + " " + b.text
			if !spaced && !a.named && !b.named && a.class != "direct" && b.class != "direct" {
				rng = a.text + op + b.text
			}
			decls := map[string]bool{}
			for _, k := range []boundKind{a, b} {
				if k.decl != "" {
					decls[k.decl] = true
				}
			}
			var ds []string
			for d := range decls {
				ds = append(ds, d)
			}
			sort.Strings(ds)
			src := fmt.Sprintf(ctx, rng)
			gap := t.Pick(ruleGaps)
			if before {
				src = strings.Join(append(ds, src), gap)
			} else {
				src = strings.Join(append([]string{src}, ds...), gap)
			}
			t.Input([]byte(src))
			_, errs := parseSrc([]byte(src))
			switch {
			case v == 1 && len(errs) > 0:
				t.Fail("%s %s %s is rejected: %s", a.name, op, b.name, diagText(errs))
			case v == -1 && len(errs) == 0:
				t.Fail("%s %s %s is accepted", a.name, op, b.name)
			}
			t.Eval()
			t.Count([]string{"reported", "left open", "accepted"}[v+1], 1)
			t.Distinct(a.name, op, b.name, ctx, fmt.Sprint(before))
			if t.P(1, 5000) {
				t.Sample("%q: %d diagnostics", src, len(errs))
			}
		}
		c.DoN("pairs", len(boundKinds)*len(boundKinds), func(t *T, i int) {
			a, b := boundKinds[i/len(boundKinds)], boundKinds[i%len(boundKinds)]
			for _, op := range []string{"..", "..."} {
				for _, ctx := range rangeContexts {
					check(t, a, b, op, ctx, true, true)
					check(t, a, b, op, ctx, false, t.P(1, 2))
				}
			}
		})
		// several ranges in one source: the verdicts are independent
		c.DoN("several", c.N(20000, 400000), func(t *T, i int) {
			var lines []string
			decl := map[string]bool{}
			want := map[int]bool{} // lines that must be reported
			open := map[int]bool{}
			n := t.Range(2, 8)
			for k := 0; k < n; k++ {
				a, b := boundKinds[t.Intn(len(boundKinds))], boundKinds[t.Intn(len(boundKinds))]
				if t.P(2, 3) { // mostly ones without a syntax error
					a, b = boundKinds[t.Intn(24)], boundKinds[t.Intn(24)]
				}
				if t.P(1, 3) {
					b = boundKinds[t.Intn(10)]
				}
				if a.class == "direct" || b.class == "direct" {
					continue
				}
				if a.decl == "" {
					a = a.vary(t.Rand)
				}
				if b.decl == "" {
					b = b.vary(t.Rand)
				}
				v := rangeVerdict(a, b)
				lines = append(lines, fmt.Sprintf("x%d = [k: %s %s %s]", k, a.text, t.Pick([]string{"..", "..."}), b.text))
				if v == -1 {
					want[len(lines)] = true
				}
				if v == 0 {
					open[len(lines)] = true
				}
				for _, d := range []boundKind{a, b} {
					if d.decl != "" && !decl[d.decl] {
						decl[d.decl] = true
						lines = append(lines, d.decl)
					}
				}
			}
			src := strings.Join(lines, "\n")
			t.Input([]byte(src))
			_, errs := parseSrc([]byte(src))
			got := map[int]bool{}
			for _, e := range errs {
				got[e.Start().Line] = true
			}
			for l := 1; l <= len(lines); l++ {
				if want[l] != got[l] && !open[l] {
					t.Fail("line %d reported: %v, expected %v; %s", l, got[l], want[l], diagText(errs))
				}
			}
			t.Distinct("several", tokShape([]byte(src)))
		})
	}}

// P07 -------------------------------------------------------------------------------------------------------

var propP07 = &Property{ID: "P07",
	Rule: "pairs of layouts of generated schemas, with different whitespace, line ends, optional commas and comments: trees compared without positions, comments compared with the ones that were printed; non-trivial: distinct (layout, layout, token kinds)",
	Run: func(c *Ctx) {
		pair := func(t *T, s *Schema, la, lb *Layout) {
			var trees [2][]string
			var srcs [2][]byte
			comments := 0
			for k, l := range []*Layout{la, lb} {
				tx := Render(Print(s, t.Rand, t.Intn(3)), l, t.Rand)
				srcs[k] = tx.Src
				t.Input(tx.Src)
				cddl, errs := parseSrc(tx.Src)
				if len(errs) > 0 {
					t.Fail("layout %q is rejected: %s", l.Name, diagText(errs))
				}
				trees[k] = DumpRules(cddl, false, false)
				tx.NoPos = true
				if d := diffRules(ExpectRules(s, tx), DumpRules(cddl, false, true)); d != "" {
					t.Fail("layout %q: comments: %s", l.Name, d)
				}
				comments += len(tx.Comments)
			}
			if d := diffRules(trees[0], trees[1]); d != "" {
				t.Fail("layouts %q and %q differ: %s\n other source: %q", la.Name, lb.Name, d, srcs[0])
			}
			t.Count("layout pairs", 1)
			t.Count("comments", comments)
			t.Distinct(la.Name, lb.Name, tokShape(srcs[0]))
			if t.P(1, 800) {
				t.Sample("%.120q and %.120q", srcs[0], srcs[1])
			}
		}
		c.DoN("pair", c.N(25000, 700000), func(t *T, i int) {
			s := GenSchema(t.Rand, profile(t.Rand))
			pair(t, s, &layouts[t.Intn(len(layouts))], &layouts[i%len(layouts)])
		})
		c.DoN("big", 15, func(t *T, i int) {
			s := bigSchema(t.Rand, i, c.Pick(2, 6))
			pair(t, s, &layouts[0], &layouts[t.Intn(len(layouts)-1)])
			pair(t, s, &layouts[5], &layouts[4])
		})
		// a single comment in each allowed place of small schemas
		c.DoN("single comments", c.N(4000, 60000), func(t *T, i int) {
			s := GenSchema(t.Rand, Profile{Rules: 2, Depth: 1, MaxKids: 3, Sockets: true, Ranges: true, Controls: true})
			pair(t, s, &Layout{Name: "every place", Newline: "\n", Comments: 100, Glue: 50}, &Layout{Name: "every other place", Newline: "\r\n", Comments: 100, Break: 50})
		})
	}}

// P08 -------------------------------------------------------------------------------------------------------

var propP08 = &Property{ID: "P08", CLI: true,
	Rule: "diagnostics of mutated schemas, token soups and planted lexical errors: the position is compared with the token stream, the printed forms are parsed back, and stderr of `cddlc parse` and `cddlc generate` on a sample; non-trivial: distinct (line, column) pairs of diagnostics",
	Run: func(c *Ctx) {
		check := func(t *T, src []byte) parser.ErrorList {
			t.Input(src)
			_, errs := parseSrc(src)
			if len(errs) == 0 {
				return nil
			}
			starts := map[int]bool{}
			toks, lex, ok := realLex(src)
			if !ok {
				t.Fail("the lexer does not end")
			}
			for _, k := range toks {
				starts[k.Off] = true
			}
			lexPos := map[int]string{}
			for _, e := range lex.Errors {
				starts[e.Pos.Offset] = true
				lexPos[e.Pos.Offset] = e.Msg
			}
			got := map[int]bool{}
			for _, e := range errs {
				p := e.Start()
				if p.Offset < 0 || p.Offset > len(src) || !starts[p.Offset] {
					t.Fail("%q at offset %d, where no token starts", e.Error(), p.Offset)
				}
				l, col := linecol(src, p.Offset)
				if p.Line != l || p.Column != col {
					t.Fail("%q at offset %d has position %d:%d, is at %d:%d", e.Error(), p.Offset, p.Line, p.Column, l, col)
				}
				if end := e.End(); end.Offset < p.Offset || end.Line < p.Line || end.Line == p.Line && end.Column < p.Column {
					t.Fail("%q at %s (offset %d) ends at %s (offset %d)", e.Error(), p, p.Offset, end, end.Offset)
				}
				if _, msg, ok := strings.Cut(e.Error(), "error: "); !ok || strings.TrimSpace(msg) == "" {
					t.Fail("the diagnostic at %s is %q, without a message", p, e.Error())
				} else if strings.Contains(msg, "%!") && !bytes.Contains(src, []byte("%!")) {
					t.Fail("the message %q has a failed conversion", msg)
				}
				d := e.Diagnostic()
				if !strings.Contains(d, fmt.Sprintf("line %d, column %d", l, col)) {
					t.Fail("the printed form %q does not name line %d, column %d", d, l, col)
				}
				if !strings.Contains(d, e.Error()) {
					t.Fail("the printed form %q does not contain the message %q", d, e.Error())
				}
				got[p.Offset] = true
				t.Distinct(fmt.Sprint(l, ":", col))
			}
			for o, msg := range lexPos {
				if !got[o] {
					t.Fail("the lexical error %q at offset %d is not reported there", msg, o)
				}
			}
			t.Count("diagnostics checked", len(errs))
			if t.P(1, 1000) {
				t.Sample("%.100q: %s", src, errs[0].Diagnostic())
			}
			return errs
		}
		gen := func(t *T, i int) []byte {
			_, tx := genText(t.Rand)
			switch i % 4 {
			case 0:
				return mutateTokens(t.Rand, tx)
			case 1:
				return mutateBytes(t.Rand, tx.Src)
			case 2:
				src, _, _ := plant(t.Rand, tx)
				return src
			}
			return tokenSoup(t.Rand, t.Range(1, 30))
		}
		c.DoN("mutants", c.N(60000, 1500000), func(t *T, i int) { check(t, gen(t, i)) })
		// one illegal character: reported where it is or at the token before it
		c.DoN("illegal", c.N(20000, 400000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			at := t.Intn(len(tx.Toks) + 1)
			off, prev := len(tx.Src), -1
			if at < len(tx.Toks) {
				off = tx.Toks[at].Off
			}
			if at > 0 {
				prev = tx.Toks[at-1].Off
			}
			if at == len(tx.Toks) {
				off = tx.Toks[at-1].End // comments may follow
			}
			ill := t.Pick([]string{"!", "%", "^", "|", "\\", "'", "`", "\x00", "\xff", "é"})
			src := []byte(string(tx.Src[:off]) + " " + ill + " " + string(tx.Src[off:]))
			errs := check(t, src)
			got := positions(errs)
			if !got[off+1] && !(prev >= 0 && got[prev]) {
				t.Fail("the illegal character at offset %d is not reported there nor at offset %d: %s", off+1, prev, diagText(errs))
			}
		})
		// names: at the reference and at the second declaration
		c.DoN("names", c.N(8000, 200000), func(t *T, i int) { checkNames(t, GenSchema(t.Rand, profile(t.Rand)), nil, nil, "") })
		// a value that can not be: within the rule it stands in
		c.DoN("impossible values", c.N(12000, 200000), func(t *T, i int) {
			s := GenSchema(t.Rand, profile(t.Rand))
			at := t.Intn(len(s.Rules))
			text := t.Pick(impossible)
			if t.P(1, 4) {
				a, b := boundKinds[t.Intn(len(boundKinds))], boundKinds[t.Intn(len(boundKinds))]
				if rangeVerdict(a, b) != -1 || a.decl != "" || b.decl != "" {
					return
				}
				text = a.text + t.Pick([]string{" .. ", " ... "}) + b.text
			}
			ctx := t.Pick([]string{"%s", "[%s]", "{k: %s}", "( int, %s, tstr )", "tstr / %s", "[k: int // l: %s]", "[\n\n%s]", "[k: [ {l: %s}]]"})
			s.Rules[at].Value = leaf("raw", fmt.Sprintf(ctx, text))
			l := &layouts[t.Intn(len(layouts))]
			tx := Render(Print(s, t.Rand, t.Intn(3)), l, t.Rand)
			errs := check(t, tx.Src)
			from, to := tx.Toks[s.Rules[at].first], tx.Toks[s.Rules[at].last]
			end := to.End
			for _, k := range RefLex(tx.Src) { // the token behind it may be where it shows
				if k.Off >= to.End && k.Tok != token.COMMENT {
					end = k.Off
					break
				}
			}
			for _, e := range errs {
				if o := e.Start().Offset; o >= from.Off && o <= end {
					t.Count("impossible values reported in their rule", 1)
					return
				}
			}
			t.Fail("%q in rule %s at offset %d to %d is not reported there: %s", text, s.Rules[at].Name, from.Off, end, diagText(errs))
		})
		// the excerpts of the commands
		excerpts := func(t *T, src []byte, cmd string) {
			t.Input(src)
			_, errs := parseSrc(src)
			var res cliResult
			if cmd == "parse" {
				res = runCLI(t, []string{"parse", "s.cddl"}, map[string]string{"s.cddl": string(src)}, cliOpts{})
			} else {
				res = runCLI(t, []string{"generate"}, map[string]string{"s.cddl": string(src)}, cliOpts{})
			}
			rest := res.stderr
			lines := strings.Split(string(src), "\n")
			for _, e := range errs {
				p := e.Start()
				msg := e.Error() + "\n"
				k := strings.Index(rest, msg)
				if k < 0 {
					t.Fail("stderr of %s does not have %q, or not in order: %q", cmd, e.Error(), res.stderr)
				}
				rest = rest[k+len(msg):]
				var ls [2]string
				for i := range ls {
					j := strings.IndexByte(rest, '\n')
					if j < 0 {
						t.Fail("stderr of %s has no excerpt for %q: %q", cmd, e.Error(), res.stderr)
					}
					ls[i], rest = rest[:j], rest[j+1:]
				}
				line := lines[p.Line-1]
				if !strings.HasSuffix(strings.TrimSuffix(ls[0], "\r"), strings.TrimSuffix(line, "\r")) {
					t.Fail("the excerpt for %q is %q, line %d is %q", e.Error(), ls[0], p.Line, line)
				}
				prefix := ls[0][:len(strings.TrimSuffix(ls[0], "\r"))-len(strings.TrimSuffix(line, "\r"))]
				if strings.Trim(prefix, " |") != fmt.Sprint(p.Line) {
					t.Fail("the excerpt for %q at line %d is introduced by %q", e.Error(), p.Line, prefix)
				}
				mark := len(ls[1]) - len(strings.TrimLeft(ls[1], " "))
				if mark != len(prefix)+p.Column-1 || strings.TrimSpace(ls[1]) == "" {
					t.Fail("the marker for %q at column %d stands under column %d: %q", e.Error(), p.Column, mark-len(prefix)+1, ls[0]+"\n"+ls[1])
				}
				t.Count("excerpts checked", 1)
			}
		}
		c.DoN("commands", c.N(400, 5000), func(t *T, i int) {
			src := gen(t, t.Intn(4))
			excerpts(t, src, []string{"parse", "generate"}[i%2])
		})
		far := []string{strings.Repeat("\n", 300), strings.Repeat(" ", 3000), strings.Repeat("a = int ; é\r\n", 1), strings.Repeat("; comment\n", 70000), "é" + strings.Repeat("\n", 10) + ";日本\n\t", "\r\n\r\n\t ",
			"a = \"\xff\xfe\x80 \x01\x7f\x1b[0m\" ", "a = \"\u2028\ufeff%d%s%!\" ", "\xef\xbb\xbf", "a = \"|->^~\" ", "a = \"\x00\" ", "a = \"\t\v\f\b\" "}
		c.DoN("far", 2*len(far), func(t *T, i int) {
			src := []byte(far[i%len(far)] + "x = (y, \n\n  z: !, q) ; \xff\x01é%d" + []string{"", "\n", "\r\n"}[t.Intn(3)])
			if t.P(1, 2) {
				src = append(src, fmt.Sprintf("\ny%s = missing ;\t\xc3(\xf0\x9f", strings.Repeat("y", t.Intn(2000)))...)
			}
			check(t, src)
			excerpts(t, src, []string{"parse", "generate"}[i/len(far)])
		})
	}}

var _ = lexer.EOF
