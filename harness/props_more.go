// Names in the tree and the environment, diagnostics and their lists, the frame of the command line
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/errors"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

// E02 -------------------------------------------------------------------------------------------------------

// declares parses a source into an environment and compares what is declared before and after.
// known are the nodes that were declared by earlier sources.
func declares(t *T, src []byte, rules []*Rule, others map[string]bool, env *environment.Environment, known map[string]ast.Node) {
	t.Input(src)
	cddl, errs := parseSrc(src, parser.WithEnv(env))
	var got []*ast.Rule
	for _, e := range cddl.Rules {
		if r, ok := e.(*ast.Rule); ok {
			got = append(got, r)
		}
	}
	if len(got) != len(rules) {
		t.Fail("%d rules for %d definitions: %s", len(got), len(rules), diagText(errs))
	}
	first, ext := map[string]ast.Node{}, map[string]ast.Node{}
	for i, r := range rules {
		m := ext
		if r.Assign == "=" {
			m = first
		}
		if m[r.Name] == nil {
			m[r.Name] = got[i].Value
		}
	}
	fresh := 0
	for _, r := range rules {
		if known[r.Name] == nil {
			fresh++
			if v := first[r.Name]; v != nil {
				known[r.Name] = v
			} else {
				known[r.Name] = ext[r.Name]
			}
		}
	}
	for n, v := range known {
		if !env.Exists(n) {
			t.Fail("%q is defined and not declared", n)
		}
		if g := env.Get(n); g != v {
			t.Fail("%q is declared as %T at %s, its first definition is %T at %s", n, g, g.Start(), v, v.Start())
		}
	}
	for n := range others {
		if known[n] == nil && (env.Exists(n) || env.Get(n) != nil) {
			t.Fail("%q is only mentioned and is declared", n)
		}
	}
	t.Count("names declared", fresh)
	t.Count("names only mentioned", len(others))
}

func mentioned(s *Schema, to map[string]bool) {
	for _, r := range s.Rules {
		walkModel(r.Value, func(n, p *N) {
			if n.K == "ident" || n.K == "int" || n.K == "text" {
				to[n.S] = true
			}
		})
	}
	for _, w := range []string{"", "int", "tstr", "x y", "=", "true"} {
		to[w] = true
	}
}

// forms of definitions that are rejected, and leave no further definition behind
var rejectedForms = []string{"%s = )", "%s = ]", "%s = !", "%s = bool .size 3", "%s = 1..2.5", "%s = 2.5..1", "%s = [a: int", "%s = (int", "%s = {a: int", "%s =", "%s = tstr .regexp 5",
	"%s = int .size 3", "%s = tstr .lt 3", "%s = #6.1.2(int)", "%s = 99999999999999999999", "%s = int /", "%s = [1 //", "%s = uint .size", "%s", "%s : int", "%s => int", "%s /= )", "%s //= !", "%s = .size 3", "%s = 0x", "%s = #6.1(int", "%s = ~", "%s = &", "%s = ?", "%s = * ", "%s = \"a\"..\"b\""}

var propE02 = &Property{ID: "E02",
	Rule:        "generated schemas, also with undeclared and duplicate names, split over one to five sources sharing an environment, and sessions of single definitions of which some are rejected: the environment afterwards is compared by node identity with the first definitions of the tree; non-trivial: distinct sequences of (assignment, known or not)",
	Assumptions: []string{"a plain definition goes before extensions of the same source"},
	Run: func(c *Ctx) {
		trace := func(rules []*Rule, known map[string]ast.Node) string {
			var sb strings.Builder
			for i, r := range rules {
				if i < 12 {
					fmt.Fprint(&sb, r.Assign, known[r.Name] != nil, ";")
				}
			}
			return sb.String()
		}
		one := func(t *T, pf Profile, env *environment.Environment, known map[string]ast.Node) {
			s := GenSchema(t.Rand, pf)
			if t.P(1, 2) {
				breakNames(t.Rand, s, nil)
			}
			for k := range known { // earlier names again
				if t.P(1, 6) {
					s.Rules = append(s.Rules, &Rule{Name: k, Assign: t.Pick([]string{"=", "/=", "//="}), Value: leaf("prim", t.Pick(prims))})
				}
			}
			t.Shuffle(len(s.Rules), func(i, j int) { s.Rules[i], s.Rules[j] = s.Rules[j], s.Rules[i] })
			others := map[string]bool{}
			mentioned(s, others)
			l := layouts[t.Intn(len(layouts))]
			tx := Render(Print(s, t.Rand, t.Intn(3)), &l, t.Rand)
			t.Distinct(trace(s.Rules, known))
			declares(t, tx.Src, s.Rules, others, env, known)
			if t.P(1, 1500) {
				t.Sample("%.150q declares %d names", tx.Src, len(known))
			}
		}
		c.DoN("single", c.N(15000, 400000), func(t *T, i int) {
			one(t, profile(t.Rand), environment.NewEnvironment(), map[string]ast.Node{})
		})
		c.DoN("shared", c.N(6000, 150000), func(t *T, i int) {
			env, known := environment.NewEnvironment(), map[string]ast.Node{}
			if t.P(1, 3) { // declared by hand
				n := &ast.TstrType{}
				env.Add("byhand", n)
				known["byhand"] = n
			}
			for k := t.Range(2, 5); k > 0; k-- {
				pf := profile(t.Rand)
				pf.Rules = min(pf.Rules, 8)
				one(t, pf, env, known)
				t.Eval()
			}
		})
		c.DoN("confused", 2*len(confused), func(t *T, i int) { // names that digests do not tell apart
			p := confused[i/2]
			a, b := p[i%2], p[1-i%2]
			env := environment.NewEnvironment()
			src := []byte("other = 1\n" + a + " = int\n")
			t.Input(src)
			first, _ := parseSrc(src, parser.WithEnv(env))
			if env.Exists(b) || env.Get(b) != nil {
				t.Fail("%s is declared by a source that declares %s", b, a)
			}
			src = []byte(b + " = tstr\n")
			t.Input(src)
			second, errs := parseSrc(src, parser.WithEnv(env))
			if len(errs) > 0 || len(first.Rules) != 2 || len(second.Rules) != 1 {
				t.Fail("%s after %s: %s", b, a, diagText(errs))
			}
			for name, rule := range map[string]ast.CDDLEntry{a: first.Rules[1], b: second.Rules[0]} {
				r, ok := rule.(*ast.Rule)
				if !ok || env.Get(name) != r.Value {
					t.Fail("%s is not what its definition says", name)
				}
			}
			t.Distinct(a, b)
		})
		c.DoN("session", c.N(6000, 150000), func(t *T, i int) {
			env, known := environment.NewEnvironment(), map[string]ast.Node{}
			never := map[string]bool{}
			tr := ""
			for k := t.Range(3, 25); k > 0; k-- {
				name := fmt.Sprintf("%s%d", t.Pick(stems), t.Intn(8))
				if t.P(2, 5) {
					f := t.Intn(len(rejectedForms))
					src := []byte(fmt.Sprintf(rejectedForms[f], name))
					t.Input(src)
					if t.P(1, 4) {
						src = append(src, " ; comment\n"...)
					}
					_, errs := parseSrc(src, parser.WithEnv(env))
					if len(errs) == 0 {
						t.Fail("%q is accepted", src)
					}
					if known[name] == nil {
						never[name] = true
					}
					tr += fmt.Sprint("r", f, known[name] != nil)
					t.Count("rejected definitions", 1)
					for n := range never {
						if known[n] == nil && (env.Exists(n) || env.Get(n) != nil) {
							t.Fail("%q is declared by the rejected definition %q", n, src)
						}
					}
					for n, v := range known {
						if !env.Exists(n) || env.Get(n) != v {
							t.Fail("the declaration of %q is changed by the rejected definition %q", n, src)
						}
					}
					continue
				}
				r := &Rule{Name: name, Assign: t.Pick([]string{"=", "=", "=", "/=", "//="}), Value: leaf("prim", t.Pick(prims))}
				s := &Schema{Rules: []*Rule{r}}
				l := layouts[t.Intn(len(layouts))]
				tx := Render(Print(s, t.Rand, 0), &l, t.Rand)
				tr += fmt.Sprint(r.Assign, known[name] != nil)
				declares(t, tx.Src, s.Rules, never, env, known)
			}
			t.Distinct("session", tr)
		})
		c.DoN("many", 6, func(t *T, i int) {
			s := bigSchema(t.Rand, []int{0, 1, 10}[i%3], c.Pick(6, 30))
			others := map[string]bool{}
			mentioned(s, others)
			l := layouts[t.Intn(len(layouts))]
			tx := Render(Print(s, t.Rand, 0), &l, t.Rand)
			declares(t, tx.Src, s.Rules, others, environment.NewEnvironment(), map[string]ast.Node{})
		})
	}}

// D01 -------------------------------------------------------------------------------------------------------

func wantPos(p token.Position) string {
	s := fmt.Sprint(p.Line)
	if p.Column > 0 {
		s += ":" + fmt.Sprint(p.Column)
	}
	if p.Filename != "" {
		s = p.Filename + ":" + s
	}
	return s
}

func wantRange(a, b token.Position) string {
	s := fmt.Sprintf("line %d, column %d", a.Line, a.Column)
	if a.Line == b.Line {
		return s + fmt.Sprintf(" ~ %d", b.Column)
	}
	return s + fmt.Sprintf(" to line %d, column %d", b.Line, b.Column)
}

func randPos(r *Rand) token.Position {
	num := func() int {
		switch r.Intn(5) {
		case 0:
			return r.Intn(3)
		case 1:
			return r.Intn(100000)
		case 2:
			return 1<<31 - 1 + r.Intn(3)
		}
		return r.Intn(120)
	}
	p := token.Position{Offset: num(), Line: num(), Column: num()}
	if r.P(1, 3) {
		p.Filename = r.Pick([]string{"a.cddl", "dir/b c.cddl", "%s", "x:1:2", "ü", " ", ":", "a:", "C:", "-", "0", "/", "a/../b"})
	}
	return p
}

// checkList compares a list of diagnostics and all its views
func checkList(t *T, l parser.ErrorList) {
	var text strings.Builder
	for _, e := range l {
		text.WriteString(e.Error() + "\n")
	}
	if s := l.String(); s != text.String() {
		t.Fail("the list of %d diagnostics reads %q, its messages are %q", len(l), clip(s), clip(text.String()))
	}
	if l.Error() != text.String() || l.Diagnostic() != text.String() {
		t.Fail("the list of %d diagnostics reads differently: %q %q", len(l), clip(l.Error()), clip(l.Diagnostic()))
	}
	var s, e token.Position
	if len(l) > 0 {
		s, e = l[0].Start(), l[len(l)-1].End()
	}
	if l.Start() != s || l.End() != e {
		t.Fail("the list of %d diagnostics stands at %v to %v, expected %v to %v", len(l), l.Start(), l.End(), s, e)
	}
	c := l.Collect()
	if (c == nil) != (len(l) == 0) || len(c) != len(l) {
		t.Fail("%d diagnostics collect to %d", len(l), len(c))
	}
	for i := range c {
		if c[i] != l[i] {
			t.Fail("diagnostic %d is another one when collected", i)
		}
	}
	t.Count("lists", 1)
	t.Count("diagnostics", len(l))
}

// checkDiag compares a diagnostic's views with what it was made of
func checkDiag(t *T, d errors.Diagnostic, prefix, msg string, a, b token.Position) {
	want := prefix + " error: " + msg
	if d.Error() != want || d.String() != want {
		t.Fail("a diagnostic reads %q and %q, expected %q", d.Error(), d.String(), want)
	}
	if d.Start() != a || d.End() != b {
		t.Fail("a diagnostic of %v to %v stands at %v to %v", a, b, d.Start(), d.End())
	}
	if w := want + " at " + wantRange(a, b); d.Diagnostic() != w {
		t.Fail("a diagnostic's long form is %q, expected %q", d.Diagnostic(), w)
	}
}

var propD01 = &Property{ID: "D01",
	Rule:        "random positions, ranges, diagnostics and lists, and the lists of rejected sources: printed forms, start, end, collection and the parser's own list are compared with the parts; non-trivial: distinct printed forms",
	Assumptions: []string{"offsets handed to To are not negative"},
	Run: func(c *Ctx) {
		c.DoN("positions", c.N(4000, 100000), func(t *T, i int) {
			for k := 0; k < 20; k++ {
				p, q := randPos(t.Rand), randPos(t.Rand)
				if t.P(1, 2) {
					q.Line = p.Line
				}
				if s := p.String(); s != wantPos(p) {
					t.Fail("%#v prints as %q, expected %q", p, s, wantPos(p))
				}
				n := t.Intn(50)
				if t.P(1, 4) {
					n = t.Intn(1 << 30)
				}
				keep := p
				if g, w := p.To(n), (token.Position{Filename: p.Filename, Offset: p.Offset + n, Line: p.Line, Column: p.Column + n}); g != w || p != keep {
					t.Fail("%#v and %d bytes is %#v", p, n, g)
				}
				r := token.PositionRange{Start: p, End: q}
				if s := r.String(); s != wantRange(p, q) {
					t.Fail("%#v prints as %q, expected %q", r, s, wantRange(p, q))
				}
				t.Count("positions", 1)
				t.Distinct(wantPos(p))
			}
		})
		c.DoN("lists", c.N(4000, 100000), func(t *T, i int) {
			var l parser.ErrorList
			n := t.Intn(6)
			if t.P(1, 20) {
				n = t.Intn(3000)
			}
			if t.P(1, 2) {
				l = parser.ErrorList{}
			}
			for k := 0; k < n; k++ {
				if len(l) > 0 && t.P(1, 6) { // the same once more
					d := l[max(t.Intn(len(l)), t.Intn(2)*(len(l)-1))]
					l = append(l, d)
					continue
				}
				a, b := randPos(t.Rand), randPos(t.Rand)
				if t.P(1, 2) {
					b.Line = a.Line
				}
				msg := t.Pick([]string{"", "expected IDENT", "100%", "%s %d", "two\nlines", "a line\n", "\n", " m ", "m \t", "m\r\n", "m.", "M: x", "unexpected token \x00", "ü", strings.Repeat("m", t.Intn(300)), "parser error: x"})
				if t.P(1, 3) {
					pre := t.Pick([]string{"lexer", "parser", "", "x y"})
					d := &parser.Error{Prefix: pre, Msg: msg, Range: token.PositionRange{Start: a, End: b}}
					checkDiag(t, d, pre, msg, a, b)
					l = append(l, d)
				} else {
					d := parser.NewError(msg, a, b)
					checkDiag(t, d, "parser", msg, a, b)
					l = append(l, d)
				}
			}
			checkList(t, l)
			t.Distinct(l.String())
		})
		parsed := func(t *T, src []byte) {
			t.Input(src)
			p := parser.NewParser(lexer.NewLexer(src))
			_, errs := p.ParseFile()
			if errs != nil && len(errs) == 0 {
				t.Fail("the list of an accepted source is not nil")
			}
			own := p.Errors()
			if len(own) != len(errs) {
				t.Fail("the parser has %d diagnostics and returns %d", len(own), len(errs))
			}
			for i, e := range errs {
				if own[i] != e {
					t.Fail("diagnostic %d of the parser is %q, it returns %q", i, own[i], e)
				}
				pe, ok := e.(*parser.Error)
				if !ok {
					continue
				}
				checkDiag(t, e, pe.Prefix, pe.Msg, pe.Range.Start, pe.Range.End)
				if pe.Prefix == "" || pe.Msg == "" {
					t.Fail("diagnostic %d has the origin %q and the message %q", i, pe.Prefix, pe.Msg)
				}
			}
			checkList(t, errs)
			if len(errs) > 0 {
				t.Distinct(errs.String())
				if t.P(1, 2000) {
					t.Sample("%.80q: %s", src, errs.String())
				}
			}
		}
		c.DoN("tokens", c.N(20000, 500000), func(t *T, i int) { parsed(t, tokenSoup(t.Rand, t.Range(1, 2+i%40))) })
		c.DoN("fragments", c.N(15000, 400000), func(t *T, i int) { parsed(t, fragSoup(t.Rand, t.Range(1, 12))) })
		c.DoN("mutants", c.N(8000, 200000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			parsed(t, mutateTokens(t.Rand, tx))
		})
	}}

// A04 -------------------------------------------------------------------------------------------------------

// checkName compares what an identifier tells about itself with its first two bytes
func checkName(t *T, id *ast.Identifier) {
	name := id.Name
	plug := len(name) >= 2 && name[0] == '$' && name[1] == '$'
	socket := !plug && len(name) >= 1 && name[0] == '$'
	if id.IsPlug() != plug || id.IsSocket() != socket {
		t.Fail("name %q: socket %v, plug %v; expected %v and %v", name, id.IsSocket(), id.IsPlug(), socket, plug)
	}
	if !strings.Contains(id.String(), name) {
		t.Fail("name %q prints as %q", name, id.String())
	}
	if id.Start() != id.Pos || id.End() != id.Pos.To(len(name)) {
		t.Fail("name %q at %v reaches from %v to %v", name, id.Pos, id.Start(), id.End())
	}
	if id.Name != name {
		t.Fail("name %q is changed to %q", name, id.Name)
	}
	t.Count("names", 1)
}

func checkComments(t *T, cg *ast.CommentGroup) {
	want := ""
	if cg != nil {
		for _, c := range cg.List {
			want += c.Text + "\n"
		}
	}
	if s := cg.String(); s != want {
		t.Fail("comments read %q, expected %q", s, want)
	}
	if cg == nil {
		return
	}
	s, e := token.Position{Offset: -1}, token.Position{Offset: -1}
	if n := len(cg.List); n > 0 {
		s, e = cg.List[0].Pos, cg.List[n-1].Pos.To(len(cg.List[n-1].Text))
		for _, c := range cg.List {
			if c.Start() != c.Pos {
				t.Fail("a comment at %v starts at %v", c.Pos, c.Start())
			}
		}
	}
	if cg.Start() != s || cg.End() != e {
		t.Fail("%d comments reach from %v to %v, expected %v to %v", len(cg.List), cg.Start(), cg.End(), s, e)
	}
	t.Count("comment groups", 1)
}

var propA04 = &Property{ID: "A04",
	Rule: "random names and comment groups, and all names and comment groups of the trees of generated schemas: predicates, texts and positions against the name, the comments and the source; non-trivial: distinct names and texts",
	Run: func(c *Ctx) {
		c.DoN("names", c.N(6000, 150000), func(t *T, i int) {
			var name string
			switch t.Intn(5) {
			case 0:
				name = t.Pick([]string{"", "$", "$$", "$$$", "$$$$a", "a$", "a$$", "@$", "$-", "$.", "$$a$", "$a$$", "-$", "_$$", "$a-b.c", "$$a-b.c", "%$", "$%s", "$$%d"})
			case 1:
				name = string(randBytes(t.Rand, t.Intn(6)))
			case 2:
				name = strings.Repeat("$", t.Intn(5)) + t.Pick(stems)
			default:
				b := make([]byte, t.Intn(5))
				for k := range b {
					b[k] = "$$$a@_1-."[t.Intn(9)]
				}
				name = string(b)
			}
			t.Input([]byte(name))
			checkName(t, &ast.Identifier{Pos: randPos(t.Rand), Name: name})
			t.Distinct("name", name)
		})
		c.DoN("comments", c.N(6000, 150000), func(t *T, i int) {
			if i == 0 {
				checkComments(t, nil)
			}
			cg := &ast.CommentGroup{}
			for k := t.Intn(5); k > 0; k-- {
				cg.List = append(cg.List, &ast.Comment{Pos: randPos(t.Rand), Text: t.Pick([]string{"", " ", "a", " text ", ";", "%d", "a\r", "//", "*/", string(randBytes(t.Rand, t.Intn(10)))})})
			}
			checkComments(t, cg)
			t.Distinct("comments", cg.String())
		})
		c.DoN("schema", c.N(15000, 400000), func(t *T, i int) {
			s := GenSchema(t.Rand, profile(t.Rand))
			l := layouts[t.Intn(len(layouts))]
			tx := Render(Print(s, t.Rand, t.Intn(3)), &l, t.Rand)
			t.Input(tx.Src)
			cddl, _ := parseSrc(tx.Src)
			for _, n := range allNodes(cddl) {
				switch n := n.(type) {
				case *ast.Identifier:
					checkName(t, n)
					if o := n.Pos.Offset; o < 0 || o >= len(tx.Src) || (n.IsSocket() || n.IsPlug()) != (tx.Src[o] == '$') || n.IsPlug() != strings.HasPrefix(string(tx.Src[o:]), "$$") {
						t.Fail("name %q at offset %d: socket %v, plug %v", n.Name, o, n.IsSocket(), n.IsPlug())
					}
					if n.IsPlug() || n.IsSocket() {
						t.Count("sockets and plugs of schemas", 1)
					}
				case *ast.CommentGroup:
					checkComments(t, n)
				case *ast.Comment:
					if n.Start() != n.Pos || n.Pos.Offset < 0 || n.Pos.Offset >= len(tx.Src) || tx.Src[n.Pos.Offset] != ';' || !strings.HasPrefix(string(tx.Src[n.Pos.Offset+1:]), n.Text) {
						t.Fail("comment %q at %v", n.Text, n.Pos)
					}
					t.Count("comments of schemas", 1)
				}
			}
			t.Distinct(tokShape(tx.Src))
		})
	}}

// C05 -------------------------------------------------------------------------------------------------------

var cliWords = []string{"init", "generate", "gen", "lex", "parse", "qrepl", "doctor", "help", "h", "--help", "-h", "--lex", "--lex=true", "--lex=maybe", "--", "-", "", " ", "a.cddl", "bad.cddl", "missing.cddl", "dir", "dir/in.cddl", "cddlc.json",
	"foo", "Init", "GENERATE", "--version", "-v", "--foo", "-x", "-lex", "--output", "generate-x", "ini", "parser", "%s", "\xff", "../a.cddl", "./a.cddl", "--help=true", "--generate-bash-completion", "=", ":help", "*"}

// cliExpect tells what an invocation has to come to: 0 success, 1 failure, -1 either
func cliExpect(args []string) int {
	if len(args) == 0 {
		return 0
	}
	rest := args[1:]
	switch args[0] {
	case "doctor":
		if len(rest) == 0 {
			return 0
		}
	case "help", "h", "--help", "-h":
		if len(rest) == 0 {
			return 0
		}
	case "lex", "parse":
		if len(rest) == 1 {
			switch rest[0] {
			case "a.cddl", "./a.cddl", "dir/in.cddl":
				return 0
			case "missing.cddl", "dir", "../a.cddl", "":
				return 1
			}
		}
		for _, a := range rest {
			if strings.HasPrefix(a, "-") {
				return -1
			}
		}
		if len(rest) != 1 {
			return 1
		}
	case "foo", "Init", "GENERATE", "generate-x", "ini", "parser", "a.cddl", "%s", "--foo", "-x", "--output", "-lex", "--lex":
		return 1
	}
	return -1
}

var propC05 = &Property{ID: "C05", CLI: true,
	Rule:        "invocations with random words (commands, aliases, flags, files, nonsense) in a small project: exit status, messages, crash traces and the file tree before and after; non-trivial: distinct argument lists",
	Assumptions: []string{"the wording of help and messages is not specified"},
	Run: func(c *Ctx) {
		invoke := func(t *T, args []string, stdin string, files map[string]string) (cliResult, map[string]string, map[string]string) {
			t.Input([]byte(strings.Join(args, "\x1f")))
			dir := t.scratch()
			defer os.RemoveAll(dir)
			work := filepath.Join(dir, "w") // ../a.cddl stays in the scratch directory
			os.Mkdir(work, 0755)
			writeFiles(t, work, files)
			os.Mkdir(filepath.Join(work, "dir", "sub"), 0755)
			before := snapshot(t, dir)
			r := runIn(t, work, args, cliOpts{stdin: stdin})
			return r, before, snapshot(t, dir)
		}
		project := func() map[string]string {
			return map[string]string{"a.cddl": "a = int ; c\nb = [x: a, y: tstr]\n", "bad.cddl": "a = = int\nb = !\n", "dir/in.cddl": "p = (x: int)\n", "empty.cddl": "", "keep.txt": "keep", "p.go": "package p\n"}
		}
		judge := func(t *T, args []string, r cliResult, before, after map[string]string) {
			if r.crashed() {
				t.Fail("%q crashes: %s", args, clip(r.stderr))
			}
			if r.code < 0 {
				t.Fail("%q ends with %d %s", args, r.code, r.signal)
			}
			if r.code != 0 && r.message() == "" {
				t.Fail("%q fails with %d and no message", args, r.code)
			}
			if strings.Contains(r.stdout+r.stderr, "%!") {
				t.Fail("%q prints a failed conversion: %s %s", args, clip(r.stdout), clip(r.stderr))
			}
			if w := cliExpect(args); w == 0 && r.code != 0 {
				t.Fail("%q fails: %s", args, clip(r.stderr))
			} else if w == 1 && r.code == 0 {
				t.Fail("%q succeeds with %q", args, clip(r.stdout))
			}
			writes := false
			for _, a := range args {
				writes = writes || a == "init" || a == "generate" || a == "gen"
			}
			if d := diffSnap(before, after); d != "" && !writes {
				t.Fail("%q changes files: %s", args, d)
			}
			t.Count("invocations", 1)
			t.Distinct(strings.Join(args, "\x1f"))
		}
		c.DoN("words", c.N(500, 10000), func(t *T, i int) {
			var args []string
			for k := t.Intn(5); k > 0; k-- {
				args = append(args, t.Pick(cliWords))
			}
			if t.P(1, 2) && len(args) > 0 {
				args[0] = t.Pick([]string{"lex", "parse", "doctor", "help", "qrepl", "generate", "init", "gen"})
			}
			r, b, a := invoke(t, args, ":exit\n", project())
			judge(t, args, r, b, a)
			if i%97 == 0 {
				t.Sample("%q: %d %.80q", args, r.code, r.stderr)
			}
		})
		// every command on its own and with every single word
		words := append([]string{"\x00none"}, cliWords...)
		cmds := []string{"lex", "parse", "doctor", "help", "init", "generate", "qrepl", "foo"}
		c.DoN("single", len(cmds), func(t *T, i int) {
			for _, w := range words {
				args := []string{cmds[i], w}
				if w == "\x00none" {
					args = args[:1]
				}
				r, b, a := invoke(t, args, ":exit\n", project())
				judge(t, args, r, b, a)
				t.Eval()
			}
		})
		// more arguments than lex and parse take, of which some are none
		c.DoN("surplus", 2, func(t *T, i int) {
			cmd := []string{"lex", "parse"}[i]
			for _, a := range []string{"a.cddl", "", " ", "missing.cddl", "bad.cddl"} {
				for _, b := range []string{"a.cddl", "", " ", "\t", "missing.cddl", "=", "%s", "\xff", "dir"} {
					for _, args := range [][]string{{cmd, a, b}, {cmd, a, b, ""}, {cmd, a, "", b}, {cmd, "", a, b}, {cmd, "--", a, b}, {cmd, a, b, b, b}} {
						r, bf, af := invoke(t, args, "", project())
						judge(t, args, r, bf, af)
						if r.code == 0 || strings.Contains(r.stdout, "->") {
							t.Fail("%q succeeds with %q", args, clip(r.stdout))
						}
						t.Eval()
					}
				}
			}
		})
		// whatever lies in the directory
		c.DoN("surroundings", c.Pick(60, 400), func(t *T, i int) {
			files := project()
			for _, f := range []string{"cddlc.json", "cddlc.yaml", "cddlc.yml", "cddlc", ".cddlc", ".cddlc.json", "cddlc.log", "go.mod", "cddlc/x", "out/p.go", "in.cddl", "cddlc_gen.go", "Makefile", ".git/HEAD", "cddlc.toml", "cddlc.json~", "a.json", "a.go", "dir/in.go", "dir/cddlc.json"} {
				if t.P(1, 4) || i%20 == 7 {
					files[f] = t.Pick([]string{"", "{}", "{\"version\":\"1\",\"builds\":[{\"src\":\".\",\"output\":\"out\",\"package\":\"pk\"}]}", "version: \"1\"\nbuilds:\n  - src: .\n    output: out\n    package: pk\n", "broken", "module m\n"})
				}
			}
			if _, ok := files["cddlc/x"]; ok {
				delete(files, "cddlc")
			}
			for _, args := range [][]string{{"doctor"}, {}, {"help"}, {"lex", "a.cddl"}, {"parse", "a.cddl"}, {"parse", "bad.cddl"}, {"lex", "missing.cddl"}, {"qrepl"}, {"qrepl", "--lex"}, {"foo"}} {
				r, b, a := invoke(t, args, "a = int\nb = missing\n:tree a\n:exit\n", files)
				judge(t, args, r, b, a)
				t.Eval()
			}
			t.Distinct("surroundings", strings.Join(sortedKeys(files), " "))
		})
		c.DoN("doctor", 2, func(t *T, i int) {
			r, b, a := invoke(t, []string{"doctor"}, "", project())
			judge(t, []string{"doctor"}, r, b, a)
			if !strings.Contains(r.stdout, runtime.GOOS) || !strings.Contains(r.stdout, runtime.GOARCH) {
				t.Fail("doctor prints %q for a %s/%s build", r.stdout, runtime.GOOS, runtime.GOARCH)
			}
		})
		c.DoN("help", 3, func(t *T, i int) {
			args := [][]string{{}, {"help"}, {"--help"}}[i]
			r, b, a := invoke(t, args, "", project())
			judge(t, args, r, b, a)
			for _, w := range []string{"init", "generate", "gen", "doctor"} {
				if !strings.Contains(r.stdout, w) {
					t.Fail("the help does not name %q: %q", w, r.stdout)
				}
			}
		})
		// the alias does the same as the command
		c.DoN("alias", c.Pick(24, 400), func(t *T, i int) {
			files := project()
			if t.P(1, 2) {
				delete(files, "bad.cddl")
			}
			if t.P(2, 3) {
				files["cddlc.json"] = `{"version":"1","builds":[{"src":"` + t.Pick([]string{".", "dir", "missing", "./dir/"}) + `","output":"` + t.Pick([]string{".", "out", "out/deep"}) + `","package":"pk"}]}`
			}
			r1, b1, a1 := invoke(t, []string{"generate"}, "", files)
			r2, b2, a2 := invoke(t, []string{"gen"}, "", files)
			judge(t, []string{"generate"}, r1, b1, a1)
			judge(t, []string{"gen"}, r2, b2, a2)
			if (r1.code == 0) != (r2.code == 0) {
				t.Fail("generate ends with %d and gen with %d: %s", r1.code, r2.code, clip(r2.stderr))
			}
			for _, m := range []map[string]string{a1, a2} {
				for k, v := range m {
					m[k] = afterHeader(v)
				}
			}
			if d := diffSnap(a1, a2); d != "" {
				t.Fail("generate and gen leave different files: %s", d)
			}
			if r1.code == 0 {
				t.Count("successful generates", 1)
			}
		})
	}}

// afterHeader drops the comment with the command line from generated code
func afterHeader(s string) string {
	if k := strings.Index(s, "*/"); k >= 0 {
		return s[k:]
	}
	return s
}
