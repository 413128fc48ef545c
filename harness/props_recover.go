// P10: a malformed definition does not disturb others
package main

import (
	"bytes"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/parser"
)

// prefixed makes all names of a schema begin with a prefix, behind their dollar signs
func prefixed(s *Schema, prefix string) {
	name := func(n string) string {
		d := len(n) - len(strings.TrimLeft(n, "$"))
		return n[:d] + prefix + n[d:]
	}
	for _, r := range s.Rules {
		r.Name = name(r.Name)
		walkModel(r.Value, func(n, p *N) {
			if n.K == "ident" {
				n.S = name(n.S)
			}
		})
	}
}

// blank keeps the lines of a text only
func blank(b []byte) []byte {
	out := bytes.Repeat([]byte(" "), len(b))
	for i, c := range b {
		if c == '\n' {
			out[i] = c
		}
	}
	return out
}

func firstRules(cddl *ast.CDDL, n int) (at int) {
	for i, r := range cddl.Rules {
		if _, ok := r.(*ast.Rule); ok {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return len(cddl.Rules)
}

var propP10 = &Property{ID: "P10",
	Rule:        "well formed schemas with malformed definitions between them, which are made from well formed ones by removing, adding, exchanging and replacing tokens, unterminated texts and illegal characters: the trees of all other definitions, but for those directly behind a malformed one, are compared with those of the schemas alone at the same place, and so are the names that are declared and the places of the diagnostics; non-trivial: distinct token kinds of malformed definitions",
	Assumptions: []string{"the definition directly behind a malformed one may be taken for a part of it", "the malformed part begins with a name and its texts are terminated"},
	Run: func(c *Ctx) {
		lay := func(t *T, s *Schema) []byte {
			l := layouts[t.Intn(len(layouts))]
			return append(Render(Print(s, t.Rand, t.Intn(3)), &l, t.Rand).Src, '\n')
		}
		// judge takes well formed and malformed sources in turns
		judge := func(t *T, parts [][]byte) {
			var src []byte
			for _, p := range parts {
				src = append(src, p...)
			}
			t.Input(src)
			known := func() *environment.Environment { // a name of an earlier source
				env := environment.NewEnvironment()
				env.Add("base", &ast.IntegerType{})
				return env
			}
			env := known()
			whole, errs := parseSrc(src, parser.WithEnv(env))
			want := map[int]ast.CDDLEntry{} // by the place
			sparse := map[string]bool{}     // names that are perhaps not declared
			loose := make([]bool, len(src)+1)
			type report struct {
				at  int
				msg string
			}
			reports := map[report]int{} // of the well formed parts
			o, kept := 0, 0
			for k, p := range parts {
				if k%2 == 1 {
					for x := range p {
						loose[o+x] = true
					}
					o += len(p)
					continue
				}
				alone, es := parseSrc(append(blank(src[:o]), p...), parser.WithEnv(known()))
				at, end := 0, o
				if k > 0 {
					at, end = firstRules(alone, 1), o+len(p)
					if at < len(alone.Rules) {
						end = alone.Rules[at].Start().Offset
					}
					if f := firstRules(alone, 0); f < at {
						sparse[alone.Rules[f].(*ast.Rule).Name.Name] = true
					}
				}
				for x := o; x < end; x++ {
					loose[x] = true
				}
				for _, e := range es {
					reports[report{e.Start().Offset, e.Error()}]++
				}
				for _, r := range alone.Rules[at:] {
					want[r.Start().Offset] = r
					kept++
				}
				o += len(p)
			}
			loose[len(src)] = len(parts)%2 == 0 || loose[max(0, len(src)-1)]
			if len(errs) == 0 {
				t.Count("still well formed", 1)
				return
			}
			t.Count("malformed sources", 1)
			last := -1
			for i, r := range whole.Rules {
				o := r.Start().Offset
				if w := want[o]; w != nil {
					if got, want := deepDump(r), deepDump(w); got != want {
						t.Fail("definition %d of the tree, which is not malformed: %s", i, diffAt(got, want))
					}
					if o <= last {
						t.Fail("definition %d is not in the order of the source", i)
					}
					last = o
					delete(want, o)
				} else if !loose[o] {
					t.Fail("the tree has a definition at offset %d, where there is none: %s", o, clip(deepDump(r)))
				}
			}
			for o, w := range want {
				t.Fail("the definition at offset %d, which is not malformed, is missing: %s; diagnostics: %s", o, clip(deepDump(w)), diagText(errs))
			}
			for _, r := range whole.Rules {
				if ru, ok := r.(*ast.Rule); ok && !loose[ru.Start().Offset] && !env.Exists(ru.Name.Name) {
					t.Fail("%s, which is not malformed, is not declared", ru.Name.Name)
				}
			}
			for _, e := range errs {
				reports[report{e.Start().Offset, e.Error()}]--
			}
			for r, n := range reports {
				about := loose[r.at] || n == 0
				for name := range sparse {
					about = about || strings.Contains(r.msg, name)
				}
				switch {
				case about:
				case n < 0:
					t.Fail("a diagnostic at offset %d, where nothing is malformed: %s", r.at, r.msg)
				default:
					t.Fail("the diagnostic at offset %d is missing, which has nothing to do with the malformed part: %s", r.at, r.msg)
				}
			}
			t.Count("definitions kept", kept)
			for k := 1; k < len(parts); k += 2 {
				t.Distinct(tokShape(parts[k]))
			}
			if t.P(1, 3000) {
				t.Sample("%.120q: %d definitions kept: %.200s", parts[1], kept, diagText(errs))
			}
		}
		malformed := func(t *T) []byte {
			pf := profile(t.Rand)
			pf.Rules = 1
			s := GenSchema(t.Rand, pf)
			s.Rules = s.Rules[:1]
			prefixed(s, "bad-")
			walkModel(s.Rules[0].Value, func(n, p *N) {
				if n.K == "ident" && n.S[0] != '$' {
					n.S = "bad-" + n.S
				}
			})
			l := layouts[t.Intn(4)]
			tx := Render(Print(s, t.Rand, 1), &l, t.Rand)
			rest := *tx
			rest.Toks = tx.Toks[1:]
			out := append([]byte(s.Rules[0].Name+" "), mutateTokens(t.Rand, &rest)...)
			switch t.Intn(10) {
			case 0: // without an end
				out = append(out, t.Pick([]string{" \"", " \"abc", " = \"x = [", " / \""})...)
			case 1:
				out = append(out, t.Pick([]string{" ^", " %", " \\", "'", " é", " \x01", " |", " !"})...)
			}
			return append(out, '\n')
		}
		small := func(t *T) *Schema {
			pf := profile(t.Rand)
			pf.Rules = min(pf.Rules, 12)
			broken := t.P(1, 3)
			if broken {
				pf.Ranges = false // their kinds are those of the first of several definitions, which is perhaps lost
			}
			s := GenSchema(t.Rand, pf)
			if broken {
				breakNames(t.Rand, s, nil)
			}
			return s
		}
		good := func(t *T, k int) []byte {
			s := small(t)
			prefixed(s, "p"+itoa(int64(k))+"-")
			return lay(t, s)
		}
		c.DoN("between", c.N(12000, 400000), func(t *T, i int) {
			parts := [][]byte{good(t, 0), malformed(t), good(t, 1)}
			switch i % 8 {
			case 0:
				parts[0] = nil
			case 1:
				parts = parts[:2]
			}
			judge(t, parts)
		})
		c.DoN("many", c.N(600, 20000), func(t *T, i int) {
			var parts [][]byte
			for k := 0; k < t.Range(2, 12); k++ {
				parts = append(parts, good(t, k), malformed(t))
			}
			judge(t, append(parts, good(t, 99)))
		})
		// however many there are
		kinds := []string{"bad = )\n", "bad\n", "bad = [\"a\n", "bad = {a: }\n", "bad = 1..\"a\"\n", "bad /= *\n", "bad = #6.1(int\n", "bad = tstr .regexp\n"}
		c.DoN("very many", c.N(len(kinds), 10*len(kinds)), func(t *T, i int) {
			n := 120000 // more than the nesting that is allowed
			if i >= len(kinds) {
				n = 1000<<uint(t.Intn(9)) + t.Intn(500)
			}
			judge(t, [][]byte{good(t, 0), []byte(strings.Repeat(kinds[i%len(kinds)], n)), good(t, 1)})
			t.Rearm()
		})
		// lists of aliases give little to hold on to
		c.DoN("aliases", c.N(2000, 50000), func(t *T, i int) {
			var a, b strings.Builder
			for k := 0; k < t.Range(1, 60); k++ {
				b.WriteString("n" + itoa(int64(k)) + t.Pick([]string{" = ", "=", "\n=\n"}) + t.Pick([]string{"base", "base", "base", "int", "[base]", "(base)", "{base: base}", "1", "base / base", "~base", "1..2"}) + t.Pick([]string{"\n", "\n", " ", "\n\n"}))
			}
			a.WriteString("foo = base\n")
			judge(t, [][]byte{[]byte(a.String()), malformed(t), []byte(b.String() + "\n")})
		})
	}}
