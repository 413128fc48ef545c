// L06: the source belongs to the caller
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

// results are what scanning and parsing a source has returned, and what it was then
type results struct {
	lex   *lexer.Lexer
	toks  []RTok
	texts []string // the tokens' texts at the time
	cddl  *ast.CDDL
	errs  parser.ErrorList
	tree  []string
	diag  string
	env   *environment.Environment
	names map[string]ast.Node
	code  string
	lexer string
}

func lexErrs(l *lexer.Lexer) string {
	var sb strings.Builder
	for _, e := range l.Errors {
		fmt.Fprintf(&sb, "%s %s %d\n", e.Pos, e.Msg, e.Pos.Offset)
	}
	return sb.String()
}

// code generated for a tree, or how that fails
func codeOf(cddl *ast.CDDL) string {
	out, err := generate(cddl, "p")
	if err != nil {
		return "failure: " + err.Error()
	}
	return string(out)
}

func resultsOf(buf []byte, env *environment.Environment, gen bool) *results {
	r := &results{env: env, names: map[string]ast.Node{}}
	r.toks, r.lex, _ = realLex(buf)
	for _, k := range r.toks {
		r.texts = append(r.texts, strings.Clone(k.Lit))
	}
	r.cddl, r.errs = parseSrc(buf, parser.WithEnv(env))
	r.tree, r.diag = DumpRules(r.cddl, true, true), diagText(r.errs)
	for _, k := range r.toks {
		if k.Tok == token.IDENT {
			n := strings.Clone(k.Lit)
			if v := env.Get(n); v != nil {
				r.names[n] = v
			}
		}
	}
	r.lexer = lexErrs(r.lex)
	if gen && len(r.errs) == 0 {
		r.code = codeOf(r.cddl)
	}
	return r
}

// still is what has changed since
func (r *results) still() string {
	for i, k := range r.toks {
		if k.Lit != r.texts[i] {
			return fmt.Sprintf("the text of token %d was %q and is %q now", i, r.texts[i], k.Lit)
		}
	}
	if l := lexErrs(r.lex); l != r.lexer {
		return fmt.Sprintf("the errors of the lexer were %q and are %q now", r.lexer, l)
	}
	if d := diffRules(r.tree, DumpRules(r.cddl, true, true)); d != "" {
		return "the tree has changed: " + d
	}
	if d := diagText(r.errs); d != r.diag {
		return fmt.Sprintf("the diagnostics have changed: %s", diffAt(d, r.diag))
	}
	for n, v := range r.names {
		if got := r.env.Get(n); got != v || !r.env.Exists(n) {
			return fmt.Sprintf("the environment had a value for %q and has %T now", n, got)
		}
	}
	if r.code != "" {
		if got := codeOf(r.cddl); got != r.code {
			return "the code generated from the tree has changed: " + diffAt(got, r.code)
		}
	}
	return ""
}

var propL06 = &Property{ID: "L06",
	Rule:        "generated and mutated schemas, token soups and schemas for code generation, each in a buffer of the caller with and without room behind it: the buffer is compared before and after, then overwritten (zeros, noise, other sources, one byte), also by the next source of a session that is scanned and parsed from the same buffer with the same environment; everything returned earlier is compared with what it was; non-trivial: distinct (kind of source, last byte, overwriting)",
	Assumptions: []string{"the buffer is only overwritten once scanning and parsing it have ended"},
	Run: func(c *Ctx) {
		source := func(t *T, kind int) []byte {
			switch kind {
			case 0, 1:
				_, tx := genText(t.Rand)
				return tx.Src
			case 2:
				_, tx := genText(t.Rand)
				return mutateTokens(t.Rand, tx)
			case 3:
				return tokenSoup(t.Rand, t.Range(1, 40))
			default:
				cs := GenCode(t.Rand, 6, 2)
				l := layouts[t.Intn(len(layouts))]
				return Render(Print(cs.Schema, t.Rand, 0), &l, t.Rand).Src
			}
		}
		c.DoN("session", c.N(12000, 300000), func(t *T, i int) {
			buf := make([]byte, 0, 64)
			env := environment.NewEnvironment()
			var all []*results
			for k := t.Range(1, 4); k > 0; k-- {
				kind := t.Intn(6)
				src := source(t, kind)
				if t.P(1, 3) { // ends in something that could stand for the byte the lexer adds
					src = append(bytes.TrimRight(src, " \t\r\n"), t.Pick([]string{"\n", " ", "\r\n", "\t", "\x00", ";", " \n"})...)
				}
				t.Input(src)
				spare := t.Pick([]string{"", "", " ", "\n", " = int\n", "\xa5\xa5\xa5\xa5\xa5\xa5\xa5\xa5\xa5", strings.Repeat("a", 300)})
				if need := len(src) + len(spare); need > cap(buf) {
					buf = make([]byte, need)
				}
				whole := append(append(buf[:0], src...), spare...)
				before := append([]byte{}, whole...)
				if t.P(1, 8) {
					env = environment.NewEnvironment()
				}
				r := resultsOf(whole[:len(src)], env, kind >= 4 && len(all) == 0)
				if !bytes.Equal(whole, before) {
					t.Fail("the source buffer was modified: %s", firstChange(before, whole))
				}
				all = append(all, r)
				over := t.Intn(4)
				for j := range whole {
					switch over {
					case 0:
						whole[j] = 0
					case 1:
						whole[j] = byte(t.Intn(256))
					case 2:
						whole[j] = "zZ9 \n\"=;"[t.Intn(8)]
					default:
						if t.P(1, 4) {
							whole[j] ^= 1
						}
					}
				}
				for n, r := range all {
					if d := r.still(); d != "" {
						t.Fail("source %d of %d, after its buffer was overwritten: %s", n+1, len(all), d)
					}
				}
				last := byte(0)
				if len(src) > 0 {
					last = src[len(src)-1]
				}
				t.Distinct(fmt.Sprint(kind, " ", last, " ", over, " ", len(spare)))
				t.Count("results compared", len(all))
				t.Count("tokens compared", len(r.toks))
				t.Count("names compared", len(r.names))
			}
		})
	}}
