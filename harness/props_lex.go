package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
)

// Property is a monitored property
type Property struct {
	ID          string
	Rule        string
	Level       string
	Shards      int
	Race        bool // needs the race detector
	CLI         bool // needs the command line tool
	Assumptions []string
	Run         func(c *Ctx)
}

func (p *Property) level() string {
	if p.Level == "" {
		return "exploration"
	}
	return p.Level
}

// sources is the workload of the lexer properties
func sources(c *Ctx, fn func(t *T, src []byte)) {
	run := func(t *T, src []byte) {
		t.Input(src)
		t.Count("source bytes", len(src))
		fn(t, src)
	}
	// everything up to three bytes over the alphabet that matters, packed in batches
	alpha := []byte("ax0.=/\"; \n\r\t>-9b_$@é\xff?([{*+<#~&:,!e")
	c.DoN("short", len(alpha), func(t *T, i int) {
		run(t, []byte{alpha[i]})
		for _, b := range alpha {
			run(t, []byte{alpha[i], b})
			for _, d := range alpha {
				run(t, []byte{alpha[i], b, d})
				t.Eval()
			}
		}
	})
	dense := []byte("a0x.=/\";\n \xff")
	c.DoN("dense", len(dense)*len(dense), func(t *T, i int) {
		a, b := dense[i/len(dense)], dense[i%len(dense)]
		for _, x := range dense {
			for _, y := range dense {
				run(t, []byte{a, b, x, y})
				t.Eval()
				if c.Tier == "thorough" {
					for _, z := range dense {
						for _, w := range dense {
							run(t, []byte{a, b, x, y, z, w})
							t.Eval()
						}
					}
				}
			}
		}
	})
	// every single byte and every byte between other tokens
	c.DoN("byte", 256, func(t *T, i int) {
		run(t, []byte{byte(i)})
		run(t, append([]byte{byte(i)}, "a = int"...))
		run(t, []byte{'a', byte(i), 'b'})
		run(t, []byte{'a', ' ', byte(i), ' ', '1', byte(i)})
		run(t, append([]byte("a = \"x"), byte(i), '"', byte(i)))
		run(t, append([]byte("; c"), byte(i), '\n', byte(i)))
	})
	// every character of some blocks, alone and among others
	blocks := [][2]rune{{0x80, 0x600}, {0x1680, 0x1681}, {0x2000, 0x2300}, {0x2500, 0x2600}, {0x2e00, 0x2e60}, {0x3000, 0x3040}, {0xfe00, 0x10000}, {0x1d7c0, 0x1d800}, {0xe0000, 0xe0080}, {0x10fffe, 0x110000}}
	c.DoN("characters", len(blocks), func(t *T, i int) {
		for r := blocks[i][0]; r < blocks[i][1]; r++ {
			ch := string(r)
			for _, s := range []string{ch, "a" + ch + "b = " + ch + "1", "x = " + ch + "int" + ch, ch + "x" + ch + "\n" + ch + "y ; " + ch + " c\n\"" + ch + "\" z", "1" + ch + ".5 0x" + ch + "f ." + ch + "size", "\"a" + ch + "b\" \"" + ch} {
				run(t, []byte(s))
				t.Eval()
			}
		}
	})
	// pairs of fragments
	c.DoN("pair", len(frags), func(t *T, i int) {
		for _, f := range frags {
			run(t, []byte(frags[i]+f))
			run(t, []byte(frags[i]+f+frags[i]))
			t.Eval()
		}
	})
	n := c.N(120000, 3000000)
	c.DoN("soup", n, func(t *T, i int) { run(t, fragSoup(t.Rand, t.Range(1, 1+i%60))) })
	c.DoN("bytes", n, func(t *T, i int) { run(t, randBytes(t.Rand, t.Range(1, 1+i%200))) })
	c.DoN("schema", n/3, func(t *T, i int) {
		s := GenSchema(t.Rand, profile(t.Rand))
		l := layouts[t.Intn(len(layouts))]
		src := Render(Print(s, t.Rand, t.Intn(3)), &l, t.Rand).Src
		run(t, src)
		run(t, mutateBytes(t.Rand, src))
	})
	// tokens of any length that differ in a character only, or not at all
	c.DoN("alike", c.N(3000, 60000), func(t *T, i int) {
		kind, alphabet := i%6, "abcXYZ019"
		if kind == 3 {
			alphabet = "0123456789"
		} else if kind == 4 {
			alphabet = "0123456789abcdefABCDEF"
		}
		n := t.Range(1, 1<<uint(t.Range(1, 11)))
		b := []byte(strings.Repeat(string(alphabet[t.Intn(len(alphabet))]), n))
		if t.P(1, 2) {
			for k := range b {
				b[k] = alphabet[t.Intn(len(alphabet))]
			}
		}
		var src []byte
		for k := t.Range(2, 8); k > 0; k-- {
			v := append([]byte{}, b...)
			v[t.Intn(n)] = alphabet[t.Intn(len(alphabet))]
			src = append(src, []string{"", "\"", ";", "", "0x", "."}[kind]...)
			if kind == 0 {
				src = append(src, 'n')
			}
			src = append(src, v...)
			src = append(src, []string{" ", "\" ", "\n", " ", " ", " "}[kind]...)
		}
		run(t, src)
	})
	big := bigSources(c.Pick(1, 20))
	var names []string
	for k := range big {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		c.Do("big/"+k, func(t *T) { run(t, big[k]) })
	}
}

func shapeOf(toks []RTok) string {
	var sb strings.Builder
	for _, t := range toks {
		fmt.Fprintf(&sb, "%d,", int(t.Tok))
	}
	return sb.String()
}

var propL01 = &Property{ID: "L01",
	Rule:        "sources: all strings up to 3 bytes over 36 interesting bytes, all up to 4 (thorough 6) over 12, fragment pairs, fragment and byte soups, mutated schemas, sources large in one dimension; non-trivial: at least two tokens, counted by distinct token kind sequences",
	Assumptions: []string{"a source whose scan uses more than 20 s of CPU time twice does not terminate"},
	Run: func(c *Ctx) {
		sources(c, func(t *T, src []byte) {
			// spare capacity behind the source belongs to the caller
			spare := 9
			if t.P(1, 20) {
				spare = []int{0, 1, 2, 8, 64, 1000, 5000, 70000}[t.Intn(8)]
			}
			buf := make([]byte, len(src)+spare)
			copy(buf, src)
			for i := len(src); i < len(buf); i++ {
				buf[i] = 0xa5
			}
			before := append([]byte{}, buf...)
			in := buf[:len(src)]
			toks, lex, ok := realLex(in)
			if !ok {
				t.Fail("more than %d tokens for %d bytes", len(src)+1, len(src))
			}
			more := 3
			if t.P(1, 40) {
				more = 2000
			}
			for i := 0; i < more; i++ {
				if tok, _, lit := lex.Scan(); tok != token.EOF || lit != "" {
					t.Fail("scan %d after EOF gives %v %q", i, tok, lit)
				}
			}
			if !bytes.Equal(buf, before) {
				t.Fail("the source buffer was modified: %s", firstChange(before, buf))
			}
			t.Count("tokens", len(toks))
			if len(toks) > 2 && len(toks) < 400 {
				t.Distinct(shapeOf(toks))
			}
			if t.P(1, 500) {
				t.Sample("%.60q: %d tokens, then EOF again", src, len(toks))
			}
		})
	}}

var propL02 = &Property{ID: "L02",
	Rule: "sources as in L01; every token's text is compared with the source at its offset and every gap with whitespace; non-trivial: at least three tokens, counted by distinct token kind sequences",
	Run: func(c *Ctx) {
		sources(c, func(t *T, src []byte) {
			toks, _, ok := realLex(src)
			if !ok {
				t.Fail("no end")
			}
			at := 0
			gap := func(to int) {
				if to < at || to > len(src) {
					t.Fail("token at offset %d, but the source is consumed up to %d of %d", to, at, len(src))
				}
				if strings.Trim(string(src[at:to]), " \t\r\n") != "" {
					t.Fail("source text %q at offset %d is in no token", src[at:to], at)
				}
				at = to
			}
			eat := func(text string) {
				if at+len(text) > len(src) || string(src[at:at+len(text)]) != text {
					t.Fail("token text %q is not the source text at offset %d", text, at)
				}
				at += len(text)
			}
			for i, k := range toks {
				gap(k.Off)
				switch k.Tok {
				case token.EOF:
					if i != len(toks)-1 || k.Off != len(src) && strings.Trim(string(src[k.Off:]), " \t\r\n") != "" {
						t.Fail("EOF at offset %d of %d", k.Off, len(src))
					}
					gap(len(src))
				case token.TEXT_LITERAL:
					eat("\"")
					eat(k.Lit)
					if at < len(src) && src[at] == '"' {
						eat("\"")
					} else if at < len(src) && src[at] != '\n' {
						t.Fail("text literal %q ends at offset %d in the middle of its text", k.Lit, at)
					}
				case token.COMMENT:
					eat(";")
					eat(k.Lit)
				default:
					if k.Lit == "" {
						t.Fail("token %v at offset %d without text", k.Tok, k.Off)
					}
					eat(k.Lit)
				}
				if k.Tok != token.EOF && at == k.Off {
					t.Fail("token %v at offset %d is empty", k.Tok, k.Off)
				}
			}
			t.Count("tokens tiled", len(toks))
			if len(toks) > 3 && len(toks) < 400 {
				t.Distinct(shapeOf(toks))
			}
			if t.P(1, 500) {
				t.Sample("%.60q: %d tokens tile %d bytes", src, len(toks), len(src))
			}
		})
	}}

var propL03 = &Property{ID: "L03",
	Rule: "sources as in L01; every token position and lexical error position is recomputed from the source; non-trivial: distinct (line, column) pairs of tokens",
	Run: func(c *Ctx) {
		sources(c, func(t *T, src []byte) {
			toks, lex, ok := realLex(src)
			if !ok {
				t.Fail("no end")
			}
			ref := RefLex(src)
			if len(ref) != len(toks) {
				// L04 decides about the classification; positions are checked on what is there
				ref = nil
			}
			line, lineStart, at := 1, 0, 0
			for i, k := range toks {
				if k.Off < at || k.Off > len(src) {
					t.Fail("token %d %v %q has offset %d after %d of %d", i, k.Tok, k.Lit, k.Off, at, len(src))
				}
				for ; at < k.Off; at++ {
					if src[at] == '\n' {
						line, lineStart = line+1, at+1
					}
				}
				if k.Line != line || k.Col != k.Off-lineStart+1 {
					t.Fail("token %d %v %q at offset %d has position %d:%d, is at %d:%d", i, k.Tok, k.Lit, k.Off, k.Line, k.Col, line, k.Off-lineStart+1)
				}
				if ref != nil && ref[i].Off != k.Off {
					t.Fail("token %d %v %q has offset %d, is at %d", i, k.Tok, k.Lit, k.Off, ref[i].Off)
				}
				t.Distinct(fmt.Sprint(k.Line, ":", k.Col))
			}
			t.Count("positions checked", len(toks))
			for _, e := range lex.Errors {
				p := e.Pos
				if p.Offset < 0 || p.Offset > len(src) {
					t.Fail("error %q at offset %d of %d", e.Msg, p.Offset, len(src))
				}
				l, col := linecol(src, p.Offset)
				if p.Line != l || p.Column != col {
					t.Fail("error %q at offset %d has position %d:%d, is at %d:%d", e.Msg, p.Offset, p.Line, p.Column, l, col)
				}
				t.Count("error positions checked", 1)
			}
			if t.P(1, 500) && len(toks) > 2 {
				k := toks[len(toks)/2]
				t.Sample("%.60q: token %q at %d:%d offset %d", src, k.Lit, k.Line, k.Col, k.Off)
			}
		})
	}}

var propL04 = &Property{ID: "L04",
	Rule:        "sources as in L01, plus every keyword and control operator with every small change; kinds and texts are compared with the reference lexer; non-trivial: distinct token kind sequences of at least three tokens",
	Assumptions: []string{"harness/reflex.go states CDDL's lexical rules in the dialect the README and tests of the repository document (0o literals, identifiers ending in - or ., raw text literals)"},
	Run: func(c *Ctx) {
		check := func(t *T, src []byte) {
			toks, lex, ok := realLex(src)
			if !ok {
				t.Fail("no end")
			}
			ref := RefLex(src)
			for i := 0; i < len(ref) || i < len(toks); i++ {
				if i >= len(ref) {
					t.Fail("token %d: %v %q, expected nothing", i, toks[i].Tok, toks[i].Lit)
				}
				if i >= len(toks) {
					t.Fail("token %d: nothing, expected %v %q", i, ref[i].Tok, ref[i].Lit)
				}
				if ref[i].Tok != toks[i].Tok || ref[i].Lit != toks[i].Lit {
					t.Fail("token %d: %v %q, expected %v %q", i, toks[i].Tok, toks[i].Lit, ref[i].Tok, ref[i].Lit)
				}
			}
			errs := 0
			for _, k := range ref {
				if k.Err {
					errs++
				}
			}
			if len(lex.Errors) != errs || lex.ErrCount != errs {
				t.Fail("%d unterminated text literals, but %d errors and an error count of %d", errs, len(lex.Errors), lex.ErrCount)
			}
			t.Count("tokens compared", len(toks))
			if len(toks) > 3 && len(toks) < 400 {
				t.Distinct(shapeOf(toks))
			}
			if t.P(1, 500) && len(toks) < 12 {
				var s []string
				for _, k := range toks {
					s = append(s, fmt.Sprintf("%v %q", k.Tok, k.Lit))
				}
				t.Sample("%.60q: %s", src, strings.Join(s, ", "))
			}
		}
		sources(c, check)
		var words []string
		for w := range refWords {
			words = append(words, w)
		}
		for w := range refControls {
			words = append(words, w)
		}
		for i := token.Token(0); i < 120; i++ {
			words = append(words, i.String())
		}
		sort.Strings(words)
		for wi, w := range words {
			c.Do(fmt.Sprintf("word/%d", wi), func(t *T) {
				in := func(s string) {
					t.Input([]byte(s))
					check(t, []byte(s))
					t.Eval()
				}
				for i := 0; i <= len(w); i++ {
					for b := 32; b < 127; b++ {
						in(w[:i] + string(rune(b)) + w[i:])
						if i < len(w) {
							in(w[:i] + string(rune(b)) + w[i+1:])
						}
					}
					in(w[:i])
					if i < len(w) {
						in(w[:i] + w[i+1:])
					}
				}
				for _, f := range frags {
					in(w + f)
					in(f + w)
					in("a = " + w + " " + f)
				}
			})
		}
	}}

var _ = lexer.EOF
