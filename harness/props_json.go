// A05: the exported form of a tree has all of it
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"
)

// jsonGap is where a decoded JSON value lacks something of a Go value, or ""
func jsonGap(path string, v reflect.Value, j any, n *int) string {
	*n++
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			if j != nil {
				return fmt.Sprintf("%s is absent and exported as %.200v", path, j)
			}
			return ""
		}
		return jsonGap(path, v.Elem(), j, n)
	case reflect.Slice, reflect.Array:
		l, ok := j.([]any)
		if !ok && !(j == nil && v.Len() == 0) {
			return fmt.Sprintf("%s has %d elements and is exported as %.200v", path, v.Len(), j)
		}
		if len(l) != v.Len() {
			return fmt.Sprintf("%s has %d elements, %d are exported", path, v.Len(), len(l))
		}
		for i := range l {
			if g := jsonGap(path+"["+strconv.Itoa(i)+"]", v.Index(i), l[i], n); g != "" {
				return g
			}
		}
		return ""
	case reflect.Struct:
		m, ok := j.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s, a %s, is exported as %.200v", path, v.Type(), j)
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			if f.Anonymous && f.Type.Kind() == reflect.Struct { // its members are the outer value's
				if g := jsonGap(path, v.Field(i), j, n); g != "" {
					return g
				}
				continue
			}
			x, ok := m[f.Name]
			for k, y := range m {
				if ok {
					break
				}
				if strings.EqualFold(k, f.Name) {
					x, ok = y, true
				}
			}
			if !ok {
				if v.Field(i).IsZero() {
					continue
				}
				return fmt.Sprintf("%s.%s (%.200v) is not exported", path, f.Name, v.Field(i))
			}
			if g := jsonGap(path+"."+f.Name, v.Field(i), x, n); g != "" {
				return g
			}
		}
		return ""
	case reflect.String:
		if s, ok := j.(string); !ok || s != string([]rune(v.String())) {
			return fmt.Sprintf("%s is %q and exported as %.400q", path, v.String(), fmt.Sprint(j))
		}
		return ""
	case reflect.Bool:
		if b, ok := j.(bool); !ok || b != v.Bool() {
			return fmt.Sprintf("%s is %v and exported as %.200v", path, v.Bool(), j)
		}
		return ""
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if x, ok := j.(json.Number); !ok || x.String() != strconv.FormatInt(v.Int(), 10) {
			return fmt.Sprintf("%s is %d and exported as %.200v", path, v.Int(), j)
		}
		return ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if x, ok := j.(json.Number); !ok || x.String() != strconv.FormatUint(v.Uint(), 10) {
			return fmt.Sprintf("%s is %d and exported as %.200v", path, v.Uint(), j)
		}
		return ""
	case reflect.Float32, reflect.Float64:
		x, ok := j.(json.Number)
		if ok {
			f, err := strconv.ParseFloat(x.String(), 64)
			ok = err == nil && math.Float64bits(f) == math.Float64bits(v.Float())
		}
		if !ok {
			return fmt.Sprintf("%s is %v and exported as %.200v", path, v.Float(), j)
		}
		return ""
	}
	*n--
	return "" // not part of a tree today
}

func depth(n ast.Node) int {
	d := 0
	for _, k := range fieldNodes(n) {
		d = max(d, depth(k))
	}
	return d + 1
}

// exportable tells whether JSON has a notation for everything in a tree
func exportable(n ast.Node) bool {
	for _, k := range allNodes0(n) {
		if f, ok := k.(*ast.FloatLiteral); ok && (math.IsNaN(f.Literal) || math.IsInf(f.Literal, 0)) {
			return false
		}
	}
	return true
}

var propA05 = &Property{ID: "A05", CLI: true,
	Rule:        "the JSON form of the trees of accepted, damaged and nested sources and of trees built from all node types, compact and indented as `parse` writes it, decoded again and compared with the tree field by field; non-trivial: distinct JSON texts",
	Assumptions: []string{"a member is found by the name of the field, in any case; a member that is left out stands for the zero value", "bytes that are not UTF-8 are exported as U+FFFD, which is all that JSON has for them", "the JSON form has no node kinds: a map and an array of the same entries look the same (a limit of the format, not judged)"},
	Run: func(c *Ctx) {
		// whole compares an exported tree with the tree
		whole := func(t *T, root ast.Node, b []byte) int {
			d := json.NewDecoder(bytes.NewReader(b))
			d.UseNumber()
			var j any
			if err := d.Decode(&j); err != nil {
				t.Fail("the JSON form is no JSON: %v", err)
			}
			n := 0
			if g := jsonGap("tree", reflect.ValueOf(root), j, &n); g != "" {
				t.Fail("%s; tree %.1500s", g, deepDump(root))
			}
			return n
		}
		one := func(t *T, root ast.Node) {
			if !exportable(root) {
				return
			}
			before := deepDump(root)
			compact, err := json.Marshal(root)
			if err != nil {
				t.Fail("the tree has no JSON form: %v", err)
			}
			b := compact
			if depth(root) < 500 { // the indented form of a deep tree is mostly indentation
				b, err = json.MarshalIndent(root, "", "\t")
				if err != nil {
					t.Fail("the tree has no indented JSON form: %v", err)
				}
			}
			if after := deepDump(root); after != before {
				t.Fail("exporting modifies the tree: before %.600s after %.600s", before, after)
			}
			var sq bytes.Buffer
			if err := json.Compact(&sq, b); err != nil || !bytes.Equal(sq.Bytes(), compact) {
				t.Fail("the indented form %.600s is not the compact form %.600s (%v)", b, compact, err)
			}
			n := whole(t, root, b)
			t.Count("values compared", n)
			t.Count("bytes of JSON", len(compact))
			t.Eval()
			if len(compact) < 4000 {
				t.Distinct(string(compact))
			}
			if t.P(1, 2000) && len(compact) < 600 {
				t.Sample("%s", compact)
			}
		}
		anySource := func(t *T, src []byte) {
			t.Input(src)
			cddl, _ := parseSrc(src)
			one(t, cddl)
		}
		c.DoN("schema", c.N(6000, 200000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			anySource(t, tx.Src)
		})
		c.DoN("mutants", c.N(6000, 200000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			anySource(t, mutateTokens(t.Rand, tx))
			anySource(t, mutateBytes(t.Rand, tx.Src))
		})
		c.DoN("tokens", c.N(12000, 300000), func(t *T, i int) {
			anySource(t, tokenSoup(t.Rand, t.Range(1, 2+i%30)))
		})
		c.DoN("built", c.N(12000, 400000), func(t *T, i int) {
			pos := 0
			n := randTree(t.Rand, t.Range(1, 4), &pos)
			t.Input([]byte(deepDump(n)))
			one(t, n)
		})
		c.DoN("command", c.N(200, 4000), func(t *T, i int) {
			src := cliSource(t, i)
			if i%4 == 1 { // what is written looks like the notation it is exported in
				esc := func() string {
					s := ""
					for k := t.Intn(4); k >= 0; k-- {
						s += t.Pick([]string{`\u003c`, `\u0026`, `\u2028`, `\n`, `\\`, `\ud83d`, `<b>`, `&amp;`, `{"Pos":null}`, `,`, `[]`, `null`, "\t", "é", "\xff", `%!s(MISSING)`, `%d`, "\u2028", "\x7f"})
					}
					return s
				}
				src = []byte(fmt.Sprintf("; %s\na = int ; %s\nb = \"%s\"\nc = {x: \"%s\" / '%s'} ;%s\n", esc(), esc(), strings.ReplaceAll(esc(), `"`, "'"), strings.ReplaceAll(esc(), `"`, ""), esc(), esc()))
			}
			cddl, _ := parseSrc(src)
			if _, err := json.Marshal(cddl); err != nil {
				return
			}
			t.Input(src)
			dir := t.scratch()
			defer os.RemoveAll(dir)
			writeFiles(t, dir, map[string]string{"s.cddl": string(src)})
			r := runIn(t, dir, []string{"parse", "s.cddl"}, cliOpts{})
			if r.crashed() {
				t.Fail("parse crashes: %s", r.stderr)
			}
			n := whole(t, cddl, []byte(r.stdout))
			t.Count("values printed by the command", n)
			t.Eval()
		})
		// every value a literal or a position can have
		c.DoN("values", c.N(12000, 300000), func(t *T, i int) {
			num := func() int { return int(t.Uint64() >> uint(t.Intn(64))) }
			at := func() token.Position {
				p := token.Position{Offset: num(), Line: num(), Column: num()}
				if t.P(1, 2) {
					p.Filename = t.Pick(stems) + []string{"", ".cddl", "/ü", "\"\\", "<&>", "\u2028"}[t.Intn(6)]
				}
				return p
			}
			r := token.PositionRange{Start: at(), End: at()}
			text := t.Pick(stems) + []string{"", "\"", "\\", "\n\t\x01", "<>&", "\u2028\u2029", "é", "\xff\xfe", "\U0001F600", "\x00", "null"}[t.Intn(11)] + t.Pick(stems)
			var n ast.Node
			switch t.Intn(6) {
			case 0:
				n = &ast.IntegerLiteral{Pos: at(), Literal: int64(num())}
			case 1:
				n = &ast.FloatLiteral{Range: r, Literal: math.Float64frombits(t.Uint64())}
			case 2:
				n = &ast.TextLiteral{Pos: at(), Literal: text}
			case 3:
				n = &ast.Identifier{Pos: at(), Name: text}
			case 4:
				n = &ast.BooleanLiteral{Range: r, Bool: t.P(1, 2)}
			case 5:
				n = &ast.Comment{Pos: at(), Text: text}
			}
			if t.P(1, 2) {
				if _, comment := n.(*ast.Comment); !comment {
					n = &ast.Entry{Pos: at(), Name: &ast.Identifier{Pos: at(), Name: text}, Value: n, TrailingComment: &ast.Comment{Pos: at(), Text: text}}
				}
			}
			t.Input([]byte(deepDump(n)))
			one(t, n)
		})
		for _, k := range []int{10, 100, 1000, 3000} {
			for _, s := range []struct{ name, open, in, close string }{{"maps", "{ a: ", "int", " }"}, {"arrays", "[ ", "int", " ]"}, {"groups", "( a: ", "int", " )"}, {"choices", "int / ", "tstr", ""}, {"tags", "#6.7(", "int", ")"}} {
				c.Do(fmt.Sprintf("deep/%s/%d", s.name, k), func(t *T) {
					anySource(t, []byte("a = "+strings.Repeat(s.open, k)+s.in+strings.Repeat(s.close, k)+"\n"))
				})
			}
		}
		c.DoN("long", c.N(30, 400), func(t *T, i int) {
			var sb strings.Builder
			for k := 0; k < 1500; k++ {
				_, tx := genText(t.Rand)
				sb.Write(tx.Src)
				if sb.Len() > 200000 {
					break
				}
			}
			anySource(t, []byte(sb.String()))
		})
	}}
