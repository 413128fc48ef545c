package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/token"
)

// A01 -------------------------------------------------------------------------------------------------------

// checkStarts checks the positions of a tree without knowing what it was made from
func checkStarts(t *T, src []byte, cddl *ast.CDDL, toks []RTok) {
	starts := map[int]RTok{}
	for _, k := range toks {
		starts[k.Off] = k
	}
	var rec func(n ast.Node) int
	rec = func(n ast.Node) int {
		p := n.Start()
		_ = n.End()
		k, ok := starts[p.Offset]
		if !ok || k.Tok == token.EOF {
			t.Fail("%T starts at offset %d, where no token starts", n, p.Offset)
		}
		if p.Line != k.Line || p.Column != k.Col {
			t.Fail("%T at offset %d starts at %d:%d, the token there is at %d:%d", n, p.Offset, p.Line, p.Column, k.Line, k.Col)
		}
		switch v := n.(type) {
		case *ast.Comment:
			if k.Tok != token.COMMENT || k.Lit != v.Text {
				t.Fail("comment %q starts at the token %v %q", v.Text, k.Tok, k.Lit)
			}
			t.Count("comments located", 1)
		case *ast.Identifier:
			if !(k.Tok == token.IDENT && k.Lit == v.Name) && k.Tok != token.INT {
				t.Fail("identifier %q starts at the token %v %q", v.Name, k.Tok, k.Lit)
			}
		}
		t.Count("nodes located", 1)
		for _, c := range fieldNodes(n) {
			if o := rec(c); o < p.Offset {
				t.Fail("%T starts at offset %d, behind a %T inside it at %d", n, p.Offset, c, o)
			}
		}
		return p.Offset
	}
	for _, r := range cddl.Rules {
		rec(r)
	}
	_, _ = cddl.Start(), cddl.End()
}

var propA01 = &Property{ID: "A01",
	Rule: "the positions of all nodes and operators of generated schemas in all layouts against the token offsets known to the printer; on any accepted source, that every node starts at a token and not behind a node inside it; non-trivial: distinct (construct, line, column)",
	Run: func(c *Ctx) {
		check := func(t *T, s *Schema, tx *Text) {
			t.Input(tx.Src)
			cddl, errs := parseSrc(tx.Src)
			if len(errs) > 0 {
				t.Count("rejected", 1) // P03 decides
				return
			}
			tx.NoComments = true
			if d := diffRules(ExpectRules(s, tx), DumpRules(cddl, true, false)); d != "" {
				t.Fail("%s", d)
			}
			checkStarts(t, tx.Src, cddl, RefLex(tx.Src))
			for _, n := range allNodes(cddl)[1:] {
				p := n.Start()
				if p.Line < 40 && p.Column < 120 {
					t.Distinct(fmt.Sprintf("%T", n), fmt.Sprint(p.Line, ":", p.Column))
				}
			}
			if t.P(1, 1000) {
				t.Sample("%.150q: %.400s", tx.Src, strings.Join(DumpRules(cddl, true, false), " "))
			}
		}
		c.DoN("schema", c.N(25000, 700000), func(t *T, i int) {
			s, tx := genText(t.Rand)
			check(t, s, tx)
		})
		c.DoN("big", 11, func(t *T, i int) {
			s := bigSchema(t.Rand, i, c.Pick(2, 8))
			l := layouts[t.Intn(len(layouts))]
			check(t, s, Render(Print(s, t.Rand, t.Intn(3)), &l, t.Rand))
		})
		accepted := func(t *T, src []byte) {
			t.Input(src)
			cddl, errs := parseSrc(src)
			if len(errs) == 0 {
				checkStarts(t, src, cddl, RefLex(src))
				t.Count("other accepted sources", 1)
			}
			t.Eval()
		}
		c.DoN("mutants", c.N(25000, 700000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			for k := 0; k < 4; k++ {
				accepted(t, mutateTokens(t.Rand, tx))
			}
		})
		c.DoN("tokens", c.N(30000, 900000), func(t *T, i int) {
			for k := 0; k < 4; k++ {
				accepted(t, tokenSoup(t.Rand, t.Range(1, 2+i%9)))
			}
		})
		// the same schema far from the start
		c.DoN("shifted", c.N(2000, 30000), func(t *T, i int) {
			s, tx := genText(t.Rand)
			_ = s
			pre := t.Pick([]string{"\n", "\r\n", " ", "\t", ";é\n", "\n\n\n"})
			n := t.Range(1, 2000)
			if t.P(1, 60) {
				n = t.Range(2000, 150000)
			}
			pre = strings.Repeat(pre, n)
			a, e1 := parseSrc(tx.Src)
			src := append([]byte(pre), tx.Src...)
			t.Input(src)
			b, e2 := parseSrc(src)
			if len(e1) > 0 || len(e2) > 0 {
				return
			}
			x, y := allNodesPlain(a), allNodesPlain(b)
			if len(x) != len(y) {
				t.Fail("%d nodes, %d when the source is moved by %d bytes", len(x), len(y), len(pre))
			}
			for i := range x {
				p, q := x[i].Start(), y[i].Start()
				l, col := linecol(src, p.Offset+len(pre))
				if q.Offset != p.Offset+len(pre) || q.Line != l || q.Column != col {
					t.Fail("%T starts at %d:%d (%d), expected %d:%d (%d)", y[i], q.Line, q.Column, q.Offset, l, col, p.Offset+len(pre))
				}
			}
			t.Count("sources moved", 1)
		})
	}}

// allNodesPlain lists the nodes below the root apart from comments
func allNodesPlain(c *ast.CDDL) (out []ast.Node) {
	for _, n := range allNodes(c)[1:] {
		switch n.(type) {
		case *ast.Comment, *ast.CommentGroup:
		default:
			out = append(out, n)
		}
	}
	return
}

// A02 -------------------------------------------------------------------------------------------------------

// event is one Visit call: the node (nil at the end of children) and the visitor it was made on
type event struct {
	n ast.Node
	v int
}

// recorder logs the visits. The decision what to return depends on the node only, so that the expected log
// can be computed from the enumeration of the tree.
type recorder struct {
	id  int
	log *walkLog
}

type walkLog struct {
	events []event
	decide func(n ast.Node, v int) int // next visitor, -1 for none
}

func (r recorder) Visit(n ast.Node) astutils.Visitor {
	l := r.log
	l.events = append(l.events, event{n, r.id})
	if n == nil {
		return r
	}
	next := l.decide(n, r.id)
	if next < 0 {
		return nil
	}
	return recorder{next, l}
}

// expectWalk computes the log from the enumeration of the tree
func expectWalk(root ast.Node, order func(ast.Node) []ast.Node, decide func(n ast.Node, v int) int) []event {
	var out []event
	var rec func(n ast.Node, v int)
	rec = func(n ast.Node, v int) {
		out = append(out, event{n, v})
		next := decide(n, v)
		if next < 0 {
			return
		}
		for _, k := range order(n) {
			rec(k, next)
		}
		out = append(out, event{nil, next})
	}
	rec(root, 0)
	return out
}

func describe(e event) string {
	if e.n == nil {
		return fmt.Sprintf("end of children (visitor %d)", e.v)
	}
	return fmt.Sprintf("%T at %d (visitor %d)", e.n, safeStart(e.n), e.v)
}

func safeStart(n ast.Node) (o int) {
	defer func() {
		if recover() != nil {
			o = -1
		}
	}()
	return n.Start().Offset
}

func diffWalk(want, got []event) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(got) {
			return fmt.Sprintf("the walk ends after %d visits, expected %s", i, describe(want[i]))
		}
		if i >= len(want) {
			return fmt.Sprintf("visit %d is %s, expected none", i, describe(got[i]))
		}
		if want[i] != got[i] {
			return fmt.Sprintf("visit %d is %s, expected %s", i, describe(got[i]), describe(want[i]))
		}
	}
	return ""
}

// nodeProtos has a value of every node type
func nodeProtos() []ast.Node {
	return []ast.Node{&ast.Array{}, &ast.BadNode{}, &ast.Bits{}, &ast.BooleanLiteral{}, &ast.BooleanType{}, &ast.BytesType{}, &ast.BstrType{}, &ast.CDDL{}, &ast.Comment{}, &ast.CommentGroup{},
		&ast.ComparatorOpControl{}, &ast.Regexp{}, &ast.SizeOperatorControl{}, &ast.Entry{}, &ast.Enumeration{}, &ast.FloatType{}, &ast.FloatLiteral{}, &ast.Group{}, &ast.GroupChoice{},
		&ast.Identifier{}, &ast.IntegerType{}, &ast.NegativeIntegerType{}, &ast.IntegerLiteral{}, &ast.Map{}, &ast.NullType{}, &ast.Optional{}, &ast.NMOccurrence{}, &ast.Range{}, &ast.Rule{},
		&ast.Tag{}, &ast.TextLiteral{}, &ast.TstrType{}, &ast.TypeChoice{}, &ast.UintLiteral{}, &ast.UintType{}, &ast.Unwrap{}}
}

// randTree builds a tree of any node types, with any fields left out
func randTree(r *Rand, depth int, pos *int) ast.Node {
	ps := nodeProtos()
	for {
		n := reflect.New(reflect.TypeOf(ps[r.Intn(len(ps))]).Elem())
		if depth <= 0 && r.P(3, 4) {
			n = reflect.ValueOf(&ast.Identifier{Name: "leaf"})
		}
		return fillTree(r, n, depth, pos)
	}
}

func fillTree(r *Rand, n reflect.Value, depth int, pos *int) ast.Node {
	s := n.Elem()
	if f := s.FieldByName("Pos"); f.IsValid() {
		*pos++
		f.Set(reflect.ValueOf(token.Position{Offset: *pos, Line: 1, Column: *pos}))
	}
	if f := s.FieldByName("Range"); f.IsValid() {
		*pos++
		f.Set(reflect.ValueOf(token.PositionRange{Start: token.Position{Offset: *pos, Line: 1, Column: *pos}}))
	}
	var made []reflect.Value
	child := func(typ reflect.Type) (c reflect.Value) {
		if len(made) > 0 && r.P(1, 12) { // the same node twice
			if c := made[r.Intn(len(made))]; c.Type().AssignableTo(typ) {
				return c
			}
		}
		defer func() {
			if c.IsValid() && !c.IsNil() {
				made = append(made, c)
			}
		}()
		for tries := 0; tries < 200; tries++ {
			var x ast.Node
			if typ.Kind() == reflect.Ptr {
				x = fillTree(r, reflect.New(typ.Elem()), depth-1, pos)
			} else {
				ps := nodeProtos()
				x = ps[r.Intn(len(ps))]
				if !reflect.TypeOf(x).Implements(typ) {
					continue
				}
				x = fillTree(r, reflect.New(reflect.TypeOf(x).Elem()), depth-1, pos)
			}
			return reflect.ValueOf(x)
		}
		return reflect.Zero(typ)
	}
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		switch {
		case f.Kind() == reflect.Slice && f.Type().Elem().Implements(nodeType):
			if depth > 0 {
				for k := r.Intn(4); k > 0; k-- {
					if c := child(f.Type().Elem()); c.IsValid() && !(c.Kind() == reflect.Interface && c.IsNil()) {
						f.Set(reflect.Append(f, c))
					}
				}
			}
		case (f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface) && f.Type().Implements(nodeType):
			if depth > 0 && r.P(4, 5) {
				if c := child(f.Type()); c.IsValid() {
					f.Set(c)
				}
			}
		}
	}
	return n.Interface().(ast.Node)
}

// orderOf lists the nodes inside a node in source order. For accepted sources this is decided by the positions; other
// nodes are in the order of the grammar, which the table gives where the order of the fields is another one.
func orderOf(n ast.Node) []ast.Node {
	switch v := n.(type) {
	case *ast.SizeOperatorControl:
		var out []ast.Node
		if v.Type != nil {
			out = append(out, v.Type)
		}
		if v.Size != nil {
			out = append(out, v.Size)
		}
		return out
	}
	return fieldNodes(n)
}

var propA02 = &Property{ID: "A02",
	Rule:        "walks over the trees of accepted and rejected sources and over trees built from all node types with any fields left out, with visitors that continue, prune and switch at arbitrary nodes; the log of all Visit calls is compared with the enumeration of the tree by reflection; non-trivial: distinct logs of (node type, visitor)",
	Assumptions: []string{"the children of a node are the nodes in its exported fields"},
	Run: func(c *Ctx) {
		walk := func(t *T, root ast.Node, order func(ast.Node) []ast.Node) {
			mode := t.Intn(4)
			salt := t.Uint64()
			num := map[ast.Node]uint64{}
			decide := func(n ast.Node, v int) int {
				k, ok := num[n]
				if !ok {
					k = uint64(len(num))
					num[n] = k
				}
				h := (k+1)*0x9E3779B97F4A7C15 ^ salt
				h ^= h >> 29
				h *= 0xBF58476D1CE4E5B9
				h ^= h >> 32
				switch mode {
				case 1: // prune
					if h%7 == 0 {
						return -1
					}
				case 2: // switch
					return int(h % 5)
				case 3:
					if h%5 == 0 {
						return -1
					}
					return v + int(h%3)
				}
				return v
			}
			want := expectWalk(root, order, decide)
			l := &walkLog{decide: decide}
			astutils.Walk(recorder{0, l}, root)
			if d := diffWalk(want, l.events); d != "" {
				t.Fail("visitor mode %d: %s", mode, d)
			}
			var sb strings.Builder
			for i, e := range l.events {
				if i == 40 {
					break
				}
				fmt.Fprintf(&sb, "%T %d,", e.n, e.v)
			}
			t.Distinct(sb.String())
			t.Count("visits observed", len(l.events))
			t.Count("walks", 1)
		}
		c.DoN("schema", c.N(12000, 400000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			t.Input(tx.Src)
			cddl, errs := parseSrc(tx.Src)
			if len(errs) > 0 {
				return
			}
			for k := 0; k < 3; k++ {
				walk(t, cddl, kids)
				t.Eval()
			}
			if t.P(1, 1500) {
				t.Sample("%.150q: %d nodes", tx.Src, len(allNodes(cddl)))
			}
		})
		anySource := func(t *T, src []byte) {
			t.Input(src)
			cddl, errs := parseSrc(src)
			if len(errs) > 0 {
				t.Count("trees of rejected sources", 1)
			}
			walk(t, cddl, orderOf)
			t.Eval()
		}
		c.DoN("mutants", c.N(20000, 600000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			anySource(t, mutateTokens(t.Rand, tx))
			anySource(t, mutateBytes(t.Rand, tx.Src))
		})
		c.DoN("tokens", c.N(40000, 900000), func(t *T, i int) {
			anySource(t, tokenSoup(t.Rand, t.Range(1, 2+i%30)))
		})
		c.Do("every type", func(t *T) {
			for _, n := range nodeProtos() {
				walk(t, n, orderOf)
				t.Eval()
			}
			walk(t, &ast.BadNode{Base: &ast.Identifier{}}, orderOf)
		})
		c.DoN("built", c.N(40000, 900000), func(t *T, i int) {
			pos := 0
			n := randTree(t.Rand, t.Range(1, 5), &pos)
			t.Input([]byte(deepDump(n)))
			walk(t, n, orderOf)
			_ = astutils.Format(n)
		})
		// every node below the root, as the root of a walk
		c.DoN("subtrees", c.N(1000, 20000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			t.Input(tx.Src)
			cddl, errs := parseSrc(tx.Src)
			if len(errs) > 0 {
				return
			}
			for _, n := range allNodes(cddl) {
				walk(t, n, kids)
				t.Eval()
			}
		})
		for _, n := range []int{1000, c.Pick(20000, 100000)} {
			src := deepSources(n)
			var names []string
			for k := range src {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				c.Do(fmt.Sprintf("deep/%d/%s", n, k), func(t *T) { anySource(t, []byte(src[k])) })
			}
		}
	}}

// A03 -------------------------------------------------------------------------------------------------------

func squeeze(s string) string {
	return strings.Join(strings.Fields(s), "")
}

var propA03 = &Property{ID: "A03",
	Rule:        "every node of the trees of accepted and rejected sources and of trees built from all node types: formatted twice, compared before and after, and searched for names, values, positions and the texts of operands; non-trivial: distinct formatted texts",
	Assumptions: []string{"the value of a float literal is shown in a notation that reads back as the same value", "the indentation of an operand within its parent is not part of its text"},
	Run: func(c *Ctx) {
		check := func(t *T, root ast.Node) {
			before := deepDump(root)
			nodes := allNodes0(root)
			out := make([]string, len(nodes))
			index := map[ast.Node]string{}
			for i, n := range nodes {
				out[i] = astutils.Format(n)
				index[n] = out[i]
			}
			if after := deepDump(root); after != before {
				t.Fail("formatting modifies the tree: before %.600s after %.600s", before, after)
			}
			contains := func(n ast.Node, s string, parts ...string) {
				rest := s
				for _, p := range parts {
					k := strings.Index(rest, p)
					if k < 0 {
						t.Fail("%T is formatted as %q, which lacks %q", n, s, p)
					}
					rest = rest[k+len(p):]
				}
			}
			operands := func(n ast.Node, s string, ops ...ast.Node) {
				var parts []string
				for _, o := range ops {
					if o != nil {
						parts = append(parts, squeeze(index[o]))
					}
				}
				contains(n, squeeze(s), parts...)
				t.Count("operands found", len(parts))
			}
			position := func(n ast.Node, s string, p token.Position) {
				if !hasPair(s, "Line", p.Line) || !hasPair(s, "Column", p.Column) {
					t.Fail("%T is formatted as %q, which lacks line %d or column %d", n, s, p.Line, p.Column)
				}
				t.Count("positions found", 1)
			}
			for i, n := range nodes {
				s := out[i]
				if s == "" {
					t.Fail("%T is formatted as nothing", n)
				}
				if strings.Contains(s, "%!") && !strings.Contains(before, "%!") {
					t.Fail("%T is formatted as %q with a failed conversion", n, s)
				}
				if again := astutils.Format(n); again != s {
					t.Fail("%T is formatted as %q, then as %q", n, s, again)
				}
				switch v := n.(type) {
				case *ast.Identifier:
					contains(n, s, "'"+v.Name+"'")
					position(n, strings.Replace(s, v.Name, "", 1), v.Pos)
				case *ast.IntegerLiteral:
					contains(n, s, "'"+strconv.FormatInt(v.Literal, 10)+"'")
					position(n, s, v.Start())
				case *ast.FloatLiteral:
					if !hasFloat(s, v.Literal) {
						t.Fail("%T is formatted as %q, its value is %v", n, s, v.Literal)
					}
					position(n, s, v.Start())
				case *ast.TypeChoice:
					operands(n, s, v.First, v.Second)
				case *ast.Enumeration:
					operands(n, s, v.Value)
				}
				if len(s) < 4000 {
					t.Distinct(s)
				}
			}
			t.Count("nodes formatted", len(nodes))
			if t.P(1, 2000) && len(nodes) > 1 {
				i := t.Intn(len(nodes))
				t.Sample("%T: %q", nodes[i], out[i])
			}
		}
		anySource := func(t *T, src []byte) {
			t.Input(src)
			cddl, _ := parseSrc(src)
			check(t, cddl)
			t.Eval()
		}
		c.DoN("schema", c.N(12000, 400000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			anySource(t, tx.Src)
		})
		c.DoN("mutants", c.N(20000, 600000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			anySource(t, mutateTokens(t.Rand, tx))
			anySource(t, mutateBytes(t.Rand, tx.Src))
		})
		c.DoN("tokens", c.N(40000, 900000), func(t *T, i int) {
			anySource(t, tokenSoup(t.Rand, t.Range(1, 2+i%30)))
		})
		c.DoN("built", c.N(30000, 900000), func(t *T, i int) {
			pos := 0
			n := randTree(t.Rand, t.Range(1, 4), &pos)
			t.Input([]byte(deepDump(n)))
			check(t, n)
		})
		c.DoN("literals", c.N(20000, 400000), func(t *T, i int) {
			pos := token.Position{Offset: t.Intn(1 << 30), Line: t.Intn(1 << 20), Column: t.Intn(1 << 20)}
			mk := func() ast.Node {
				switch t.Intn(3) {
				case 0:
					return &ast.IntegerLiteral{Pos: pos, Literal: int64(t.Uint64() >> uint(t.Intn(64)))}
				case 1:
					return &ast.FloatLiteral{Range: token.PositionRange{Start: pos}, Literal: []float64{float64(t.Uint64()>>uint(t.Intn(64))) / 1024, float64(t.Uint64()) / math.Pow(10, float64(t.Intn(40))), float64(t.Intn(10)), 1e-7, math.SmallestNonzeroFloat64, math.MaxFloat64}[t.Intn(6)]}
				}
				return &ast.Identifier{Pos: pos, Name: t.Pick(stems) + "-%d%s" + strconv.Itoa(t.Intn(100))}
			}
			var n ast.Node = mk()
			depth := t.Intn(5)
			if i%400 == 0 { // long chains
				depth = t.Range(5, c.Pick(150, 400))
			}
			for k := depth; k > 0; k-- {
				if t.P(1, 3) {
					n = &ast.Enumeration{Pos: pos, Value: n}
				} else if t.P(1, 2) {
					n = &ast.TypeChoice{Pos: pos, Token: token.TYPE_CHOICE, First: n, Second: mk()}
				} else {
					n = &ast.TypeChoice{Pos: pos, Token: token.TYPE_CHOICE, First: mk(), Second: n}
				}
			}
			t.Input([]byte(deepDump(n)))
			check(t, n)
		})
	}}

// allNodes0 lists a tree that may lack parts, in field order
func allNodes0(n ast.Node) []ast.Node {
	out := []ast.Node{n}
	for _, k := range fieldNodes(n) {
		out = append(out, allNodes0(k)...)
	}
	return out
}

// hasPair tells whether a text has "Name: value"
func hasPair(s, name string, v int) bool {
	want := fmt.Sprint(v)
	for {
		k := strings.Index(s, name)
		if k < 0 {
			return false
		}
		s = s[k+len(name):]
		r := strings.TrimLeft(s, ": =")
		if strings.HasPrefix(r, want) && !(len(r) > len(want) && r[len(want)] >= '0' && r[len(want)] <= '9') {
			return true
		}
	}
}

// hasFloat tells whether a text has a number that is the value up to the precision of its display
func hasFloat(s string, v float64) bool {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return !(r >= '0' && r <= '9' || r == '.' || r == '-' || r == '+' || r == 'e') }) {
		x, err := strconv.ParseFloat(f, 64)
		if err == nil && strings.ContainsAny(f, ".e") && x == v {
			return true
		}
	}
	return false
}

// E01 -------------------------------------------------------------------------------------------------------

var propE01 = &Property{ID: "E01",
	Rule: "random histories of Add, Exists and Get over several environments and overlapping name sets, all names compared with a model map at the end; non-trivial: distinct (operation, known or not, environment, name kind) sequences",
	Run: func(c *Ctx) {
		history := func(t *T, ops, envs, names int) {
			es := make([]*environment.Environment, envs)
			ms := make([]map[string]ast.Node, envs)
			for i := range es {
				es[i] = environment.NewEnvironment()
				ms[i] = map[string]ast.Node{}
			}
			var pool []string
			for i := 0; i < names; i++ {
				switch t.Intn(8) {
				case 7: // long names that differ at their end only
					l := 1 << uint(t.Intn(15))
					if names > 50 && !t.P(1, 20) {
						l = t.Intn(100)
					}
					p := strings.Repeat(t.Pick(stems), 1+l/4)
					pool = append(pool, p, p+"x", p+strconv.Itoa(t.Intn(9)), p[:len(p)-1])
				case 0:
					pool = append(pool, string(randText(t.Rand)))
				case 1:
					pool = append(pool, string(randBytes(t.Rand, t.Intn(8))))
				case 2:
					pool = append(pool, "")
				case 3:
					if len(pool) > 0 { // variations of a known name
						p := pool[t.Intn(len(pool))]
						pool = append(pool, strings.ToUpper(p), p+" ", strings.TrimSpace(p), strings.Title(p), p+"\x00")
					}
				default:
					pool = append(pool, t.Pick(stems)+strconv.Itoa(t.Intn(10)))
				}
			}
			if names > 3 && t.P(1, 4) {
				for k := t.Range(1, 8); k > 0; k-- {
					p := confused[t.Intn(len(confused))]
					pool = append(pool, p[0], p[1])
				}
			}
			if len(pool) == 0 {
				pool = []string{"a"}
			}
			val := func() ast.Node {
				if t.P(1, 10) {
					return nil
				}
				return &ast.Identifier{Name: strconv.Itoa(t.Intn(1000))}
			}
			trace := ""
			for k := 0; k < ops; k++ {
				i := t.Intn(envs)
				e, m := es[i], ms[i]
				n := pool[t.Intn(len(pool))]
				have, known := m[n]
				op := t.Intn(4)
				switch op {
				case 0, 3:
					if op == 3 && t.P(1, 2) {
						op = 0
						n = pool[t.Intn(len(pool))]
						have, known = m[n]
					}
					v := val()
					err := e.Add(n, v)
					if known {
						if !errors.Is(err, environment.ErrSymbolExists) {
							t.Fail("operation %d: adding %q again gives %v", k, n, err)
						}
					} else {
						if err != nil {
							t.Fail("operation %d: adding %q for the first time gives %v", k, n, err)
						}
						m[n] = v
						have = v
					}
					if g := e.Get(n); g != have {
						t.Fail("operation %d: after adding %q it is %v, expected %v", k, n, g, have)
					}
				case 1:
					if e.Exists(n) != known {
						t.Fail("operation %d: Exists(%q) is %v", k, n, !known)
					}
				case 2:
					if g := e.Get(n); g != have {
						t.Fail("operation %d: Get(%q) is %v, expected %v", k, n, g, have)
					}
				}
				if k < 24 {
					trace += fmt.Sprint(op, known, i, len(n) == 0, ";")
				}
				t.Count("operations", 1)
			}
			for i := range es {
				for _, n := range pool {
					want, known := ms[i][n]
					if es[i].Exists(n) != known || es[i].Get(n) != want {
						t.Fail("at the end environment %d has %q: %v %v, expected %v %v", i, n, es[i].Exists(n), es[i].Get(n), known, want)
					}
					if !known && es[i].Exists(n) {
						t.Fail("looking up created %q", n)
					}
				}
			}
			t.Distinct(trace)
			if t.P(1, 1500) {
				t.Sample("%d operations on %d environments with %d names: %s", ops, envs, len(pool), trace)
			}
		}
		c.DoN("history", c.N(20000, 500000), func(t *T, i int) { history(t, t.Range(1, 120), t.Range(1, 4), t.Range(1, 12)) })
		c.DoN("many names", c.N(200, 3000), func(t *T, i int) { history(t, 6000, 2, 2500) })
		c.DoN("very many names", c.Pick(2, 12), func(t *T, i int) { history(t, 400000, 1+i%2, 60000) })
		c.DoN("few names", c.N(500, 10000), func(t *T, i int) { history(t, 800, 3, 2) })
	}}
