// Generator of well formed schemas
package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Profile selects what a schema is made of
type Profile struct {
	Rules    int
	Depth    int
	MaxKids  int
	NoExt    bool // only = rules
	Sockets  bool
	Ranges   bool
	Controls bool
	Codegen  bool // only what the code generator supports
	BigLits  bool
}

type gen struct {
	r     *Rand
	pf    Profile
	names []string // names that are declared by the schema
	intN  []string // names of integer literal rules
	fltN  []string
	used  map[string]bool
}

var stems = []string{"a", "b", "x", "id", "person", "name", "header", "max-value", "tcp-option", "foo.bar", "_under", "@at", "a1", "camelCase", "UPPER", "x-y-z", "v1.2.3", "intx", "uint8", "text-value", "nullable", "trueish", "float128", "size", "regexp", "int-key", "bool.ean", "key-_", "dot..x", "IDENT", "ILLEGAL", "any-thing", "EOF", "Int", "NULL", "b$c", "end$", "a@b", "x$-1", "@", "_", "a$$b", "int$", "tstr@x", "x.$"}

func (g *gen) freshName() string {
	for {
		n := g.r.Pick(stems)
		switch g.r.Intn(5) {
		case 0:
			n += strconv.Itoa(g.r.Intn(1000))
		case 1:
			n += "-" + g.r.Pick(stems)
		case 2:
			n = fmt.Sprintf("%s_%d", n, g.r.Intn(50))
		case 3:
			if g.r.P(1, 30) {
				n += strings.Repeat("-longer", g.r.Range(5, 60))
			}
		}
		if g.pf.Sockets && g.r.P(1, 12) {
			n = g.r.Pick([]string{"$", "$$"}) + n
		}
		if !g.used[n] && refWords[n] == 0 {
			g.used[n] = true
			return n
		}
	}
}

func leaf(k, s string) *N { return &N{K: k, S: s} }

var texts = []string{"", "a", "text", "with space", "semi;colon", "a=b", "(unbalanced", "]", "\\d+", "[a-z]+@[a-z]+", "é", "日本", "tab\there", "//", "..", "; not a comment", "'", "`", "%d", "\\", "\\n", "0", "x = int", "*/", "~", "#6.1", " ", "trailing ", "\u2028", "\x01", "\x7f", "a\rb", "\xff", "caf\xe9", "\xf0\x9f\x98\x80", "\ufeff", "\ufffd", "$x", "${x}", "<&>", "%s %!d"}

var ints = []string{"0", "1", "2", "7", "9", "10", "42", "100", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "0x0", "0xff", "0xDEADbeef", "0x7fffffffffffffff", "0b0", "0b1011", "0o17", "0o0"}

var floats = []string{"0.0", "0.5", "1.0", "1.5", "3.14159", "100.25", "0.1", "2.50", "123456789.125", "0.000001", "10.0", "16777217.0", "9007199254740993.0", "99999999999999999999.5", "0.30000000000000004", "1.7976931348623157"}

var prims = []string{"bool", "tstr", "text", "float", "float16", "float32", "float64", "uint", "int", "nint", "bstr", "bytes", "null", "nil"}

func (g *gen) intLit() *N {
	if g.r.P(1, 3) {
		return leaf("int", strconv.Itoa(g.r.Intn(1000)))
	}
	return leaf("int", g.r.Pick(ints))
}

func (g *gen) floatLit() *N {
	if g.r.P(1, 3) {
		return leaf("float", fmt.Sprintf("%d.%d", g.r.Intn(1000), g.r.Intn(100)))
	}
	return leaf("float", g.r.Pick(floats))
}

func (g *gen) textLit() *N { return leaf("text", g.r.Pick(texts)) }

func (g *gen) ref() *N {
	if g.pf.Sockets && g.r.P(1, 10) {
		return leaf("ident", g.r.Pick([]string{"$", "$$"})+g.r.Pick(stems))
	}
	if len(g.names) == 0 {
		return leaf("prim", g.r.Pick(prims))
	}
	return leaf("ident", g.names[g.r.Intn(len(g.names))])
}

func (g *gen) atom(depth int) *N {
	w := []int{10, 6, 2, 2, 2, 2, 0, 0, 0, 0}
	if depth > 0 {
		w[6], w[7], w[8], w[9] = 3, 3, 3, 2
	}
	switch g.r.W(w...) {
	case 0:
		return leaf("prim", g.r.Pick(prims))
	case 1:
		return g.ref()
	case 2:
		return leaf("bool", g.r.Pick([]string{"true", "false"}))
	case 3:
		return g.intLit()
	case 4:
		return g.floatLit()
	case 5:
		return g.textLit()
	case 6:
		return g.container("group", depth-1)
	case 7:
		return g.container("array", depth-1)
	case 8:
		return g.container("map", depth-1)
	default:
		return g.tag(depth - 1)
	}
}

func (g *gen) tag(depth int) *N {
	n := &N{K: "tag"}
	switch g.r.Intn(6) {
	case 0: // any tag
	case 1:
		n.S = strconv.Itoa(g.r.Intn(8))
		if g.r.P(1, 3) {
			n.S = g.r.Pick([]string{"0x6", "0x0", "0b110", "0b0", "0x07"})
		}
	default:
		n.S = "6." + g.r.Pick([]string{"0", "1", "2", "10", "24", "32", "999", "55799", "4294967296", "18446744073709551615"})
	}
	if g.r.P(2, 3) && n.S != "" {
		n.Kids = []*N{g.choice(depth)}
	}
	return n
}

func (g *gen) container(k string, depth int) *N {
	n := &N{K: k}
	kids := g.r.Intn(g.pf.MaxKids + 1)
	for i := 0; i < kids; i++ {
		n.Kids = append(n.Kids, g.entry(depth))
	}
	return n
}

// prefixed types
func (g *gen) operand(depth int) *N {
	if g.r.P(1, 10) {
		k := "unwrap"
		s := "~"
		if g.r.P(1, 2) {
			k, s = "enum", "&"
		}
		var item *N
		if g.r.P(1, 2) || depth <= 0 {
			item = g.ref()
		} else {
			item = g.container(g.r.Pick([]string{"group", "array", "map"}), depth-1)
		}
		return &N{K: k, S: s, Kids: []*N{item}}
	}
	return g.atom(depth)
}

func (g *gen) rng() *N {
	op := g.r.Pick([]string{"..", "..."})
	bound := func(lit func() *N, names []string) *N {
		if g.pf.Sockets && g.r.P(1, 12) {
			return leaf("ident", g.r.Pick([]string{"$", "$$"})+g.r.Pick([]string{"lo-bound", "hi-bound", "open-bound", "b-1"}))
		}
		if len(names) > 0 && g.r.P(1, 3) {
			return leaf("ident", names[g.r.Intn(len(names))])
		}
		return lit()
	}
	if g.r.P(1, 2) {
		return &N{K: "range", S: op, Kids: []*N{bound(g.intLit, g.intN), bound(g.intLit, g.intN)}}
	}
	return &N{K: "range", S: op, Kids: []*N{bound(g.floatLit, g.fltN), bound(g.floatLit, g.fltN)}}
}

func (g *gen) ctl(depth int) *N {
	switch g.r.Intn(5) {
	case 0:
		var size *N
		switch g.r.Intn(3) {
		case 0:
			size = g.intLit()
		case 1:
			size = g.ref()
		default:
			if size = g.intLit(); g.pf.Ranges {
				size = &N{K: "group", Kids: []*N{g.rng()}}
			}
		}
		return &N{K: "ctl", S: ".size", Kids: []*N{leaf("prim", g.r.Pick([]string{"uint", "bstr", "bytes", "tstr", "text"})), size}}
	case 1:
		re := g.textLit()
		if g.r.P(1, 4) {
			re = g.ref()
		}
		return &N{K: "ctl", S: ".regexp", Kids: []*N{leaf("prim", g.r.Pick([]string{"tstr", "text"})), re}}
	case 2:
		base := leaf("prim", g.r.Pick([]string{"uint", "bstr", "bytes"}))
		if g.r.P(1, 3) {
			base = g.ref()
		}
		return &N{K: "ctl", S: ".bits", Kids: []*N{base, g.operand(depth - 1)}}
	default:
		op := g.r.Pick([]string{".lt", ".le", ".gt", ".ge", ".eq", ".ne"})
		var limit *N
		switch g.r.Intn(3) {
		case 0:
			limit = g.intLit()
		case 1:
			limit = g.floatLit()
		default:
			limit = g.ref()
		}
		return &N{K: "ctl", S: op, Kids: []*N{leaf("prim", g.r.Pick([]string{"uint", "int", "float", "float16", "float32", "float64"})), limit}}
	}
}

func (g *gen) simple(depth int) *N {
	switch g.r.W(12, 2, 2) {
	case 1:
		if g.pf.Ranges {
			return g.rng()
		}
	case 2:
		if g.pf.Controls {
			return g.ctl(depth)
		}
	}
	return g.operand(depth)
}

func (g *gen) choice(depth int) *N {
	n := g.simple(depth)
	k := 0
	for g.r.P(1, 5) && k < 6 {
		k++
	}
	if k == 0 {
		return n
	}
	// right nested
	parts := []*N{n}
	for i := 0; i < k; i++ {
		parts = append(parts, g.simple(depth))
	}
	out := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		out = &N{K: "choice", S: "/", Kids: []*N{parts[i], out}}
	}
	return out
}

func (g *gen) key() *N {
	if g.r.P(1, 6) {
		return g.intLit()
	}
	if g.r.P(1, 4) && len(g.names) > 0 {
		return leaf("ident", g.names[g.r.Intn(len(g.names))])
	}
	return leaf("ident", g.r.Pick(stems))
}

func (g *gen) member(depth int) *N {
	if g.r.P(3, 5) {
		op, key := ":", g.key()
		if g.r.P(1, 5) {
			// a key before => is a type: a name in its place has to be declared
			op = "=>"
			if key.K == "ident" {
				key = g.ref()
			}
			if key.K != "ident" {
				key = g.intLit()
			}
		}
		return &N{K: "entry", S: op, Kids: []*N{key, g.choice(depth)}}
	}
	return g.choice(depth)
}

func (g *gen) occEntry(depth int) *N {
	switch g.r.W(8, 2, 3) {
	case 1:
		return &N{K: "opt", S: "?", Kids: []*N{g.member(depth)}}
	case 2:
		n := &N{K: "occ", S: g.r.Pick([]string{"*", "*", "+"})}
		if n.S == "*" {
			if g.r.P(1, 2) {
				n.N0 = leaf("int", strconv.Itoa(g.r.Intn(20)))
				if g.r.P(1, 5) {
					n.N0 = g.intLit()
				}
			}
			if g.r.P(1, 2) {
				n.M = leaf("int", strconv.Itoa(g.r.Intn(200)))
				if g.r.P(1, 5) {
					n.M = g.intLit()
				}
			}
		}
		item := g.member(depth)
		for tries := 0; n.M == nil && startsWithInt(item); tries++ {
			item = g.member(depth)
			if tries > 20 {
				item = leaf("prim", "tstr")
			}
		}
		n.Kids = []*N{item}
		return n
	}
	return g.member(depth)
}

func startsWithInt(n *N) bool {
	f := firstTok(n)
	return f != "" && f[0] >= '0' && f[0] <= '9' && RefLex([]byte(f))[0].Tok.String() == "int"
}

func (g *gen) entry(depth int) *N {
	n := g.occEntry(depth)
	k := 0
	for g.r.P(1, 10) && k < 3 {
		k++
	}
	if k == 0 {
		return n
	}
	parts := []*N{n}
	for i := 0; i < k; i++ {
		parts = append(parts, g.occEntry(depth))
	}
	out := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		out = &N{K: "gchoice", S: "//", Kids: []*N{parts[i], out}}
	}
	return out
}

// GenSchema makes a well formed schema: every reference is declared, ranges have bounds of one kind
func GenSchema(r *Rand, pf Profile) *Schema {
	g := &gen{r: r, pf: pf, used: map[string]bool{}}
	s := &Schema{}
	n := r.Range(1, pf.Rules)
	type decl struct {
		name string
		kind int
	}
	var decls []decl
	for i := 0; i < n; i++ {
		d := decl{g.freshName(), g.r.W(8, 2, 2)}
		decls = append(decls, d)
		g.names = append(g.names, d.name)
		if d.name[0] != '$' {
			switch d.kind {
			case 1:
				g.intN = append(g.intN, d.name)
			case 2:
				g.fltN = append(g.fltN, d.name)
			}
		}
	}
	for _, d := range decls {
		rule := &Rule{Name: d.name, Assign: "="}
		switch {
		case d.kind == 1:
			rule.Value = g.intLit()
		case d.kind == 2:
			rule.Value = g.floatLit()
		default:
			rule.Value = g.choice(pf.Depth)
		}
		if !pf.NoExt && d.kind == 0 && r.P(1, 8) {
			rule.Assign = "/="
			if r.P(1, 2) {
				rule.Assign = "//="
				rule.Value = g.container("group", pf.Depth)
			}
		}
		s.Rules = append(s.Rules, rule)
		if !pf.NoExt && d.kind == 0 && r.P(1, 12) {
			// extended as well
			e := &Rule{Name: d.name, Assign: "/=", Value: g.choice(pf.Depth)}
			k := len(s.Rules)
			if r.P(1, 2) { // or ahead of its definition
				k = r.Intn(k)
			}
			s.Rules = append(s.Rules, nil)
			copy(s.Rules[k+1:], s.Rules[k:])
			s.Rules[k] = e
		}
	}
	return s
}

// walkModel calls fn for every node
func walkModel(n *N, fn func(n, parent *N)) { walkModel1(n, nil, fn) }

func walkModel1(n, parent *N, fn func(n, parent *N)) {
	if n == nil {
		return
	}
	fn(n, parent)
	walkModel1(n.N0, n, fn)
	walkModel1(n.M, n, fn)
	for _, k := range n.Kids {
		walkModel1(k, n, fn)
	}
}

// profile picks the size of a schema
func profile(r *Rand) Profile {
	pf := Profile{Rules: 6, Depth: 2, MaxKids: 4, Sockets: true, Ranges: true, Controls: true}
	switch r.Intn(12) {
	case 0:
		pf.Rules, pf.Depth, pf.MaxKids = 60, 1, 3
	case 1:
		pf.Rules, pf.Depth, pf.MaxKids = 2, 6, 2
	case 2:
		pf.Rules, pf.Depth, pf.MaxKids = 3, 1, 40
	case 3, 4, 5:
		pf.Rules, pf.Depth, pf.MaxKids = 1, 3, 4
	}
	return pf
}
