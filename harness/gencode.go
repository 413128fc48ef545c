// Schemas for the code generator: the supported subset, with the Go declarations they must become
package main

import (
	"fmt"
	"strconv"
	"strings"
)

// CG is a rule of a schema for code generation
type CG struct {
	Name    string // in the schema
	Go      string // in Go
	Value   *N
	Type    string // canonical Go type, for type rules
	Lit     *N     // for literal rules
	Exposed bool   // can be embedded: a named struct
}

type CGSchema struct {
	Rules  []CG
	Schema *Schema
	Shapes []string
}

// camel is the naming rule: letters behind the start, a separator or a digit are capitals, separators go
func camel(s string) string {
	if s == "ID" { // the converter's one built-in acronym
		return "Id"
	}
	var sb strings.Builder
	up, prevCap := true, false
	for _, c := range []byte(s) {
		low, cap := c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z'
		switch {
		case low || cap:
			o := c
			if up && low {
				o -= 'a' - 'A'
			} else if !up && cap && prevCap {
				o += 'a' - 'A'
			}
			sb.WriteByte(o)
			up = false
		case c >= '0' && c <= '9':
			sb.WriteByte(c)
			up = true
		default:
			up = c == '_' || c == '-' || c == '.'
		}
		prevCap = cap
	}
	return sb.String()
}

func exported(g string) bool { return g != "" && g[0] >= 'A' && g[0] <= 'Z' }

var goPrim = map[string]string{
	"bool": "bool", "tstr": "string", "text": "string", "float": "float64", "float16": "float32", "float32": "float32", "float64": "float64",
	"uint": "uint", "int": "int", "nint": "int", "bstr": "[]byte", "bytes": "[]byte", "null": "struct{}", "nil": "struct{}",
}

var goLit = map[string]string{"int": "int", "float": "float64", "text": "string", "bool": "bool"}

var cgStems = []string{"a", "b", "x", "id", "ID", "person", "name", "header", "max-value", "tcp-option", "foo.bar", "_under", "a1", "camelCase", "UPPER", "x-y-z", "v1.2.3", "intx", "uint8", "string",
	"error", "type", "func", "nil-able", "self", "valid", "Valid", "_valid", "valid-_", "__valid", "valid._", "validators", "range", "len", "main", "init", "struct", "fmt", "byte", "any-thing", "x509cert", "a-b_c.d", "float128", "go", "interface",
	"iface.type", "key-_", "dot._", "under_", "T", "nullable", "trueish", "map", "cbor", "toarray", "Bool", "var"}

type cgGen struct {
	r     *Rand
	rules []CG
	used  map[string]bool // Go names
	pend  []string        // names that are declared later, with their types
	all   []string        // names so far
	embed bool
}

func (g *cgGen) name(used map[string]bool) (string, string) {
	for {
		n := g.r.Pick(cgStems)
		if len(g.all) > 0 && g.r.P(1, 6) { // near another one: a letter in the other case, or without a separator
			b := []byte(g.all[g.r.Intn(len(g.all))])
			k := g.r.Intn(len(b))
			switch {
			case b[k] >= 'a' && b[k] <= 'z' || b[k] >= 'A' && b[k] <= 'Z':
				b[k] ^= 0x20
			case k > 0 && k < len(b)-1 && (b[k] == '-' || b[k] == '_' || b[k] == '.'):
				b = append(b[:k:k], b[k+1:]...)
			}
			n = string(b)
		}
		switch g.r.Intn(4) {
		case 0:
			n += strconv.Itoa(g.r.Intn(1000))
		case 1:
			n += g.r.Pick([]string{"-", "_", ".", "--", "_."}) + g.r.Pick(cgStems)
		case 2:
			n = g.r.Pick([]string{"", "_"}) + n + fmt.Sprintf("-%d", g.r.Intn(99))
		}
		c := camel(n)
		if refWords[n] != 0 || !exported(c) || used[c] || used[c+"_"] && c == "Valid" {
			continue
		}
		used[c] = true
		if len(g.all) < 64 {
			g.all = append(g.all, n)
		}
		return n, c
	}
}

func (g *cgGen) lit() *N {
	switch g.r.Intn(4) {
	case 0:
		if g.r.P(1, 2) {
			return leaf("int", strconv.FormatUint(g.r.Uint64()>>uint(g.r.Range(1, 63)), 10))
		}
		return leaf("int", g.r.Pick(ints))
	case 1:
		if g.r.P(1, 2) {
			if g.r.P(1, 3) { // very small, or very large
				return leaf("float", g.r.Pick([]string{"0." + strings.Repeat("0", g.r.Range(1, 320)) + strconv.Itoa(g.r.Range(1, 99999999)), strconv.Itoa(g.r.Range(1, 99999)) + strings.Repeat("0", g.r.Range(1, 300)) + ".0", "0." + strings.Repeat(strconv.Itoa(g.r.Intn(10)), g.r.Range(1, 60)), strings.Repeat("0", g.r.Range(0, 3)) + "1." + strings.Repeat("0", g.r.Range(0, 60)) + "1"}))
			}
			return leaf("float", fmt.Sprintf("%d.%d", g.r.Uint64()>>uint(g.r.Range(1, 63)), g.r.Uint64()>>uint(g.r.Range(1, 63))))
		}
		return leaf("float", g.r.Pick(floats))
	case 2:
		if g.r.P(1, 2) {
			if g.r.P(1, 4) { // long, blanks at the ends
				return leaf("text", g.r.Pick([]string{"", " ", "\t", "  "})+strings.Repeat(g.r.Pick([]string{"a", "text ", "0", "\\", "`", "é", "%s", "\t"}), g.r.Range(20, 400))+g.r.Pick([]string{"", " ", "\t", "   "}))
			}
			return leaf("text", string(randText(g.r)))
		}
		return leaf("text", g.r.Pick(texts))
	}
	return leaf("bool", g.r.Pick([]string{"true", "false"}))
}

// typ makes a type from what is declared before it, so that no type contains itself
func (g *cgGen) typ(depth int, types []CG) (*N, string) {
	k := g.r.W(6, 3, 3, 3)
	if depth <= 0 && k >= 2 {
		k = g.r.Intn(2)
	}
	switch k {
	case 1:
		if len(types) > 0 {
			t := types[g.r.Intn(len(types))]
			return leaf("ident", t.Name), t.Go
		}
	case 2:
		return g.fields("group", depth, types)
	case 3:
		return g.fields("array", depth, types)
	}
	p := g.r.Pick(prims)
	return leaf("prim", p), goPrim[p]
}

func (g *cgGen) fields(kind string, depth int, types []CG) (*N, string) {
	n := &N{K: kind}
	var fs []string
	if kind == "array" {
		fs = append(fs, "_ struct{} `cbor:\",toarray\"`")
	}
	used := map[string]bool{}
	k := g.r.Intn(6)
	if g.r.P(1, 1500) {
		k = g.r.Range(30, 400)
	}
	for ; k > 0; k-- {
		if g.embed && len(types) > 0 && g.r.P(1, 8) {
			t := types[g.r.Intn(len(types))]
			if t.Exposed && !used[t.Go] && t.Go != "Valid" {
				used[t.Go] = true
				n.Kids = append(n.Kids, leaf("ident", t.Name))
				fs = append(fs, t.Go)
				continue
			}
		}
		key, gname := &N{}, ""
		if g.r.P(1, 8) {
			v := uint64(g.r.Intn(300))
			if g.r.P(1, 8) {
				v = g.r.Uint64() >> 1
			}
			gname = "IntKey_" + strconv.FormatUint(v, 10)
			if used[gname] {
				continue
			}
			used[gname] = true
			key = leaf("int", strconv.FormatUint(v, 10))
			if g.r.P(1, 4) {
				key = leaf("int", fmt.Sprintf("0x%x", v))
			}
		} else {
			var nm string
			nm, gname = g.name(used)
			key = leaf("ident", nm)
		}
		if gname == "Valid" {
			gname = "Valid_"
			used["Valid_"] = true
		}
		var v *N
		var t string
		if g.r.P(1, 6) {
			v = g.lit()
			t = goLit[v.K]
		} else {
			v, t = g.typ(depth-1, types)
		}
		op := ":"
		if key.K == "int" && g.r.P(1, 3) {
			op = "=>"
		}
		e := &N{K: "entry", S: op, Kids: []*N{key, v}}
		f := gname + " " + t
		if g.r.P(1, 5) {
			e = &N{K: "opt", S: "?", Kids: []*N{e}}
			f += " `cbor:\",omitempty\"`"
		}
		n.Kids = append(n.Kids, e)
		fs = append(fs, f)
	}
	return n, "struct{" + strings.Join(fs, ";") + "}"
}

// GenCode makes a schema of the subset that is supported for code generation
func GenCode(r *Rand, rules, depth int) *CGSchema {
	g := &cgGen{r: r, used: map[string]bool{}, embed: r.P(1, 3)}
	n := r.Range(1, rules)
	var types []CG
	for i := 0; i < n; i++ {
		nm, gn := g.name(g.used)
		if r.P(1, 10) { // a socket or plug: the name without its dollar signs, as it is
			nm = r.Pick([]string{"$", "$$"}) + gn
		}
		c := CG{Name: nm, Go: gn}
		if r.P(1, 4) {
			c.Lit = g.lit()
			c.Value = c.Lit
		} else {
			c.Value, c.Type = g.typ(depth, types)
			c.Exposed = strings.HasPrefix(c.Type, "struct{")
			types = append(types, c)
		}
		g.rules = append(g.rules, c)
	}
	// the order of the rules does not matter to references
	if r.P(2, 3) {
		r.Shuffle(len(g.rules), func(i, j int) { g.rules[i], g.rules[j] = g.rules[j], g.rules[i] })
	}
	cs := &CGSchema{Rules: g.rules, Schema: &Schema{}}
	for _, c := range g.rules {
		cs.Schema.Rules = append(cs.Schema.Rules, &Rule{Name: c.Name, Assign: "=", Value: c.Value})
	}
	return cs
}
