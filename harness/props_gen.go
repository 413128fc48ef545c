package main

import (
	"bytes"
	"errors"
	"fmt"
	gast "go/ast"
	"go/constant"
	"go/format"
	goparser "go/parser"
	gotoken "go/token"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/HannesKimara/cddlc/ast"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
)

// generate runs the generator on a tree. A panic is a failure as well.
func generate(cddl *ast.CDDL, pkg string) (out []byte, err error) {
	var buf bytes.Buffer
	err = generateTo(cddl, pkg, &buf)
	return buf.Bytes(), err
}

func generateTo(cddl *ast.CDDL, pkg string, w interface{ Write([]byte) (int, error) }) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = fmt.Errorf("panic: %w", e)
			} else {
				err = fmt.Errorf("panic: %v", r)
			}
		}
	}()
	g := gogen.NewGenerator(pkg)
	g.Visit(cddl)
	return g.String(w)
}

var pkgNames = []string{"dist", "main", "p", "lib", "pkg_1", "Upper", "validators", "x509", "_x", "string", "schema", "日本", "x_test", "main_test", "Test", "a", "valid", "Valid", "error", "int", "p2", "internal", "vendor", "documentation", "cbor", "init", "a_very_long_package_name_for_generated_code"}

func (t *T) codegen(i int) (*CGSchema, *Text) {
	rules, depth := 8, 3
	switch i % 9 {
	case 0:
		rules, depth = 60, 2
	case 1:
		rules, depth = 2, 7
	case 2:
		rules, depth = 1, 1
	}
	cs := GenCode(t.Rand, rules, depth)
	l := layouts[t.Intn(len(layouts))]
	return cs, Render(Print(cs.Schema, t.Rand, t.Intn(3)), &l, t.Rand)
}

// generated parses a schema and generates code that has to succeed
func (t *T) generated(tx *Text, pkg string) []byte {
	t.Input(tx.Src)
	cddl, errs := parseSrc(tx.Src)
	if len(errs) > 0 {
		t.Count("rejected", 1) // P03 decides
		panic(stopCase{})
	}
	out, err := generate(cddl, pkg)
	if err != nil {
		t.Fail("package %s: %v", pkg, err)
	}
	return out
}

// validMethods checks that every type has a method Valid() error
func validMethods(t *T, pkg *types.Package, src []byte) int {
	n := 0
	for _, name := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, pkg, "Valid")
		f, ok := obj.(*types.Func)
		if !ok {
			t.Fail("type %s has no method Valid:\n%s", name, src)
		}
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || sig.Results().At(0).Type().String() != "error" {
			t.Fail("Valid of type %s is %s", name, sig)
		}
		recv := sig.Recv().Type()
		if p, ok := recv.(*types.Pointer); ok {
			recv = p.Elem()
		}
		if nt, ok := recv.(*types.Named); !ok || nt.Obj() != tn {
			t.Fail("type %s does not have a method Valid of its own but that of %s", name, recv)
		}
		n++
	}
	return n
}

func checkGo(t *T, out []byte, pkg string) (*gast.File, *types.Info, *types.Package) {
	fset := gotoken.NewFileSet()
	f, err := goparser.ParseFile(fset, "out.go", out, goparser.AllErrors|goparser.ParseComments)
	if err != nil {
		t.Fail("the output does not parse: %v\n%s", err, out)
	}
	if f.Name.Name != pkg {
		t.Fail("the package is %s, not %s", f.Name.Name, pkg)
	}
	conf := types.Config{}
	info := &types.Info{Types: map[gast.Expr]types.TypeAndValue{}, Defs: map[*gast.Ident]types.Object{}}
	p, err := conf.Check("example.com/"+pkg, fset, []*gast.File{f}, info)
	if err != nil {
		t.Fail("the output does not type-check: %v\n%s", err, out)
	}
	return f, info, p
}

type noPackages struct{}

func (noPackages) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, path[strings.LastIndexByte(path, '/')+1:])
	p.MarkComplete()
	return p, nil
}

// wrongNames tells of names that are declared more than once and of values in the place of types. Names may be
// declared elsewhere in the package.
func wrongNames(fset *gotoken.FileSet, f *gast.File) (out string) {
	conf := types.Config{Importer: noPackages{}, Error: func(err error) {
		if m := err.Error(); out == "" && (strings.Contains(m, "redeclared") || strings.Contains(m, "is not a type")) {
			out = m
		}
	}}
	conf.Check("example.com/p", fset, []*gast.File{f}, nil)
	return out
}

// G01 -------------------------------------------------------------------------------------------------------

var propG01 = &Property{ID: "G01",
	Rule:        "schemas of the supported subset in all layouts with many package names: the output is parsed, formatted again, type-checked, and its validity methods looked up; in batches compiled by the Go compiler and run, calling every validity method; non-trivial: distinct outputs",
	Assumptions: []string{"embedding a struct by its name is part of the subset"},
	Run: func(c *Ctx) {
		c.DoN("schema", c.N(9000, 300000), func(t *T, i int) {
			_, tx := t.codegen(i)
			pkg := t.Pick(pkgNames)
			out := t.generated(tx, pkg)
			_, _, p := checkGo(t, out, pkg)
			fm, err := format.Source(out)
			if err != nil || !bytes.Equal(trimLines(fm), trimLines(out)) {
				t.Fail("the output is not formatted: %v\n%s\nformatted:\n%s", err, out, fm)
			}
			t.Count("types with a validity method", validMethods(t, p, out))
			t.Count("outputs type-checked", 1)
			t.Distinct(string(out))
			if t.P(1, 700) {
				t.Sample("%.200q -> %.300q", tx.Src, out)
			}
		})
		c.DoN("run", c.Pick(8, 60), func(t *T, i int) { runGenerated(t, c.Pick(25, 60)) })
	}}

// trimLines drops trailing blanks, which the generator's own comments have
func trimLines(b []byte) []byte {
	var o []byte
	for _, l := range bytes.SplitAfter(b, []byte("\n")) {
		o = append(append(o, bytes.TrimRight(l, " \t\n")...), '\n')
	}
	return bytes.TrimRight(o, "\n")
}

// runGenerated compiles generated packages and calls their validity methods
func runGenerated(t *T, n int) {
	dir, err := os.MkdirTemp(t.c.Tmp, "gen")
	if err != nil {
		t.Inconclusive("scratch directory: %v", err)
	}
	defer os.RemoveAll(dir)
	files := map[string]string{"go.mod": "module example.com/gen\n\ngo 1.21\n"}
	var imports, calls strings.Builder
	want := 0
	var all []byte
	for k := 0; k < n; k++ {
		cs, tx := t.codegen(t.Intn(9))
		pkg := t.Pick([]string{"dist", "p", "lib", "x509", "schema"})
		out := t.generated(tx, pkg)
		all = append(append(all, "\n; --- next schema\n"...), tx.Src...)
		files[fmt.Sprintf("p%d/out.go", k)] = string(out)
		used := false
		for _, r := range cs.Rules {
			if r.Lit == nil {
				fmt.Fprintf(&calls, "\tvalid(%q, (&p%d.%s{}).Valid)\n", r.Name, k, r.Go)
				used = true
				want++
			}
		}
		_ = used
		fmt.Fprintf(&imports, "\tp%d \"example.com/gen/p%d\"\n", k, k)
		fmt.Fprintf(&calls, "\tvar _ p%d.Anchor__\n", k)
		files[fmt.Sprintf("p%d/anchor.go", k)] = "package " + pkg + "\n\ntype Anchor__ struct{}\n"
	}
	// composite literals do not exist for all types: use new
	body := strings.NewReplacer("(&p", "new(p", "{}).Valid", ").Valid").Replace(calls.String())
	files["main.go"] = "package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n" + imports.String() + ")\n\nvar n int\n\nfunc valid(name string, f func() error) {\n\tn++\n\tif err := f(); err != nil {\n\t\tfmt.Println(\"invalid:\", name, err)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n" + body + "\tfmt.Println(\"called\", n)\n}\n"
	writeFiles(t, dir, files)
	t.Input(all)
	run := func(name string, args ...string) (string, error) {
		cmd := exec.Command(name, args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")
		var b bytes.Buffer
		cmd.Stdout, cmd.Stderr = &b, &b
		if err := cmd.Start(); err != nil {
			t.Inconclusive("%s does not start: %v", name, err)
		}
		timer := time.AfterFunc(5*time.Minute, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		if !timer.Stop() {
			t.Inconclusive("%s did not end", name)
		}
		return b.String(), err
	}
	bin := filepath.Join(dir, "bin")
	if out, err := run("go", "build", "-o", bin, "."); err != nil {
		if strings.Contains(out, "no space left") || strings.Contains(out, "signal: killed") {
			t.Inconclusive("the compiler failed: %s", out)
		}
		t.Fail("the outputs do not compile: %s", out)
	}
	out, err := run(bin)
	if err != nil || strings.TrimSpace(out) != fmt.Sprint("called ", want) {
		t.Fail("running the outputs: %v: %s", err, out)
	}
	t.Rearm()
	t.Count("packages compiled and run", n)
	t.Count("validity methods called", want)
	t.Distinct("run", t.Name)
}

// G02 -------------------------------------------------------------------------------------------------------

// goType renders a type expression in the notation of CG.Type
func goType(e gast.Expr) string {
	switch v := e.(type) {
	case *gast.Ident:
		return v.Name
	case *gast.ArrayType:
		if v.Len == nil {
			return "[]" + goType(v.Elt)
		}
	case *gast.StructType:
		var fs []string
		for _, f := range v.Fields.List {
			tag := ""
			if f.Tag != nil {
				tag = " " + f.Tag.Value
			}
			if len(f.Names) == 0 {
				fs = append(fs, goType(f.Type)+tag)
			}
			for _, n := range f.Names {
				fs = append(fs, n.Name+" "+goType(f.Type)+tag)
			}
		}
		return "struct{" + strings.Join(fs, ";") + "}"
	}
	return fmt.Sprintf("<%T>", e)
}

func checkLiteral(t *T, lit *N, name string, v *gast.ValueSpec, info *types.Info, out []byte) {
	tv := info.Types[v.Values[0]]
	if tv.Value == nil {
		t.Fail("%s is not a constant:\n%s", name, out)
	}
	typ := info.Defs[v.Names[0]].Type().String()
	if typ != goLit[lit.K] {
		t.Fail("%s has type %s, expected %s", name, typ, goLit[lit.K])
	}
	ok := false
	switch lit.K {
	case "int":
		want, _ := new(big.Int).SetString(intText(lit.S), 10)
		got, exact := constant.Uint64Val(constant.ToInt(tv.Value))
		ok = exact && want.Cmp(new(big.Int).SetUint64(got)) == 0
	case "float":
		want, _ := strconv.ParseFloat(lit.S, 64)
		got, _ := constant.Float64Val(tv.Value)
		ok = want == got
	case "text":
		ok = tv.Value.Kind() == constant.String && constant.StringVal(tv.Value) == lit.S
	case "bool":
		ok = tv.Value.Kind() == constant.Bool && constant.BoolVal(tv.Value) == (lit.S == "true")
	}
	if !ok {
		t.Fail("%s is %s, its literal is %q", name, tv.Value.ExactString(), lit.S)
	}
	t.Count("literal values compared", 1)
}

var propG02 = &Property{ID: "G02",
	Rule: "schemas of the supported subset: names, types, fields, tags and constant values of the output are compared declaration by declaration with those the model prescribes; non-trivial: distinct (CDDL construct, Go type) declarations",
	Run: func(c *Ctx) {
		check := func(t *T, cs *CGSchema, tx *Text, pkg string) {
			out := t.generated(tx, pkg)
			f, info, _ := checkGo(t, out, pkg)
			i := 0
			var owner string
			for _, d := range f.Decls {
				switch v := d.(type) {
				case *gast.GenDecl:
					if v.Tok == gotoken.IMPORT {
						t.Fail("unexpected imports:\n%s", out)
					}
					for _, s := range v.Specs {
						if i >= len(cs.Rules) {
							t.Fail("more declarations than the %d rules:\n%s", len(cs.Rules), out)
						}
						r := cs.Rules[i]
						i++
						switch sp := s.(type) {
						case *gast.TypeSpec:
							owner = sp.Name.Name
							if r.Lit != nil || sp.Name.Name != r.Go || sp.Assign.IsValid() || sp.TypeParams != nil {
								t.Fail("declaration %d is type %s, rule %q is to be %s", i, sp.Name.Name, r.Name, r.Go)
							}
							if g := goType(sp.Type); g != r.Type {
								t.Fail("rule %q is the type %s, expected %s", r.Name, g, r.Type)
							}
							for _, part := range strings.Split(r.Type, ";") {
								k := strings.LastIndex(part, " ")
								t.Distinct(r.Value.K, part[k+1:])
							}
							t.Distinct("decl", r.Go, r.Type)
							t.Count("types compared", 1)
						case *gast.ValueSpec:
							if v.Tok != gotoken.VAR || r.Lit == nil || len(sp.Names) != 1 || len(sp.Values) != 1 || sp.Names[0].Name != r.Go {
								t.Fail("declaration %d is %s %s, rule %q is to be %s", i, v.Tok, sp.Names[0].Name, r.Name, r.Go)
							}
							checkLiteral(t, r.Lit, r.Go, sp, info, out)
							t.Distinct("literal", r.Lit.K, r.Lit.S)
						}
					}
				case *gast.FuncDecl:
					if v.Recv == nil || v.Name.Name != "Valid" {
						t.Fail("unexpected function %s", v.Name.Name)
					}
					rt := v.Recv.List[0].Type
					if st, ok := rt.(*gast.StarExpr); ok {
						rt = st.X
					}
					if goType(rt) != owner {
						t.Fail("a method of %s follows the declaration of %s", goType(rt), owner)
					}
				}
			}
			if i != len(cs.Rules) {
				t.Fail("%d declarations for %d rules:\n%s", i, len(cs.Rules), out)
			}
			t.Count("outputs compared", 1)
			if t.P(1, 700) {
				t.Sample("%.200q -> %.400q", tx.Src, out)
			}
		}
		c.DoN("schema", c.N(15000, 500000), func(t *T, i int) {
			cs, tx := t.codegen(i)
			check(t, cs, tx, t.Pick(pkgNames))
		})
		// literals of every kind
		c.DoN("literals", c.N(3000, 100000), func(t *T, i int) {
			g := &cgGen{r: t.Rand, used: map[string]bool{}}
			cs := &CGSchema{Schema: &Schema{}}
			for k := 0; k < 12; k++ {
				nm, gn := g.name(g.used)
				r := CG{Name: nm, Go: gn, Lit: g.lit()}
				cs.Rules = append(cs.Rules, r)
				cs.Schema.Rules = append(cs.Schema.Rules, &Rule{Name: nm, Assign: "=", Value: r.Lit})
			}
			check(t, cs, plainText(t.Rand, cs.Schema), "lit")
		})
		// every primitive in every place
		c.DoN("primitives", len(prims), func(t *T, i int) {
			p := prims[i]
			f := func(key string) *N {
				return &N{K: "entry", S: ":", Kids: []*N{leaf("ident", key), leaf("prim", p)}}
			}
			g := goPrim[p]
			cs := &CGSchema{Schema: &Schema{}, Rules: []CG{
				{Name: "top", Go: "Top", Value: leaf("prim", p), Type: g},
				{Name: "in-group", Go: "InGroup", Value: &N{K: "group", Kids: []*N{f("a-b"), {K: "opt", S: "?", Kids: []*N{f("c")}}}}, Type: "struct{AB " + g + ";C " + g + " `cbor:\",omitempty\"`}"},
				{Name: "in-array", Go: "InArray", Value: &N{K: "array", Kids: []*N{f("a-b"), {K: "opt", S: "?", Kids: []*N{f("c")}}}}, Type: "struct{_ struct{} `cbor:\",toarray\"`;AB " + g + ";C " + g + " `cbor:\",omitempty\"`}"},
				{Name: "nested", Go: "Nested", Value: &N{K: "group", Kids: []*N{{K: "entry", S: ":", Kids: []*N{leaf("ident", "in"), {K: "array", Kids: []*N{f("x")}}}}}}, Type: "struct{In struct{_ struct{} `cbor:\",toarray\"`;X " + g + "}}"},
				{Name: "ref", Go: "Ref", Value: &N{K: "group", Kids: []*N{{K: "entry", S: ":", Kids: []*N{leaf("ident", "r"), leaf("ident", "top")}}}}, Type: "struct{R Top}"},
			}}
			for _, r := range cs.Rules {
				cs.Schema.Rules = append(cs.Schema.Rules, &Rule{Name: r.Name, Assign: "=", Value: r.Value})
			}
			check(t, cs, plainText(t.Rand, cs.Schema), "prims")
		})
		c.DoN("wide", 4, func(t *T, i int) {
			cs := GenCode(t.Rand, 600, 2)
			check(t, cs, plainText(t.Rand, cs.Schema), "wide")
		})
	}}

// G03 -------------------------------------------------------------------------------------------------------

var errDest = errors.New("destination failed")

// failingWriter takes a number of bytes and then fails
type failingWriter struct {
	room  int
	got   []byte
	fails int
}

func (w *failingWriter) Write(p []byte) (int, error) {
	if len(p) <= w.room {
		w.room -= len(p)
		w.got = append(w.got, p...)
		return len(p), nil
	}
	n := w.room
	w.got = append(w.got, p[:n]...)
	w.room = 0
	w.fails++
	return n, errDest
}

func rulesOf(c *ast.CDDL) (out []*ast.Rule) {
	for _, r := range c.Rules {
		if v, ok := r.(*ast.Rule); ok {
			out = append(out, v)
		}
	}
	return
}

// fieldsMissing compares the fields of a struct with the entries it stands for
func fieldsMissing(n ast.Node, e gast.Expr) string {
	var entries []ast.Node
	array := false
	switch v := n.(type) {
	case *ast.Group:
		for _, x := range v.Entries {
			entries = append(entries, x)
		}
	case *ast.Array:
		array = true
		for _, x := range v.Rules {
			entries = append(entries, x)
		}
	default:
		return ""
	}
	st, ok := e.(*gast.StructType)
	if !ok {
		return fmt.Sprintf("a %T is the type %T", n, e)
	}
	var fields []*gast.Field
	for k, f := range st.Fields.List {
		if array && k == 0 && len(f.Names) == 1 && f.Names[0].Name == "_" { // the marker
			continue
		}
		fields = append(fields, f)
	}
	if len(fields) != len(entries) {
		return fmt.Sprintf("%d fields for %d entries", len(fields), len(entries))
	}
	for i, x := range entries {
		if o, ok := x.(*ast.Optional); ok {
			x = o.Item
		}
		if en, ok := x.(*ast.Entry); ok {
			if d := fieldsMissing(en.Value, fields[i].Type); d != "" {
				return d
			}
		}
	}
	return ""
}

func countRules(c *ast.CDDL) (n int) {
	for _, r := range c.Rules {
		if _, ok := r.(*ast.Rule); ok {
			n++
		}
	}
	return
}

var propG03 = &Property{ID: "G03",
	Rule:        "all constructs the parser accepts, generated twice from one tree and again from a second parse, with the tree compared before and after; schemas whose names are the same in Go, or values; the supported subset into destinations that fail after every byte count (sampled for long outputs); non-trivial: distinct (construct kinds, outcome)",
	Assumptions: []string{"an output is complete if it declares one type or variable per rule"},
	Run: func(c *Ctx) {
		check := func(t *T, src []byte) {
			t.Input(src)
			cddl, errs := parseSrc(src)
			if len(errs) > 0 {
				return
			}
			before := deepDump(cddl)
			pkg := t.Pick(pkgNames)
			a, ea := generate(cddl, pkg)
			if deepDump(cddl) != before {
				t.Fail("generating modifies the tree: before %.800s after %.800s", before, deepDump(cddl))
			}
			b, eb := generate(cddl, pkg)
			again, _ := parseSrc(src)
			d, ed := generate(again, pkg)
			if (ea == nil) != (eb == nil) || (ea == nil) != (ed == nil) {
				t.Fail("the outcomes differ: %v, %v, %v", ea, eb, ed)
			}
			if !bytes.Equal(a, b) || !bytes.Equal(a, d) {
				t.Fail("the outputs differ:\n%s\n%s\n%s", a, b, d)
			}
			if ea != nil {
				if len(a) > 0 {
					t.Fail("failed with %v after writing %q", ea, a)
				}
				t.Count("failed loudly", 1)
			} else {
				fset := gotoken.NewFileSet()
				f, err := goparser.ParseFile(fset, "out.go", a, goparser.AllErrors)
				if err != nil {
					t.Fail("success, but the output is not Go: %v\n%s", err, a)
				}
				if d := wrongNames(fset, f); d != "" {
					t.Fail("success, but %s:\n%s", d, a)
				}
				n := 0
				rules := rulesOf(cddl)
				for _, d := range f.Decls {
					g, ok := d.(*gast.GenDecl)
					if !ok || g.Tok == gotoken.IMPORT {
						continue
					}
					for _, sp := range g.Specs {
						if ts, ok := sp.(*gast.TypeSpec); ok && n < len(rules) {
							if d := fieldsMissing(rules[n].Value, ts.Type); d != "" {
								t.Fail("success, but rule %s: %s:\n%s", rules[n].Name.Name, d, a)
							}
							t.Count("types of rules compared with their entries", 1)
						}
						n++
					}
				}
				if n != countRules(cddl) {
					t.Fail("success, but %d declarations for %d rules:\n%s", n, countRules(cddl), a)
				}
				t.Count("generated", 1)
			}
			t.Distinct(fmt.Sprint(ea == nil), tokShape(src))
			if t.P(1, 2000) {
				t.Sample("%.150q: error %v, %d bytes", src, ea, len(a))
			}
			t.Eval()
		}
		c.DoN("supported", c.N(3000, 100000), func(t *T, i int) {
			_, tx := t.codegen(i)
			check(t, tx.Src)
		})
		// names that are the same in Go, or that are a value in Go
		c.DoN("names", c.N(6000, 200000), func(t *T, i int) {
			pool := []string{"a", "a-b", "a_b", "aB", "A-b", "AB", "ab", "b1", "b-1", "x", "X", "valid", "$a", "$$x", "$true", "$len", "$nil", "$open", "int-x", "_a"}
			t.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
			pool = pool[:t.Range(1, 6)]
			atom := func() string {
				return t.Pick([]string{"int", "tstr", "1", "\"t\"", "1.5", "true", t.Pick(pool), t.Pick(pool), t.Pick(pool)})
			}
			var sb strings.Builder
			for _, n := range pool {
				sb.WriteString(n + t.Pick([]string{" = ", " = ", " = ", " = ", " /= "}))
				switch t.Intn(6) {
				case 0, 1, 2:
					sb.WriteString(atom())
				default:
					open, close := "(", ")"
					if t.P(1, 2) {
						open, close = "[", "]"
					}
					sb.WriteString(open)
					for k := t.Intn(4); k > 0; k-- {
						switch t.Intn(4) {
						case 0:
							sb.WriteString(t.Pick(pool))
						case 1:
							sb.WriteString("? " + strings.TrimLeft(t.Pick(pool), "$") + ": " + atom())
						default:
							sb.WriteString(strings.TrimLeft(t.Pick(pool), "$") + ": " + atom())
						}
						sb.WriteString(", ")
					}
					sb.WriteString(close)
				}
				sb.WriteString("\n")
			}
			check(t, []byte(sb.String()))
		})
		c.DoN("large", c.N(12, 100), func(t *T, i int) {
			cs := GenCode(t.Rand, 300<<uint(i%4), 2)
			check(t, plainText(t.Rand, cs.Schema).Src)
		})
		c.DoN("any schema", c.N(12000, 400000), func(t *T, i int) {
			_, tx := genText(t.Rand)
			check(t, tx.Src)
		})
		c.DoN("small", c.N(30000, 600000), func(t *T, i int) {
			s := GenSchema(t.Rand, Profile{Rules: 1 + i%2, Depth: t.Intn(3), MaxKids: 2, Sockets: true, Ranges: true, Controls: true})
			check(t, plainText(t.Rand, s).Src)
		})
		c.DoN("mutants", c.N(6000, 300000), func(t *T, i int) {
			_, tx := t.codegen(2)
			for k := 0; k < 4; k++ {
				check(t, mutateTokens(t.Rand, tx))
			}
		})
		c.DoN("failing destination", c.N(300, 6000), func(t *T, i int) {
			_, tx := t.codegen([]int{2, 4, 5}[i%3])
			if i%50 == 7 { // outputs of all sizes
				cs := GenCode(t.Rand, 1<<uint(4+i/50%9), 2)
				tx = plainText(t.Rand, cs.Schema)
			}
			t.Input(tx.Src)
			cddl, errs := parseSrc(tx.Src)
			if len(errs) > 0 {
				return
			}
			full, err := generate(cddl, "p")
			if err != nil {
				return // G01 decides
			}
			step := 1
			if len(full) > 400 {
				step = len(full) / 400
			}
			if len(full) > 1<<15 {
				step = len(full)/25 + 1
			}
			for room := 0; room <= len(full); room += step {
				w := &failingWriter{room: room}
				err := generateTo(cddl, "p", w)
				switch {
				case w.fails > 0 && !errors.Is(err, errDest):
					t.Fail("the destination fails after %d of %d bytes, the generator returns %v", room, len(full), err)
				case w.fails == 0 && err != nil:
					t.Fail("the destination takes all %d bytes, the generator returns %v", len(full), err)
				case err == nil && !bytes.Equal(w.got, full):
					t.Fail("the destination has %q, expected %q", w.got, full)
				case !bytes.HasPrefix(full, w.got):
					t.Fail("the destination has %q, which is no part of %q", w.got, full)
				}
				t.Count("failing writes injected", w.fails)
				t.Eval()
			}
			t.Distinct("destination", fmt.Sprint(len(full)))
		})
	}}
