// C01 to C04: the command line tool
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/scanner"
	gotoken "go/token"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

// project is a directory tree with its configuration and the outputs it has to get
type project struct {
	files  map[string]string
	want   map[string]string // path of an output -> library output
	builds []map[string]string
	config string // json, yaml, both, none
	empty  int    // sources without a rule
}

var srcNames = []string{"a", "schema", "x.y", "with space", "UPPER", "日本", "-dash", "_u", "test_test", "cddl", "b.cddl", "go", "main_linux", "z9", "very-long-" + strings.Repeat("n", 100)}

func (t *T) schemaFor(pkg string) (src, out string, ok bool) {
	cs, tx := t.codegen(t.Range(1, 4))
	_ = cs
	cddl, errs := parseSrc(tx.Src)
	if len(errs) > 0 {
		return "", "", false // P03 decides
	}
	b, err := generate(cddl, pkg)
	if err != nil {
		return "", "", false // G01 decides
	}
	return string(tx.Src), string(b), true
}

func rel(p string) string { return path.Clean(p) }

// newProject makes a project that generates without an error
func (t *T) newProject(nofail bool) *project {
	p := &project{files: map[string]string{}, want: map[string]string{}}
	p.config = t.Pick([]string{"json", "json", "yaml", "both", "none", "broken yaml"})
	if p.config == "none" {
		p.builds = append(p.builds, map[string]string{"package": "dist", "src": ".", "output": "dist/"})
	} else {
		for n := t.W(1, 6, 4, 2); n > 0; n-- {
			b := map[string]string{"package": t.Pick(pkgNames)}
			b["src"] = t.Pick([]string{".", "src", "./schemas/", "a/b/c", "in put", "src/../src", "s" + fmt.Sprint(n)})
			b["output"] = t.Pick([]string{"dist/", "out", "gen/deep/er", "out put", "./o", "src", "o" + fmt.Sprint(n), "gen", "."})
			p.builds = append(p.builds, b)
		}
	}
	bySrc := map[string][]string{} // schemas of each source directory
	taken := map[string]bool{}
	for _, b := range p.builds {
		dir := rel(b["src"])
		names, ok := bySrc[dir]
		if !ok {
			n := t.W(1, 4, 3, 2, 1)
			for len(names) < n {
				nm := t.Pick(srcNames)
				dup := false
				for _, o := range names {
					dup = dup || o == nm
				}
				if !dup {
					names = append(names, nm)
				}
			}
			bySrc[dir] = names
			os := map[string]string{"keep.txt": "k", "b.CDDL": "x = ", "c.cddl.bak": "(", "sub/inner.cddl": "y = [", "d.json": "{", "cddl": "x = }", "README": "", "z.cddlx": "{"}
			for f, content := range os {
				if t.P(1, 3) {
					p.files[path.Join(dir, f)] = content
				}
			}
			if _, ok := p.files[path.Join(dir, "keep.txt")]; !ok {
				p.files[path.Join(dir, "keep.txt")] = ""
			}
		}
		for _, nm := range names {
			s := path.Join(dir, nm+".cddl")
			if _, ok := p.files[s]; !ok {
				src, _, ok := t.schemaFor("p")
				if !ok {
					panic(stopCase{})
				}
				p.files[s] = src
			}
			cddl, _ := parseSrc([]byte(p.files[s]))
			out, err := generate(cddl, b["package"])
			if err != nil {
				panic(stopCase{})
			}
			o := path.Join(rel(b["output"]), nm+".go")
			taken[o] = true
			p.want[o] = string(out) // a later build replaces the output of an earlier one
		}
	}
	// older content of outputs, longer and shorter, and files that are none of the tool's business
	for _, o := range sortedSet(taken) {
		switch t.Intn(4) {
		case 0:
			p.files[o] = p.want[o] + strings.Repeat("// older and longer\n", 200)
		case 1:
			p.files[o] = "package old\n"
		}
	}
	for _, b := range p.builds {
		if t.P(1, 2) {
			p.files[path.Join(rel(b["output"]), "other.go")] = "package other\n"
		}
	}
	t.configure(p, p.builds)
	return p
}

func sortedSet(m map[string]bool) []string {
	c := map[string]string{}
	for k := range m {
		c[k] = ""
	}
	return sortedKeys(c)
}

// configure writes the configuration of the project
func (t *T) configure(p *project, builds []map[string]string) {
	tree := &val{k: 'o'}
	tree.set("version", vs("1"))
	l := vl()
	for _, b := range builds {
		o := &val{k: 'o'}
		for _, k := range []string{"package", "src", "output"} {
			o.set(k, vs(b[k]))
		}
		l.list = append(l.list, o)
	}
	tree.set("builds", l)
	tree = tree.shuffled(t.Rand)
	js := tree.json(blankJSON(t.Rand))
	var y strings.Builder
	tree.yaml(t.Rand, 0, &y)
	decoy := `{"version":"9","builds":[{"package":"decoy","src":"decoy","output":"decoyout"}]}`
	delete(p.files, "cddlc.json")
	delete(p.files, "cddlc.yaml")
	switch p.config {
	case "json":
		p.files["cddlc.json"] = js
	case "yaml":
		p.files["cddlc.yaml"] = y.String()
	case "both":
		p.files["cddlc.json"] = js
		p.files["cddlc.yaml"] = decoy
		p.files["decoy/decoy.cddl"] = "d = int\n"
	case "broken yaml":
		p.files["cddlc.json"] = js
		p.files["cddlc.yaml"] = "builds: [\n"
	case "none":
		for _, n := range []string{"cddlc.yml", "CDDLC.JSON", "config/cddlc.json", ".cddlc.yaml"} {
			if t.P(1, 3) {
				p.files[n] = decoy
			}
		}
		p.files["decoy/decoy.cddl"] = "d = int\n"
	}
}

// checkOutput checks the content of an output: comments, then the library's output
func checkOutput(t *T, name, content, want string) string {
	if !strings.HasSuffix(content, want) {
		return fmt.Sprintf("%s does not end with the output of the library:\n%s\ninstead of\n%s", name, clip(content), clip(want))
	}
	head := content[:len(content)-len(want)]
	if !strings.Contains(head, "DO NOT EDIT") || !strings.Contains(head, "/*") && !strings.Contains(head, "//") {
		return fmt.Sprintf("%s has the header %q", name, head)
	}
	fset := gotoken.NewFileSet()
	var s scanner.Scanner
	bad := ""
	s.Init(fset.AddFile(name, -1, len(head)), []byte(head), func(_ gotoken.Position, msg string) { bad = msg }, scanner.ScanComments)
	for {
		_, tok, lit := s.Scan()
		if tok == gotoken.EOF || bad != "" {
			break
		}
		if tok != gotoken.COMMENT {
			return fmt.Sprintf("%s has %s %q in its header %q", name, tok, lit, head)
		}
	}
	if bad != "" {
		return fmt.Sprintf("%s has the header %q: %s", name, head, bad)
	}
	return ""
}

// fileContent takes the content from an entry of a snapshot
func fileContent(entry string) (string, bool) {
	if !strings.HasPrefix(entry, "file ") {
		return "", false
	}
	if k := strings.Index(entry[5:], " "); k >= 0 {
		return entry[5+k+1:], true
	}
	return "", false
}

// checkGenerated compares a tree after a successful run with the one before
func checkGenerated(t *T, p *project, before, after map[string]string) {
	dirs := map[string]bool{}
	for o := range p.want {
		for d := path.Dir(o); d != "."; d = path.Dir(d) {
			dirs[d] = true
		}
	}
	for _, k := range sortedKeys(before, after) {
		a, had := before[k]
		b, has := after[k]
		if want, ok := p.want[k]; ok {
			content, isFile := fileContent(b)
			if !isFile {
				t.Fail("output %s is missing (%q)", k, clip(b))
			}
			if d := checkOutput(t, k, content, want); d != "" {
				t.Fail("%s", d)
			}
			if !had && !strings.HasPrefix(b, "file -rw") {
				t.Fail("the new output %s can not be read and written by its owner: %.20q", k, b)
			}
			t.Count("outputs compared", 1)
			continue
		}
		switch {
		case had && !has:
			t.Fail("%s disappeared", k)
		case !had && has && dirs[k] && strings.HasPrefix(b, "dir ") && !strings.HasPrefix(b, "dir drwx"):
			t.Fail("the new directory %s can not be used by its owner: %s", k, b)
		case !had && has && !(dirs[k] && strings.HasPrefix(b, "dir ")):
			t.Fail("%s appeared: %s", k, clip(b))
		case had && has && a != b:
			t.Fail("%s changed from\n%s\nto\n%s", k, clip(a), clip(b))
		}
	}
	for k := range p.want {
		if _, ok := after[k]; !ok {
			t.Fail("output %s is missing", k)
		}
	}
}

func (p *project) text() []byte {
	var sb strings.Builder
	for _, k := range sortedKeys(p.files) {
		fmt.Fprintf(&sb, "--- %s\n%s\n", k, p.files[k])
	}
	return []byte(sb.String())
}

var propC01 = &Property{ID: "C01", CLI: true,
	Rule:        "random projects (configuration as JSON, YAML, both or none, several builds, shared and nested directories, sources next to files that are none, older outputs) are generated by the command; the whole tree before and after is compared with the outputs that the library gives for each schema and package; repeated runs, several runs at once, runs after a killed one, and runs with few file descriptors; non-trivial: distinct (project, output) pairs",
	Assumptions: []string{"two builds with an output in common: the later one determines it"},
	Run: func(c *Ctx) {
		c.DoN("project", c.N(600, 12000), func(t *T, i int) {
			p := t.newProject(true)
			dir := t.scratch()
			defer os.RemoveAll(dir)
			outer, around := dir, map[string]string{}
			if t.P(1, 4) { // what directories above have is none of its business
				dir = filepath.Join(dir, t.Pick([]string{"inner", "a/b", "src/inner"}))
				os.MkdirAll(dir, 0755)
				for _, d := range []string{"", "a/", "src/"} {
					if st, err := os.Stat(filepath.Join(outer, d)); err == nil && st.IsDir() && t.P(2, 3) {
						around[d+t.Pick([]string{"cddlc.json", "cddlc.yaml"})] = t.Pick([]string{`{"version":"1","builds":[{"package":"outer","src":".","output":"outer"}]}`, `{"builds":[]}`, "{", ""})
						around[d+"outer.cddl"] = t.Pick([]string{"x = int\n", "x = ["})
					}
				}
				writeFiles(t, outer, around)
				t.Count("projects below others", 1)
			}
			writeFiles(t, dir, p.files)
			t.Input(p.text())
			before := snapshot(t, dir)
			unharmed := func() {
				for f, want := range around {
					if b, err := os.ReadFile(filepath.Join(outer, f)); err != nil || string(b) != want {
						t.Fail("%s above the project is %q, not %q", f, b, want)
					}
				}
				if len(around) == 0 {
					return
				}
				for _, d := range []string{"outer", "dist", "a/outer", "src/outer", "a/dist", "src/dist"} {
					if _, err := os.Lstat(filepath.Join(outer, d)); err == nil {
						t.Fail("%s appeared above the project", d)
					}
				}
			}
			args := []string{t.Pick([]string{"generate", "gen"})}
			if t.P(1, 6) {
				args = append(args, t.Pick([]string{"*/ x", "x --*/", "a b", "/* c", "\n", "//", "a*//*b", "**/*/**/x.cddl", "*/*/*/", "*/ \n*/\n", "\xff", "caf\xe9", "\ufeff", "\r", "`"}))
			}
			r := runIn(t, dir, args, cliOpts{})
			if r.code != 0 {
				t.Fail("generate fails: %s", r.stderr)
			}
			after := snapshot(t, dir)
			checkGenerated(t, p, before, after)
			unharmed()
			t.Count("configuration "+p.config, 1)
			t.Distinct(string(t.input))
			if len(p.want) == 0 {
				t.Count("projects without sources", 1)
			}
			if t.P(1, 2) { // a second run finds its own outputs, as they are or changed since
				for _, o := range sortedKeys(p.want) {
					f := filepath.Join(dir, o)
					b, err := os.ReadFile(f)
					if err != nil || len(b) == 0 {
						continue
					}
					switch k := t.Intn(len(b)); t.W(4, 1, 1, 1, 1, 1) {
					case 0:
						continue
					case 1:
						b = append(b, t.Pick([]string{"\n", "// more\n", "\x00", "}"})...)
					case 2:
						b = b[:k]
					case 3:
						b[k] ^= 1
					case 4:
						b = append([]byte("\n"), b...)
					case 5:
						b = append(b[:k:k], b[k+1:]...)
					}
					os.WriteFile(f, b, 0666)
					t.Count("outputs changed between runs", 1)
					if t.P(1, 2) {
						when := time.Now().Add(time.Duration(t.Range(-100, 100)) * time.Hour)
						os.Chtimes(f, when, when)
					}
				}
				r := runIn(t, dir, args, cliOpts{})
				if r.code != 0 {
					t.Fail("the second run fails: %s", r.stderr)
				}
				if d := diffSnap(after, snapshot(t, dir)); d != "" {
					t.Fail("the second run: %s", d)
				}
			}
			if t.P(1, 3) && len(p.want) > 0 { // change a source: its output follows
				p2 := *p
				p2.files = map[string]string{}
				for k, v := range p.files {
					p2.files[k] = v
				}
				p2.want = map[string]string{}
				for _, k := range sortedKeys(p.files) {
					if path.Ext(k) == ".cddl" && (t.P(1, 2)) && p.hasSource(k) {
						if src, _, ok := t.schemaFor("p"); ok {
							p2.files[k] = src
						}
					}
				}
				for _, b := range p.builds {
					for k, src := range p2.files {
						if path.Ext(k) == ".cddl" && path.Dir(k) == rel(b["src"]) {
							cddl, _ := parseSrc([]byte(src))
							out, err := generate(cddl, b["package"])
							if err != nil {
								panic(stopCase{})
							}
							p2.want[path.Join(rel(b["output"]), strings.TrimSuffix(path.Base(k), ".cddl")+".go")] = string(out)
						}
					}
				}
				for k, v := range p2.files {
					if path.Ext(k) == ".cddl" {
						writeFiles(t, dir, map[string]string{k: v})
					}
				}
				before := snapshot(t, dir)
				if r := runIn(t, dir, args, cliOpts{}); r.code != 0 {
					t.Fail("generate fails after a change of sources: %s", r.stderr)
				}
				checkGenerated(t, &p2, before, snapshot(t, dir))
				t.Count("changed sources generated again", 1)
			}
			if i < 3 {
				t.Sample("%d builds, configuration %s, %d files, outputs %v", len(p.builds), p.config, len(p.files), sortedKeys(p.want))
			}
		})
		// several runs at once, some of them killed
		c.DoN("together", c.N(160, 3000), func(t *T, i int) {
			p := t.newProject(true)
			if len(p.want) == 0 {
				return
			}
			dir := t.scratch()
			defer os.RemoveAll(dir)
			writeFiles(t, dir, p.files)
			t.Input(p.text())
			before := snapshot(t, dir)
			type proc struct {
				cmd    *exec.Cmd
				errb   bytes.Buffer
				killed bool
			}
			var ps []*proc
			kill, dead := i%2 == 1, 0
			for n := t.Range(2, 8); n > 0; n-- {
				q := &proc{cmd: exec.Command(c.CLI, "generate")}
				q.cmd.Dir, q.cmd.Stderr = dir, &q.errb
				if err := q.cmd.Start(); err != nil {
					t.Inconclusive("the command does not start: %v", err)
				}
				ps = append(ps, q)
				if kill && t.P(2, 3) {
					d := time.Duration(t.Intn(12000)) * time.Microsecond
					q.killed = true
					time.AfterFunc(d, func() { q.cmd.Process.Kill() })
				} else if t.P(1, 3) {
					time.Sleep(time.Duration(t.Intn(3000)) * time.Microsecond)
				}
			}
			for _, q := range ps {
				timer := time.AfterFunc(cliWall, func() { q.cmd.Process.Kill() })
				q.cmd.Wait()
				if !timer.Stop() {
					t.Inconclusive("a run does not end within %v", cliWall)
				}
				if code := q.cmd.ProcessState.ExitCode(); code == -1 && q.killed {
					dead++
				} else if code != 0 {
					t.Fail("one of %d runs at once ends with %d: %s", len(ps), code, clip(q.errb.String()))
				}
			}
			t.Rearm()
			t.Count("runs at once", len(ps))
			t.Count("runs killed", dead)
			if dead > 0 { // what a killed run has left does not keep the next one from its work
				left := snapshot(t, dir)
				if r := runIn(t, dir, []string{"generate"}, cliOpts{}); r.code != 0 {
					t.Fail("generate fails after a run that was killed: %s", r.stderr)
				}
				after := snapshot(t, dir)
				for _, k := range sortedKeys(before, after) {
					if _, ok := p.want[k]; ok {
						continue
					}
					if _, ok := before[k]; !ok { // made by a killed run
						delete(after, k)
						delete(left, k)
					}
				}
				checkGenerated(t, p, before, after)
				t.Distinct(fmt.Sprint("killed ", len(left)-len(before), " of ", len(p.want)))
				return
			}
			checkGenerated(t, p, before, snapshot(t, dir))
			t.Distinct(fmt.Sprint("together ", len(ps), " ", len(p.want)))
		})
		c.DoN("absolute", c.Pick(24, 300), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			src, want, ok := t.schemaFor("p")
			if !ok {
				return
			}
			os.MkdirAll(filepath.Join(dir, "far/x"), 0755)
			out := dir + t.Pick([]string{"/far/away/out", "/far/x/../away/out", "/far/../far/away/out", "//far/away//out/", "/./far/away/./out/.", "/far/away/out/", "/work/../far/away/out"})
			cfg := map[string]interface{}{"builds": []interface{}{map[string]string{"package": "p", "src": dir + t.Pick([]string{"/src", "/work/../src", "/src/", "/src/.", "//src", "/work/link"}), "output": out}}}
			if i%2 == 0 { // a way through a link
				cfg = map[string]interface{}{"builds": []interface{}{map[string]string{"package": "p", "src": "link", "output": "../far/away/out"}}}
			}
			b, _ := json.Marshal(cfg)
			writeFiles(t, dir, map[string]string{"work/cddlc.json": string(b), "src/s.cddl": src, "cddlc.json": "broken"})
			os.Symlink("../src", filepath.Join(dir, "work/link"))
			p := &project{want: map[string]string{"far/away/out/s.go": want}}
			before := snapshot(t, dir)
			if r := runIn(t, filepath.Join(dir, "work"), []string{"generate"}, cliOpts{}); r.code != 0 {
				t.Fail("generate fails: %s", r.stderr)
			}
			checkGenerated(t, p, before, snapshot(t, dir))
			t.Distinct("absolute", want)
		})
		c.DoN("large", 8, func(t *T, i int) {
			// sources that do not fit into any buffer, with definitions up to their end
			n := []int{4096, 65536, 1 << 18, 1 << 20, 1<<20 + 1<<19, 1 << 22, 1 << 23, 1 << 24}[i]
			var sb strings.Builder
			switch i % 4 {
			case 0:
				sb.WriteString("first = int\n;" + strings.Repeat("c", n) + "\n")
			case 1:
				sb.WriteString("first = \"" + strings.Repeat("t", n) + "\"\n")
			case 2:
				for k := 0; sb.Len() < min(n, 1<<20); k++ {
					fmt.Fprintf(&sb, "r%d = [a%d: int, b%d: tstr]\n", k, k, k)
				}
			case 3:
				sb.WriteString("first = int" + strings.Repeat(" \n", n/2) + "\n")
			}
			sb.WriteString("last = [z: first-or-last]\nfirst-or-last = uint\nend = 1")
			src := sb.String()
			cddl, errs := parseSrc([]byte(src))
			if len(errs) > 0 {
				t.Count("rejected", 1) // P03 decides
				return
			}
			out, err := generate(cddl, "big")
			if err != nil {
				return
			}
			dir := t.scratch()
			defer os.RemoveAll(dir)
			p := &project{files: map[string]string{"s/a.cddl": "a = int\n", "s/big.cddl": src, "s/z.cddl": "z = 1\n"}, want: map[string]string{"o/big.go": string(out)}, config: "json"}
			for _, nm := range []string{"a", "z"} {
				c, _ := parseSrc([]byte(p.files["s/"+nm+".cddl"]))
				o, err := generate(c, "big")
				if err != nil {
					return
				}
				p.want["o/"+nm+".go"] = string(o)
			}
			t.configure(p, []map[string]string{{"package": "big", "src": "s", "output": "o"}})
			writeFiles(t, dir, p.files)
			before := snapshot(t, dir)
			if r := runIn(t, dir, []string{"generate"}, cliOpts{}); r.code != 0 {
				t.Fail("generating a schema of %d bytes fails: %.300s", len(src), r.stderr)
			}
			checkGenerated(t, p, before, snapshot(t, dir))
			t.Distinct("large", fmt.Sprint(len(src)))
			t.Count("bytes of large schemas", len(src))
		})
		c.DoN("odd files", c.N(160, 5000), func(t *T, i int) { oddFiles(t, i) })
		c.DoN("many", c.Pick(3, 20), func(t *T, i int) {
			// far more sources than files may be open
			dir := t.scratch()
			defer os.RemoveAll(dir)
			p := &project{files: map[string]string{}, want: map[string]string{}, config: "json"}
			t.configure(p, []map[string]string{{"package": "q", "src": "s", "output": "o"}, {"package": "r", "src": "s", "output": "o2"}})
			n := []int{400, 1100, 150}[i%3]
			for k := 0; k < n; k++ {
				nm := fmt.Sprintf("f%03d", k)
				src := fmt.Sprintf("v%d = %d\nt%d = [a%d: int]\n", k, k, k, k)
				p.files["s/"+nm+".cddl"] = src
				cddl, _ := parseSrc([]byte(src))
				for _, d := range [][2]string{{"o", "q"}, {"o2", "r"}} {
					out, err := generate(cddl, d[1])
					if err != nil {
						t.Fail("generator: %v", err)
					}
					p.want[d[0]+"/"+nm+".go"] = string(out)
				}
			}
			writeFiles(t, dir, p.files)
			before := snapshot(t, dir)
			if r := runIn(t, dir, []string{"generate"}, cliOpts{nofd: 24}); r.code != 0 {
				t.Fail("generating %d schemas with 24 file descriptors fails: %s", n, r.stderr)
			}
			checkGenerated(t, p, before, snapshot(t, dir))
			t.Distinct("many", fmt.Sprint(n))
		})
		c.DoN("many builds", c.Pick(2, 12), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			p := &project{files: map[string]string{}, want: map[string]string{}, config: t.Pick([]string{"json", "yaml"})}
			var builds []map[string]string
			n := []int{40, 300}[i%2]
			for k := 0; k < n; k++ {
				pk := fmt.Sprintf("p%d", k)
				src := fmt.Sprintf("v%d = %d\nt%d = [a%d: int]\n", k, k, k, k)
				p.files[fmt.Sprintf("s%d/f.cddl", k)] = src
				cddl, _ := parseSrc([]byte(src))
				out, err := generate(cddl, pk)
				if err != nil {
					t.Fail("generator: %v", err)
				}
				p.want[fmt.Sprintf("o/d%d/f.go", k)] = string(out)
				builds = append(builds, map[string]string{"package": pk, "src": fmt.Sprintf("s%d", k), "output": fmt.Sprintf("o/d%d", k)})
			}
			t.configure(p, builds)
			writeFiles(t, dir, p.files)
			before := snapshot(t, dir)
			if r := runIn(t, dir, []string{"generate"}, cliOpts{}); r.code != 0 {
				t.Fail("generating %d builds fails: %s", n, r.stderr)
			}
			checkGenerated(t, p, before, snapshot(t, dir))
			t.Distinct("many builds", fmt.Sprint(n))
			t.Count("builds of long configurations", n)
		})
	}}

var oddNames = []string{"", ".", "..", ".hidden", "a.go", "a.cddl", "a.go.cddl", "a", "a.", "a..b", "~", "#a#", "a~", " ", " a", "a ", "A", "CDDL", "a.CDDL", "a.json", "cddlc", "doc", "a_test", "a_windows_amd64",
	"%s", "%d%!", "$HOME", "*", "[a]", "a;b", "a&b", "(a)", "'a'", "\"a\"", "`a`", "\\", "a\\b", "a\nb", "a\tb", "\xff", "caf\u00e9", "cafe\u0301", "\U0001f600", "-", "--", "-h", "--help", "go.mod", "main", "vendor", "testdata", "node_modules", "index", "init", "con", "nul", "1", "0", "2024-01-01", strings.Repeat("n", 250), "x.cddl.cddl", "x.y.z", "_", "_a", "@", "+", "a=b", "a:b", "a,b"}

// oddFiles has sources with unusual names, contents and kinds of files, and neighbours of the outputs
func oddFiles(t *T, i int) {
	dir := t.scratch()
	defer os.RemoveAll(dir)
	p := &project{files: map[string]string{}, want: map[string]string{}, config: t.Pick([]string{"json", "json", "yaml"})}
	pkg := t.Pick(pkgNames)
	out := t.Pick([]string{"out", "src", "deep/er/out", ".out", "src/out", "out.cddl", "linked-out"})
	srcDir := t.Pick([]string{"src", "src", "./src/", "src/.", "linked-src", "linked-src/"})
	if out == "linked-out" {
		p.files["real-out/keep"] = "k"
	}
	realOut := strings.Replace(out, "linked-out", "real-out", 1)
	links := map[string]string{}
	hard := map[string]string{}
	names := map[string]bool{}
	for n := t.Range(1, 6); n > 0; n-- {
		names[t.Pick(oddNames)] = true
	}
	for k, nm := range sortedSet(names) {
		src := t.Pick([]string{"", " ", "\n", "\n\n\r\n", "; only a comment", "; only a comment\n;another", "a = int", "a = int\n\n"})
		if t.P(1, 2) {
			s, _, ok := t.schemaFor(pkg)
			if !ok {
				return
			}
			src = s
		}
		cddl, errs := parseSrc([]byte(src))
		if len(errs) > 0 {
			return // P03 decides
		}
		b, err := generate(cddl, pkg)
		if err != nil {
			return
		}
		s := "src/" + nm + ".cddl"
		store := fmt.Sprintf("store/s%d", k) + t.Pick([]string{"", ".cddl", ".txt"})
		switch t.W(5, 2, 1, 1) {
		case 0:
			p.files[s] = src
		case 1:
			p.files[store] = src
			links[s] = "../" + store
		case 2: // over two links
			p.files[store] = src
			links[s] = fmt.Sprintf("../store/l%d", k)
			links[fmt.Sprintf("store/l%d", k)] = path.Base(store)
		default:
			p.files[store] = src
			hard[s] = store
		}
		o := path.Join(realOut, nm+".go")
		p.want[o] = string(b)
		switch t.W(4, 1, 1, 1, 1) {
		case 0:
		case 1:
			p.files[o] = ""
		case 2: // very long
			p.files[o] = "package " + pkg + "\n" + strings.Repeat("// older\n", []int{10, 4000, 400000}[t.Intn(3)])
		case 3: // the same but for a bit
			p.files[o] = "/*\n*/\n\n" + p.want[o]
		default: // of the same length
			p.files[o] = strings.Repeat("x", len(p.want[o]))
		}
		// neighbours
		for _, f := range []string{nm + ".go~", nm + ".go.bak", nm + ".go.tmp", nm + ".go.orig", "." + nm + ".go.swp", nm + ".tmp", nm + ".cddl.go", nm, nm + "_test.go", nm + ".go.go", "#" + nm + ".go#", nm + ".go.lock", nm + ".new", ".#" + nm + ".go"} {
			if f != "" && f != "." && f != ".." && len(f) < 250 && path.Ext(f) != ".cddl" && t.P(1, 4) && p.want[path.Join(realOut, f)] == "" && !names[strings.TrimSuffix(f, ".go")] {
				p.files[path.Join(realOut, f)] = "mine " + f
			}
		}
		for _, f := range []string{nm + ".cddl~", nm + ".cddl.bak", nm + ".cddl.tmp", nm + ".CDDL", nm + ".cddl.orig"} {
			if len(f) < 250 && t.P(1, 4) {
				p.files["src/"+f] = "mine ("
			}
		}
	}
	for _, f := range []string{"go.mod", "doc.go", ".gitignore", "Makefile", "tmp", "cddlc.tmp", ".cddlc", "cddlc.log"} {
		if t.P(1, 5) {
			p.files[path.Join(t.Pick([]string{".", "src", realOut}), f)] = "mine"
		}
	}
	t.configure(p, []map[string]string{{"package": pkg, "src": srcDir, "output": out}})
	for f := range p.files { // a name is a file or a directory
		for d := path.Dir(f); d != "."; d = path.Dir(d) {
			if _, ok := p.files[d]; ok {
				return
			}
			if _, ok := p.want[d]; ok {
				return
			}
		}
	}
	for f := range p.want {
		for d := path.Dir(f); d != "."; d = path.Dir(d) {
			if _, ok := p.files[d]; ok {
				return
			}
			if _, ok := p.want[d]; ok {
				return
			}
		}
	}
	writeFiles(t, dir, p.files)
	os.MkdirAll(filepath.Join(dir, "src"), 0755)
	for l, to := range links {
		if err := os.Symlink(to, filepath.Join(dir, l)); err != nil {
			t.Inconclusive("%v", err)
		}
	}
	for l, to := range hard {
		if err := os.Link(filepath.Join(dir, to), filepath.Join(dir, l)); err != nil {
			t.Inconclusive("%v", err)
		}
	}
	os.Symlink("src", filepath.Join(dir, "linked-src"))
	if out == "linked-out" {
		os.Symlink("real-out", filepath.Join(dir, "linked-out"))
	}
	// what age they have does not matter
	for f := range p.files {
		if t.P(1, 3) {
			when := time.Unix(int64(t.Intn(1<<31))*2, 0)
			os.Chtimes(filepath.Join(dir, f), when, when)
		}
		if t.P(1, 8) {
			os.Chmod(filepath.Join(dir, f), os.FileMode([]int{0400, 0600, 0755, 0666}[t.Intn(4)]))
		}
	}
	t.Input(p.text())
	before := snapshot(t, dir)
	if r := runIn(t, dir, []string{"generate"}, cliOpts{}); r.code != 0 {
		t.Fail("generate fails for %q: %s", sortedSet(names), r.stderr)
	}
	checkGenerated(t, p, before, snapshot(t, dir))
	t.Count("unusual names", len(names))
	t.Count("sources that are links", len(links))
	for nm := range names {
		t.Distinct("odd", nm, out, srcDir)
	}
}

func (p *project) hasSource(k string) bool {
	for _, b := range p.builds {
		if path.Dir(k) == rel(b["src"]) {
			return true
		}
	}
	return false
}

// C02 -------------------------------------------------------------------------------------------------------

// badSchema returns a schema that cannot be generated
func (t *T) badSchema() (src, why string) {
	for try := 0; try < 50; try++ {
		switch t.Intn(6) {
		case 4: // one defect and nothing else
			good, _, _ := t.schemaFor("p")
			name := strings.TrimSpace(strings.SplitN(good+"=", "=", 2)[0])
			src, why = good+"\n"+t.Pick([]string{"zz_d = int\nzz_d = int\n", "zz_r = zz_q\n", "zz_r = 1..2.5\n", "zz_i = 1\nzz_f = 2.5\nzz_r = zz_i..zz_f\n", "zz_t = \"open\n", "zz_d = tstr zz_e = bstr zz_d = tstr\n", "zz_r = [a: zz_q]\n", "zz_n = 99999999999999999999\n"}), "one defect"
			if name != "" && t.P(1, 4) && !strings.ContainsAny(name, "; \t\r\n\"") {
				src = good + "\n" + name + " = int\n"
			}
		case 5: // bytes that do not belong
			good, _, _ := t.schemaFor("p")
			odd := t.Pick([]string{"\ufeff", "\xff\xfe", "\x00", "\x1a", "\x04", "\f", "\v", "\u00a0", "\u200b", "\u2028", "\u0085", "\x7f", "\\", "\r\x00", "-", "!", "'", "`", "%", "|", "^"})
			src, why = good+odd, "odd bytes"
			if t.P(1, 2) {
				src = odd + good
			}
		case 0: // a syntax error or an undeclared name somewhere
			_, tx := genText(t.Rand)
			src, why = string(mutateTokens(t.Rand, tx)), "syntax"
		case 1:
			good, _, _ := t.schemaFor("p")
			src, why = good+t.Pick([]string{"\nx_q = undeclared_name\n", "\nx_q = [a: undeclared_name]\n", "\nx_q = \"open\n", "\n\xff\n", "\nx_q =", "\nx_q = [", "\n)", "\nx_q = 1..\n", "\nx_q = int .foo 3\n"}), "appended"
		case 2:
			src, why = t.Pick([]string{"x = { a: int }\n", "x = int / tstr\n", "x = [* int]\n", "x = #6.1(int)\n", "x = 1..5\n", "x = &(a: 1)\n", "x = tstr .regexp \"a\"\n", "x = [a: {b: int}]\n", "x = [? a: int]\n"}), "unsupported"
			src = "ok = int\n" + src
		case 3:
			good, _, _ := t.schemaFor("p")
			src, why = t.Pick([]string{"x = 1 2 3\n", "= int\n", "\"t\" = int\n", "x == int\n", "\x00"})+good, "prepended"
		}
		cddl, errs := parseSrc([]byte(src))
		if len(errs) > 0 {
			return src, why + ": rejected"
		}
		if _, err := generate(cddl, "p"); err != nil {
			return src, why + ": not generated"
		}
	}
	return "x = [", "fallback"
}

// checkLoud checks how a failing command has to end
func checkLoud(t *T, r cliResult, why string) {
	if r.crashed() {
		t.Fail("%s: crash: %s", why, r.stderr)
	}
	if r.code == 0 {
		t.Fail("%s: the command ends successfully", why)
	}
	if r.message() == "" {
		t.Fail("%s: there is no message", why)
	}
}

var propC02 = &Property{ID: "C02", CLI: true, Level: "fault_enumeration",
	Rule:        "projects with one or more defects at every position (builds, files): schemas of every kind of defect, configurations, directories and links that cannot be used, writes failing after every number of bytes (file size limit, full device), too few file descriptors; exit status, message, crash traces and the tree before and after; non-trivial: distinct (fault, position, outcome)",
	Assumptions: []string{"an output whose own write fails may be incomplete, the failure is reported"},
	Run: func(c *Ctx) {
		c.DoN("schema", c.N(500, 10000), func(t *T, i int) {
			p := t.newProject(true)
			var srcs []string
			for _, k := range sortedKeys(p.files) {
				if path.Ext(k) == ".cddl" && p.hasSource(k) && p.used(k) {
					srcs = append(srcs, k)
				}
			}
			if len(srcs) == 0 {
				return
			}
			bad := map[string]string{}
			for n := t.W(0, 5, 2); n > 0; n-- {
				k := srcs[(i+n)%len(srcs)]
				p.files[k], bad[k] = t.badSchema()
			}
			dir := t.scratch()
			defer os.RemoveAll(dir)
			writeFiles(t, dir, p.files)
			t.Input(p.text())
			before := snapshot(t, dir)
			r := runIn(t, dir, []string{"generate"}, cliOpts{})
			checkLoud(t, r, fmt.Sprint(bad))
			after := snapshot(t, dir)
			mayChange := map[string]string{}
			for _, b := range p.builds {
				for _, k := range srcs {
					if path.Dir(k) != rel(b["src"]) || bad[k] != "" {
						continue
					}
					o := path.Join(rel(b["output"]), strings.TrimSuffix(path.Base(k), ".cddl")+".go")
					cddl, _ := parseSrc([]byte(p.files[k]))
					out, err := generate(cddl, b["package"])
					if err != nil {
						panic(stopCase{})
					}
					mayChange[o+"\x00"+b["package"]] = string(out)
				}
			}
			for _, k := range sortedKeys(before, after) {
				if before[k] == after[k] {
					continue
				}
				if strings.HasPrefix(after[k], "dir ") {
					continue
				}
				content, isFile := fileContent(after[k])
				ok := false
				for o, want := range mayChange {
					ok = ok || isFile && strings.HasPrefix(o, k+"\x00") && checkOutput(t, k, content, want) == ""
				}
				if !ok {
					t.Fail("with %v, %s changes from\n%s\nto\n%s", bad, k, clip(before[k]), clip(after[k]))
				}
				t.Count("outputs of correct schemas replaced", 1)
			}
			for k, w := range bad {
				t.Count("defect "+w, 1)
				t.Distinct(k, p.files[k])
			}
			if i < 4 {
				t.Sample("%v: exit %d, %.200q", bad, r.code, r.stderr)
			}
		})
		type fault struct {
			name string
			make func(t *T, dir string, p *project)
		}
		b0 := []map[string]string{{"package": "p", "src": "s", "output": "o"}, {"package": "q", "src": "s2", "output": "o2/deep"}}
		js := func(builds string) map[string]string {
			return map[string]string{"cddlc.json": `{"version":"1","builds":[` + builds + `]}`}
		}
		bld := func(src, out string) string {
			return fmt.Sprintf(`{"package":"p","src":%q,"output":%q}`, src, out)
		}
		ok1, ok2 := bld("s", "o"), `{"package":"q","src":"s2","output":"o2/deep"}`
		write := func(m map[string]string) func(*T, string, *project) {
			return func(t *T, dir string, p *project) { writeFiles(t, dir, m) }
		}
		faults := []fault{
			{"broken json", write(map[string]string{"cddlc.json": "{"})},
			{"empty json", write(map[string]string{"cddlc.json": ""})},
			{"json of another type", write(map[string]string{"cddlc.json": "[]"})},
			{"null build", write(js(ok1 + ",null"))},
			{"broken yaml", func(t *T, dir string, p *project) {
				os.Remove(filepath.Join(dir, "cddlc.json"))
				writeFiles(t, dir, map[string]string{"cddlc.yaml": "builds: ["})
			}},
			{"broken json before yaml", write(map[string]string{"cddlc.json": "nonsense", "cddlc.yaml": "builds: []\n"})},
			{"configuration is a directory", func(t *T, dir string, p *project) {
				os.Remove(filepath.Join(dir, "cddlc.json"))
				os.Mkdir(filepath.Join(dir, "cddlc.json"), 0755)
			}},
			{"first source missing", write(js(bld("none", "o") + "," + ok2))},
			{"second source missing", write(js(ok1 + "," + bld("none", "o")))},
			{"source is a file", write(js(ok1 + "," + bld("s/a.cddl", "o9")))},
			{"source is empty", write(js(ok1 + "," + bld("", "o9")))},
			{"source is a dangling link", func(t *T, dir string, p *project) {
				os.Symlink("nowhere", filepath.Join(dir, "lnk"))
				writeFiles(t, dir, js(ok1+","+bld("lnk", "o9")))
			}},
			{"output is a file", func(t *T, dir string, p *project) {
				writeFiles(t, dir, js(ok1+","+bld("s2", "fileout")))
				writeFiles(t, dir, map[string]string{"fileout": "content"})
			}},
			{"parent of the output is a file", func(t *T, dir string, p *project) {
				writeFiles(t, dir, js(ok1+","+bld("s2", "fileout/x/y")))
				writeFiles(t, dir, map[string]string{"fileout": "content"})
			}},
			{"output file is a directory", func(t *T, dir string, p *project) {
				os.Remove(filepath.Join(dir, "o2/deep/c.go"))
				writeFiles(t, dir, map[string]string{"o2/deep/c.go/keep": "k"})
			}},
			{"output file in a missing directory", func(t *T, dir string, p *project) {
				os.MkdirAll(filepath.Join(dir, "o"), 0755)
				os.Remove(filepath.Join(dir, "o/b.go"))
				os.Symlink("none/such/x.go", filepath.Join(dir, "o/b.go"))
			}},
			{"schema is a dangling link", func(t *T, dir string, p *project) {
				os.Symlink("nowhere", filepath.Join(dir, "s/ab.cddl"))
			}},
			{"schema is a link to itself", func(t *T, dir string, p *project) {
				os.Symlink("ab.cddl", filepath.Join(dir, "s/ab.cddl"))
			}},
			{"device full", func(t *T, dir string, p *project) {
				os.MkdirAll(filepath.Join(dir, "o"), 0755)
				os.Remove(filepath.Join(dir, "o/b.go"))
				os.Symlink("/dev/full", filepath.Join(dir, "o/b.go"))
			}},
			{"device full at the end", func(t *T, dir string, p *project) {
				os.MkdirAll(filepath.Join(dir, "o2/deep"), 0755)
				os.Remove(filepath.Join(dir, "o2/deep/c.go"))
				os.Symlink("/dev/full", filepath.Join(dir, "o2/deep/c.go"))
			}},
		}
		small := func(t *T) *project {
			p := &project{files: map[string]string{}, want: map[string]string{}, config: "json", builds: b0}
			t.configure(p, b0)
			for k, s := range map[string]string{"s/a": "a0 = int\n", "s/b": "b0 = [x: tstr, y: float]\n", "s2/c": "c0 = 5\nc1 = bool\n"} {
				p.files[k+".cddl"] = s
				cddl, _ := parseSrc([]byte(s))
				d, pkg := "o", "p"
				if strings.HasPrefix(k, "s2") {
					d, pkg = "o2/deep", "q"
				}
				out, err := generate(cddl, pkg)
				if err != nil {
					t.Fail("generator: %v", err)
				}
				p.want[d+"/"+path.Base(k)+".go"] = string(out)
			}
			if t.P(1, 2) {
				p.files["o/a.go"], p.files["o/b.go"], p.files["o2/deep/c.go"] = "older a", "older b", "older c"
			}
			return p
		}
		// partial checks that every file is either as before or completely new; except may be anything
		partial := func(t *T, p *project, dir string, before map[string]string, except string, why string) {
			after := snapshot(t, dir)
			for _, k := range sortedKeys(before, after) {
				if before[k] == after[k] || k == except || strings.HasPrefix(after[k], "dir ") {
					continue
				}
				content, isFile := fileContent(after[k])
				want, isOut := p.want[k]
				if !isFile || !isOut || checkOutput(t, k, content, want) != "" {
					t.Fail("%s: %s changes from\n%s\nto\n%s", why, k, clip(before[k]), clip(after[k]))
				}
			}
		}
		c.DoN("fault", len(faults)*c.Pick(4, 20), func(t *T, i int) {
			f := faults[i%len(faults)]
			p := small(t)
			dir := t.scratch()
			defer os.RemoveAll(dir)
			writeFiles(t, dir, p.files)
			f.make(t, dir, p)
			before := snapshot(t, dir)
			r := runIn(t, dir, []string{t.Pick([]string{"generate", "gen"})}, cliOpts{})
			checkLoud(t, r, f.name)
			partial(t, p, dir, before, "", f.name)
			t.Count("faults observed", 1)
			t.Distinct("fault", f.name)
			if i < 2 {
				t.Sample("%s: %.200q", f.name, r.stderr)
			}
		})
		// what a user may not read or write
		chmod := func(mode os.FileMode, names ...string) func(*T, string, *project) {
			return func(t *T, dir string, p *project) {
				for _, n := range names {
					f := filepath.Join(dir, n)
					if _, err := os.Lstat(f); err != nil {
						t.Inconclusive("%v", err)
					}
					os.Chmod(f, mode)
				}
			}
		}
		denied := []fault{
			{"unreadable configuration", chmod(0, "cddlc.json")},
			{"unreadable configuration before another", func(t *T, dir string, p *project) {
				writeFiles(t, dir, map[string]string{"cddlc.yaml": "builds: []\n"})
				chmod(0200, "cddlc.json")(t, dir, p)
			}},
			{"unreadable schema", chmod(0, "s/a.cddl")},
			{"unreadable last schema", chmod(0333, "s2/c.cddl")},
			{"unreadable second schema", chmod(0, "s/b.cddl")},
			{"unreadable source directory", chmod(0111, "s")},
			{"source directory that can not be entered", chmod(0444, "s2")},
			{"closed source directory", chmod(0, "s2")},
			{"closed parent of the source directory", func(t *T, dir string, p *project) {
				writeFiles(t, dir, js(ok1+","+bld("in/s3", "o9")))
				writeFiles(t, dir, map[string]string{"in/s3/x.cddl": "x = int\n"})
				os.Chmod(filepath.Join(dir, "in"), 0)
			}},
			{"output that can not be written", chmod(0444, "o/b.go")},
			{"first output that can not be written", chmod(0444, "o/a.go")},
			{"last output that can not be written", chmod(0, "o2/deep/c.go")},
			{"output directory that can not be written", func(t *T, dir string, p *project) {
				os.Remove(filepath.Join(dir, "o/b.go"))
				os.Chmod(filepath.Join(dir, "o"), 0555)
			}},
			{"closed output directory", chmod(0, "o2/deep")},
			{"closed parent of the output directory", chmod(0, "o2")},
			{"output directory that can not be created", func(t *T, dir string, p *project) {
				os.RemoveAll(filepath.Join(dir, "o2/deep"))
				os.Chmod(filepath.Join(dir, "o2"), 0555)
			}},
			{"output directory that can not be created here", func(t *T, dir string, p *project) {
				os.RemoveAll(filepath.Join(dir, "o"))
				os.Chmod(dir, 0555)
			}},
			{"output of someone else", func(t *T, dir string, p *project) {
				os.Lchown(filepath.Join(dir, "o/b.go"), 0, 0)
				os.Chmod(filepath.Join(dir, "o/b.go"), 0644)
				os.Lchown(filepath.Join(dir, "o"), 0, 0)
				os.Chmod(filepath.Join(dir, "o"), 0755)
			}},
		}
		c.DoN("denied", len(denied)*c.Pick(2, 10), func(t *T, i int) {
			f := denied[i%len(denied)]
			p := small(t)
			p.files["o/a.go"], p.files["o/b.go"], p.files["o2/deep/c.go"] = "older a", "older b", "older c"
			dir := t.scratch()
			defer func() {
				filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
					if fi != nil && fi.IsDir() {
						os.Chmod(p, 0755)
					}
					return nil
				})
				os.RemoveAll(dir)
			}()
			writeFiles(t, dir, p.files)
			giveAway(t, dir)
			if !reachable(dir) {
				t.Count("unprivileged commands are not possible here", 1)
				return
			}
			f.make(t, dir, p)
			before := snapshot(t, dir)
			r := runIn(t, dir, []string{t.Pick([]string{"generate", "gen"})}, cliOpts{user: true})
			checkLoud(t, r, f.name)
			partial(t, p, dir, before, "", f.name)
			t.Count("denied accesses observed", 1)
			t.Distinct("denied", f.name)
		})
		c.DoN("write", c.Pick(16, 64), func(t *T, i int) {
			p := small(t)
			total := int64(0)
			for _, w := range p.want {
				if n := int64(len(w)) + 90; n > total {
					total = n
				}
			}
			step := int64(c.Pick(29, 3))
			for lim := int64(i)*step/16 + int64(i)%2; lim <= total; lim += step {
				dir := t.scratch()
				writeFiles(t, dir, p.files)
				before := snapshot(t, dir)
				fs := lim
				if fs == 0 {
					fs = -1
				}
				r := runIn(t, dir, []string{"generate"}, cliOpts{fsize: fs})
				after := snapshot(t, dir)
				if r.code == 0 {
					checkGenerated(t, p, before, after)
					t.Count("complete within the limit", 1)
				} else {
					checkLoud(t, r, fmt.Sprint("a limit of ", lim, " bytes"))
					// at most one output, the one that failed, may be incomplete
					broken := 0
					for _, k := range sortedKeys(before, after) {
						if before[k] == after[k] || strings.HasPrefix(after[k], "dir ") {
							continue
						}
						content, _ := fileContent(after[k])
						want, isOut := p.want[k]
						if !isOut {
							t.Fail("with a limit of %d bytes, %s changes to %s", lim, k, clip(after[k]))
						}
						if checkOutput(t, k, content, want) != "" {
							broken++
						}
					}
					if broken > 1 {
						t.Fail("with a limit of %d bytes, %d outputs are incomplete: generating goes on after a failure", lim, broken)
					}
					t.Count("failed writes", 1)
				}
				t.Distinct("limit", fmt.Sprint(lim, r.code))
				t.Eval()
				os.RemoveAll(dir)
			}
		})
	}}

func (p *project) used(k string) bool {
	for _, b := range p.builds {
		if path.Dir(k) == rel(b["src"]) {
			if _, ok := p.want[path.Join(rel(b["output"]), strings.TrimSuffix(path.Base(k), ".cddl")+".go")]; ok {
				return true
			}
		}
	}
	return false
}

// C03 -------------------------------------------------------------------------------------------------------

func lexListing(src []byte) (out string, illegal bool) {
	var sb strings.Builder
	l := lexer.NewLexer(src)
	for {
		tok, pos, lit := l.Scan()
		fmt.Fprintf(&sb, "%s: %s -> %s\n", pos, tok, lit)
		if tok == token.ILLEGAL {
			illegal = true
		}
		if tok == token.EOF {
			return sb.String(), illegal
		}
	}
}

// compactJSON removes the white space between the tokens of a JSON text of any depth
func compactJSON(s string) string {
	out := make([]byte, 0, len(s))
	in, esc := false, false
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case in:
			out = append(out, ch)
			if esc {
				esc = false
			} else if ch == '\\' {
				esc = true
			} else if ch == '"' {
				in = false
			}
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r':
		default:
			out = append(out, ch)
			in = ch == '"'
		}
	}
	return string(out)
}

func cliSource(t *T, i int) []byte {
	switch i % 8 {
	case 0, 1:
		_, tx := genText(t.Rand)
		return tx.Src
	case 2:
		_, tx := genText(t.Rand)
		return mutateBytes(t.Rand, tx.Src)
	case 3:
		_, tx := genText(t.Rand)
		return mutateTokens(t.Rand, tx)
	case 4:
		return fragSoup(t.Rand, 60)
	case 5:
		return randBytes(t.Rand, t.Intn(200))
	case 6:
		_, tx := t.codegen(i / 8)
		return tx.Src
	}
	switch i / 8 {
	case 0:
		return nil
	case 1:
		return []byte("x = int") // no line break at the end
	case 2:
		return []byte("\n\n\n")
	case 3:
		return bytes.Repeat([]byte("n = [a: int, b: missing]\n"), 300)
	case 4:
		return bytes.Repeat([]byte("x"), 300000)
	case 5:
		return []byte("x = %d %s %!v(MISSING) \"%s\" ; %d\n")
	case 6:
		return []byte("\xef\xbb\xbfx = int\n")
	case 8:
		return bytes.Repeat([]byte("! !\n"), 2048)
	case 9:
		return bytes.Repeat([]byte("\"open\n"), 3000)
	case 10:
		return bytes.Repeat([]byte("x = = !\n% ^ a\n"), 400)
	case 11:
		return bytes.Repeat([]byte("||\n"), 3000)
	case 7:
		return []byte("x = \"<a&b>\\\"\"\ny = \"\u2028\"\n")
	}
	s, tx := genText(t.Rand)
	_ = s
	return append(append([]byte{}, tx.Src...), t.Pick([]string{"", "\r\n", " ; end", "= ", "\"", "x ="})...)
}

var propC03 = &Property{ID: "C03", CLI: true,
	Rule:        "sources of all kinds given to both commands under many file names: the listing is compared line by line with the library's tokens, the tree and every diagnostic with those of the library's parser; missing files, directories, links and wrong numbers of arguments; the directory is compared before and after; non-trivial: distinct sources reported on",
	Assumptions: []string{"the layout of a diagnostic around its text is not specified", "the exit status of the parsing command for a file with errors is not specified"},
	Run: func(c *Ctx) {
		report := func(t *T, i int, src []byte, kind string) {
			name := t.Pick([]string{"s.cddl", "no extension", "a.txt", "日本.cddl", "dir/x.cddl", "-", "x.cddl.", "%s%d"})
			args := []string{name}
			if name == "-" {
				args = []string{"./-"}
			}
			dir := t.scratch()
			defer os.RemoveAll(dir)
			writeFiles(t, dir, map[string]string{name: string(src), "cddlc.json": "broken"})
			if t.P(1, 4) {
				args[0] = filepath.Join(dir, name)
			}
			t.Input(src)
			feed := func() func() { return func() {} }
			switch path := filepath.Join(dir, name); kind {
			case "pipe": // written to while it is read, for each command again
				os.Remove(path)
				if err := syscall.Mkfifo(path, 0644); err != nil {
					t.Inconclusive("no named pipe: %v", err)
				}
				feed = func() func() {
					end := make(chan struct{})
					go func() {
						defer close(end)
						f, err := os.OpenFile(path, os.O_WRONLY, 0) // waits for the reader
						if err != nil {
							return
						}
						defer f.Close()
						for rest := src; len(rest) > 0; {
							n, err := f.Write(rest[:min(len(rest), 1+len(src)/3)])
							if err != nil {
								return
							}
							rest = rest[n:]
							time.Sleep(2 * time.Millisecond)
						}
					}()
					return func() { // lets go a writer that nobody has read from
						for {
							select {
							case <-end:
								return
							case <-time.After(2 * time.Millisecond):
							}
							if f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
								time.Sleep(time.Millisecond)
								f.Close()
							}
						}
					}
				}
			case "symlink":
				os.Rename(path, filepath.Join(dir, "target"))
				os.Symlink(filepath.Join(dir, "target"), path)
			case "stdin":
				args[0] = "/dev/stdin"
			}
			opts := cliOpts{}
			if kind == "stdin" {
				opts.stdin = string(src)
			}
			before := snapshot(t, dir)
			want, illegal := lexListing(src)
			done := feed()
			r := runIn(t, dir, append([]string{"lex"}, args...), opts)
			done()
			if r.crashed() {
				t.Fail("lex crashes: %s", r.stderr)
			}
			if r.stdout != want {
				t.Fail("lex prints\n%s\nthe library yields\n%s", diffLines(r.stdout, want), clip(want))
			}
			if (r.code != 0) != illegal {
				t.Fail("lex exits with %d, illegal tokens: %v", r.code, illegal)
			}
			t.Count("token lines compared", strings.Count(want, "\n"))
			cddl, errs := parseSrc(src)
			b, err := json.Marshal(cddl)
			done = feed()
			r = runIn(t, dir, append([]string{"parse"}, args...), opts)
			done()
			if r.crashed() {
				t.Fail("parse crashes: %s", r.stderr)
			}
			if err == nil {
				if got := compactJSON(r.stdout); got != string(b) {
					t.Fail("parse prints the tree\n%s\nthe library yields\n%s", diffAt(got, string(b)), clip(string(b)))
				}
				t.Count("trees compared", 1)
			}
			counts := map[string]int{}
			for _, e := range errs {
				counts[e.Error()]++
			}
			for msg, n := range counts {
				if k := strings.Count(r.stderr, msg); k < n {
					t.Fail("parse reports the diagnostic %q %d times instead of %d:\n%s", msg, k, n, clip(r.stderr))
				}
				t.Count("diagnostics compared", n)
			}
			if err != nil { // too deep
				checkLoud(t, r, "parse of a tree that can not be encoded")
				t.Count("trees that can not be encoded", 1)
			} else if len(errs) == 0 && (r.code != 0 || strings.TrimSpace(r.stderr) != "") {
				t.Fail("parse exits with %d and %q for a file without errors", r.code, r.stderr)
			}
			if d := diffSnap(before, snapshot(t, dir)); d != "" {
				t.Fail("the commands change files: %s", d)
			}
			t.Distinct(string(src))
			if i < 3 {
				t.Sample("%.150q: %d token lines, %d diagnostics", src, strings.Count(want, "\n"), len(errs))
			}
		}
		c.DoN("report", c.N(640, 16000), func(t *T, i int) {
			report(t, i, cliSource(t, i), t.Pick([]string{"", "", "", "symlink", "stdin"}))
		})
		c.DoN("special", c.Pick(60, 600), func(t *T, i int) {
			src := cliSource(t, i+3)
			if len(src) == 0 {
				return
			}
			report(t, i, src, "pipe")
			t.Count("sources in named pipes", 1)
		})
		// long listings, trees and lists of diagnostics
		c.DoN("large", c.Pick(18, 60), func(t *T, i int) {
			var src []byte
			n := t.Range(3000, 9000)
			switch i % 6 {
			case 5:
				n := []int{500, 6000, 20000}[(i/6)%3]
				op := t.Pick([]string{"[ ]", "{ }", "( )", "#6.1( )", "& ", "~ "})
				a, b, _ := strings.Cut(op, " ")
				src = []byte("x = " + strings.Repeat(a, n) + "int" + strings.Repeat(b, n) + "\n")
			case 0:
				s := bigSchema(t.Rand, i, 3)
				l := layouts[t.Intn(len(layouts))]
				src = Render(Print(s, t.Rand, t.Intn(3)), &l, t.Rand).Src
			case 1:
				for k := 0; k < n; k++ {
					src = append(src, fmt.Sprintf("n%d = [a: int, b: tstr] ; %d\n", k, k)...)
				}
			case 2:
				for k := 0; k < n; k++ {
					src = append(src, fmt.Sprintf("n%d = u%d\n", k, k)...)
				}
			case 3:
				src = []byte("x = \"" + strings.Repeat(t.Pick([]string{"t", "<", "é", "\x01", "\xff"}), 300*n) + "\"\n")
			case 4:
				for len(src) < 200000 {
					_, tx := genText(t.Rand)
					src = append(append(src, tx.Src...), '\n')
				}
			}
			report(t, i+3, src, "")
			t.Count("large sources", 1)
		})
		c.DoN("usage", c.Pick(40, 120), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			writeFiles(t, dir, map[string]string{"a.cddl": "a = int\n", "b.cddl": "b = int\n"})
			os.Mkdir(filepath.Join(dir, "d.cddl"), 0755)
			os.Symlink("nowhere", filepath.Join(dir, "l.cddl"))
			os.Symlink("o.cddl", filepath.Join(dir, "o.cddl"))
			cmds := []string{"lex", "parse"}
			sets := [][]string{{}, {"none.cddl"}, {"d.cddl"}, {"l.cddl"}, {"o.cddl"}, {"a.cddl", "b.cddl"}, {"a.cddl", "a.cddl", "a.cddl"}, {""}, {"a.cddl/x"}, {"a.cddl", ""}, {strings.Repeat("x", 300)}, {"."}}
			cmd, set := cmds[i%2], sets[(i/2)%len(sets)]
			before := snapshot(t, dir)
			r := runIn(t, dir, append([]string{cmd}, set...), cliOpts{})
			checkLoud(t, r, fmt.Sprintf("%s %q", cmd, set))
			if strings.Contains(r.stdout, "->") || strings.Contains(r.stdout, "Rules") {
				t.Fail("%s %q reports on something: %s", cmd, set, r.stdout)
			}
			if d := diffSnap(before, snapshot(t, dir)); d != "" {
				t.Fail("%s %q changes files: %s", cmd, set, d)
			}
			t.Distinct(cmd, strings.Join(set, "\x00"))
		})
		c.DoN("denied", 8, func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			writeFiles(t, dir, map[string]string{"a.cddl": "a = int\n", "d/b.cddl": "b = int\n"})
			giveAway(t, dir)
			if !reachable(dir) {
				t.Count("unprivileged commands are not possible here", 1)
				return
			}
			cmd, file := []string{"lex", "parse"}[i%2], "a.cddl"
			if i%4 < 2 {
				os.Chmod(filepath.Join(dir, file), []os.FileMode{0, 0333}[i/4])
			} else {
				file = "d/b.cddl"
				os.Chmod(filepath.Join(dir, "d"), []os.FileMode{0, 0666}[i/4])
			}
			before := snapshot(t, dir)
			r := runIn(t, dir, []string{cmd, file}, cliOpts{user: true})
			checkLoud(t, r, fmt.Sprintf("%s of the unreadable %s", cmd, file))
			if strings.Contains(r.stdout, "->") || strings.Contains(r.stdout, "Rules") {
				t.Fail("%s of the unreadable %s reports on something: %s", cmd, file, r.stdout)
			}
			if d := diffSnap(before, snapshot(t, dir)); d != "" {
				t.Fail("%s of an unreadable file changes files: %s", cmd, d)
			}
			t.Count("unreadable files", 1)
			t.Distinct("denied", cmd, file, fmt.Sprint(i))
		})
	}}

func diffLines(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range g {
		if i >= len(w) || g[i] != w[i] {
			o := "(nothing)"
			if i < len(w) {
				o = w[i]
			}
			return fmt.Sprintf("line %d: %q instead of %q", i+1, g[i], o)
		}
	}
	return fmt.Sprintf("%d lines instead of %d", len(g), len(w))
}

func diffAt(got, want string) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	lo := max(0, n-60)
	return fmt.Sprintf("…%s… instead of …%s…", got[lo:min(len(got), n+100)], want[lo:min(len(want), n+100)])
}

// C04 -------------------------------------------------------------------------------------------------------

const prompt = ">>> "

// session is a list of lines with the answers they have to get; an answer is skipped if it is unspecified
type answer struct {
	line string
	want string
	skip bool
}

func runSession(t *T, lines []answer, lex bool) {
	var in strings.Builder
	for _, l := range lines {
		in.WriteString(l.line + "\n")
	}
	in.WriteString(":exit\n")
	t.Input([]byte(in.String()))
	args := []string{"qrepl"}
	if lex {
		args = append(args, "--lex")
	}
	dir := t.scratch()
	defer os.RemoveAll(dir)
	r := runIn(t, dir, args, cliOpts{stdin: in.String(), dir: dir})
	if r.crashed() {
		t.Fail("the session crashes: %s", r.stderr)
	}
	rest := r.stdout
	next := func(what string) {
		k := strings.Index(rest, prompt)
		if k < 0 {
			t.Fail("the session ends %s: exit status %d, %q", what, r.code, clip(r.stderr))
		}
		rest = rest[k+len(prompt):]
	}
	next("before its first line")
	for i, l := range lines {
		if l.skip {
			next(fmt.Sprintf("at line %d %q", i+1, clip(l.line)))
			continue
		}
		if !strings.HasPrefix(rest, l.want+prompt) {
			t.Fail("line %d %q is answered with\n%s\nexpected\n%s", i+1, clip(l.line), clip(rest), clip(l.want))
		}
		rest = rest[len(l.want)+len(prompt):]
		t.Count("answers compared", 1)
	}
	if r.code != 0 {
		t.Fail("the session exits with %d: %s", r.code, r.stderr)
	}
	if s := snapshot(t, dir); len(s) != 1 {
		t.Fail("the session creates files")
	}
	t.Count("sessions", 1)
}

// modelSession answers lines with the library
type modelSession struct {
	env   *environment.Environment
	first map[string]ast.Node
	pv    bool
	lex   bool
}

func (m *modelSession) answer(line string) string {
	var sb strings.Builder
	if m.lex {
		s, _ := lexListing([]byte(line))
		sb.WriteString(s)
	}
	cddl, errs := parser.NewParser(lexer.NewLexer([]byte(line)), parser.WithEnv(m.env)).ParseFile()
	if len(errs) > 0 {
		sb.WriteString(errs.String() + "\n")
	}
	for _, n := range cddl.Rules {
		if r, ok := n.(*ast.Rule); ok && r.Name != nil {
			if m.pv {
				fmt.Fprintf(&sb, "%s ; %T\n", r.Name.Name, r.Value)
			}
		}
	}
	return sb.String()
}

var propC04 = &Property{ID: "C04", CLI: true,
	Rule:        "sessions of correct, erroneous and malformed lines with commands in between: the transcript is compared answer by answer with a model session of the library that shares one environment; sessions of generated definitions whose accepted and undeclared names are known independently of the library; trees shown on request; lines up to megabytes; non-trivial: distinct (line, answer) pairs",
	Assumptions: []string{"a command is a line that starts with :help, :tree, :pv or :exit", "banner and help text are not specified"},
	Run: func(c *Ctx) {
		c.DoN("lines", c.N(300, 8000), func(t *T, i int) {
			m := &modelSession{env: environment.NewEnvironment(), lex: i%5 == 2}
			var lines []answer
			n := t.Range(1, 60)
			if i%50 == 7 {
				n = t.Range(200, 1200)
			}
			for ; n > 0; n-- {
				var line string
				switch t.W(5, 3, 2, 2, 2, 1, 1) {
				case 0:
					line = fmt.Sprintf("n%d = %s", t.Intn(15), t.Pick([]string{"int", "tstr", "n3", "[a: int, b: n2]", "{ k => v }", "n1 / n2", "1..5", "n4 .size 3", "(x: n5)", "#6.1(n6)", "\"t\"", "1.5", "* n1", "u?"}))
				case 1:
					_, tx := genText(t.Rand)
					line = t.Pick(strings.Split(string(tx.Src), "\n"))
				case 2:
					line = string(fragSoup(t.Rand, 20))
				case 3:
					_, tx := genText(t.Rand)
					line = string(mutateTokens(t.Rand, tx))
				case 4:
					line = string(randBytes(t.Rand, t.Intn(40)))
				case 5:
					line = t.Pick([]string{"", " ", "\t", "; comment", "=", ")", "x", "\"", "x =", "a = b = c", "\x00", "\xff", ":", ": x = int", "::", ":e", ":ex", ":end", ":q", ":quit", ":q!", ":x", ":wq", ":h", ":t", ":p", ":e x", ":EXIT", ":Exit", ": exit", ":?", ":!", ":lex", ":parse x", ":env", ":reset", ":clear", ":load x", ":edit", ":tre a", ":exi", ":hel", ">>> ", "%s = %d", "help", "exit", "quit", "tree a", "help = int", "exit = tstr", "pv = 1", "tree = [a: help]", "x = int \\", "\\", "?", "!", "!!", "/exit", "\\q", ".exit", "# comment", "-- x", "'x'", "exit()", "\x04", "\x1a", "\x1b[A", "\x03", "a = int;", "a = int,", ";;", "; :exit", "x = int ; :exit", "x = \":exit\"", "= :exit"})
				case 6:
					switch t.Intn(2) {
					case 0:
						lines = append(lines, answer{line: t.Pick([]string{":help", " :help ", ":help x = int", ":help n1"}), skip: true})
					case 1:
						m.pv = !m.pv
						lines = append(lines, answer{line: t.Pick([]string{":pv", "  :pv", ":pv n14 = int", ":pv on"})})
					}
					continue
				}
				line = strings.NewReplacer("\n", " ", "\r", " ").Replace(line)
				if s := strings.TrimSpace(line); strings.HasPrefix(s, ":help") || strings.HasPrefix(s, ":tree") || strings.HasPrefix(s, ":pv") || strings.HasPrefix(s, ":exit") {
					continue
				}
				want := m.answer(line)
				lines = append(lines, answer{line: line, want: want})
				t.Distinct(line, want)
			}
			runSession(t, lines, m.lex)
			if i < 3 {
				t.Sample("%d lines, the last is %.100q", len(lines), lines[len(lines)-1].line)
			}
		})
		// what is declared is known without the library
		c.DoN("names", c.N(200, 5000), func(t *T, i int) {
			declared := map[string]string{}
			pool := []string{"a", "b", "c", "d1", "e-f", "g.h", "_i", "J", "int-x", "k"}
			if i%2 == 0 {
				pool = []string{"help", "exit", "tree", "pv", "quit", "q", "lex", "helper", "tree-x", "exit.1", "pvx", "$s", "$$p", "@at", "clear", "env", "reset"}
			}
			type step struct {
				line  string
				clean bool
				tree  string
				cmd   bool

				several bool
				trees   []string
			}
			var steps []step
			for n := t.Range(5, 50); n > 0; n-- {
				switch t.W(6, 3, 2, 1, 1) {
				case 0: // a correct definition
					nm := t.Pick(pool)
					val := t.Pick([]string{"int", "tstr", "bool", "[x: int]", "{y: uint}", "1", "\"s\"", "(z: float)"})
					for k := range declared {
						_ = k
					}
					if t.P(1, 2) {
						if r := pickKey(t.Rand, declared); r != "" {
							val = t.Pick([]string{r, "[x: " + r + "]", "{y: " + r + "}", "int / " + r})
						}
					}
					_, dup := declared[nm]
					steps = append(steps, step{line: nm + " = " + val, clean: !dup})
					if !dup {
						declared[nm] = val
					}
				case 1: // an unknown name
					steps = append(steps, step{line: fmt.Sprintf("q%d = %s", n, t.Pick([]string{"nowhere", "[x: nowhere]", "int / nowhere"})), clean: false})
				case 2: // nothing is declared by a command
					nm := t.Pick(pool)
					steps = append(steps, step{line: t.Pick([]string{":help ", ":pv ", ":tree "}) + nm + " = int", cmd: true})
				case 3:
					steps = append(steps, step{line: t.Pick([]string{"", "; only a comment", "   "}), clean: true})
				case 4:
					if r := pickKey(t.Rand, declared); r != "" {
						steps = append(steps, step{line: ":tree " + r, tree: r, cmd: true})
						if t.P(1, 2) { // several names, of which some are none
							line := ":tree"
							var trees []string
							for k := t.Range(1, []int{6, 6, 50}[t.Intn(3)]); k > 0; k-- {
								r := pickKey(t.Rand, declared)
								if t.P(1, 2) {
									r = t.Pick([]string{r + "-", r + ".", r + "=", r + ":", r + ",", "x" + r, strings.ToLower(r) + "_", r[:len(r)-1] + "~", "$" + r, "nowhere", "", "%s", "int", "tstr", "=", "*", "\"" + r + "\"", r + ";", "(" + r + ")"})
								} else {
									trees = append(trees, r)
								}
								line += " " + r
							}
							steps = append(steps, step{line: line, trees: trees, several: true, cmd: true})
						}
					}
				}
			}
			// run it: count which lines have an answer
			var in strings.Builder
			for _, s := range steps {
				in.WriteString(s.line + "\n")
			}
			t.Input([]byte(in.String()))
			dir := t.scratch()
			defer os.RemoveAll(dir)
			r := runIn(t, dir, []string{"qrepl"}, cliOpts{stdin: in.String() + ":exit\n"})
			if r.crashed() || r.code != 0 {
				t.Fail("the session ends with %d: %s", r.code, r.stderr)
			}
			parts := strings.Split(r.stdout, prompt)
			if len(parts) != len(steps)+2 {
				t.Fail("%d prompts for %d lines", len(parts)-1, len(steps))
			}
			pv := false
			for k, s := range steps {
				got := parts[k+1]
				if strings.HasPrefix(s.line, ":pv") {
					pv = !pv
				}
				if s.tree != "" {
					cddl, _ := parseSrc([]byte(s.tree + " = " + declared[s.tree] + "\n" + known(declared, s.tree)))
					want := s.tree + ": " + astutils.Format(cddl.Rules[0].(*ast.Rule).Value) + "\n"
					if noPos(got) != noPos(want) {
						t.Fail("line %d %q shows\n%s\nthe first accepted definition is %q:\n%s", k+1, s.line, got, declared[s.tree], want)
					}
					t.Count("trees compared", 1)
					continue
				}
				if s.several {
					want := ""
					for _, nm := range s.trees {
						cddl, _ := parseSrc([]byte(nm + " = " + declared[nm] + "\n"))
						want += nm + ": " + astutils.Format(cddl.Rules[0].(*ast.Rule).Value) + "\n"
					}
					if noPos(got) != noPos(want) {
						t.Fail("line %d %q shows\n%s\nthe first accepted definitions of these names are\n%s", k+1, s.line, got, want)
					}
					t.Count("trees compared", len(s.trees))
				}
				if s.cmd {
					continue
				}
				// with :pv the accepted definition is shown as well
				msg := got
				if pv {
					if j := strings.LastIndex(strings.TrimSuffix(got, "\n"), "\n"); strings.Contains(got, " ; *ast.") {
						msg = got[:j+1]
					}
				}
				if (strings.TrimSpace(msg) == "") != s.clean {
					t.Fail("line %d %q is answered with %q, which is wrong after these lines:\n%s", k+1, s.line, got, in.String())
				}
				t.Count("lines decided", 1)
				t.Distinct("names", s.line, fmt.Sprint(s.clean))
			}
		})
		c.DoN("long", c.Pick(8, 24), func(t *T, i int) {
			m := &modelSession{env: environment.NewEnvironment()}
			n := []int{4095, 65535, 65536, 70000, 1 << 20, 3 << 20, 5 << 20, 17 << 20}[i%8]
			long := "big = [" + strings.Repeat("a: int, ", n/8) + "b: int]"
			switch k := (i / 8) % 3; max(k, i%8-5) {
			case 1:
				long = "big = \"" + strings.Repeat("x", n) + "\""
			case 2:
				long = "big = int ;" + strings.Repeat("c", n)
			}
			var lines []answer
			for _, l := range []string{"one = int", long, "two = [x: big, y: one]", "three = nowhere", "big = int"} {
				lines = append(lines, answer{line: l, want: m.answer(l)})
			}
			runSession(t, lines, false)
			t.Distinct("long", fmt.Sprint(n, i))
		})
		// a session with far more names than anyone types
		c.DoN("many names", c.Pick(2, 8), func(t *T, i int) {
			m := &modelSession{env: environment.NewEnvironment()}
			var lines []answer
			n := []int{700, 9000}[i%2]
			say := func(l string) { lines = append(lines, answer{line: l, want: m.answer(l)}) }
			for k := 0; k < n; k++ {
				say(fmt.Sprintf("r%d = [x%d: r%d]", k, k, max(0, k-1)))
				switch t.Intn(12) {
				case 0:
					say(fmt.Sprintf("r%d = int", t.Intn(k+1)))
				case 1:
					say(fmt.Sprintf("s%d = r%d / r%d", k, t.Intn(k+1), t.Intn(k+5)))
				}
			}
			for k := 0; k < 300; k++ {
				say(fmt.Sprintf("z%d = [r%d, r%d]", k, t.Intn(n), t.Intn(n+n/20)))
			}
			runSession(t, lines, false)
			t.Distinct("many names", fmt.Sprint(n, i))
		})
	}}

func pickKey(r *Rand, m map[string]string) string {
	if len(m) == 0 {
		return ""
	}
	ks := sortedKeys(m)
	return ks[r.Intn(len(ks))]
}

func known(m map[string]string, but string) string {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		if k != but {
			sb.WriteString(k + " = int\n")
		}
	}
	return sb.String()
}

// noPos drops the positions from a formatted tree
func noPos(s string) string {
	for {
		k := strings.Index(s, "{ Column:")
		if k < 0 {
			return s
		}
		e := strings.Index(s[k:], "}")
		if e < 0 {
			return s
		}
		s = s[:k] + "@" + s[k+e+1:]
	}
}
