// F01, F02: configuration files
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/HannesKimara/cddlc/cmd/cddlc/commands"
	"github.com/HannesKimara/cddlc/config"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
)

// val is a JSON value with ordered members
type val struct {
	k    byte // s string, b bool, n number, l list, o object
	s    string
	list []*val
	keys []string
}

func vs(s string) *val { return &val{k: 's', s: s} }
func vl(l ...*val) *val {
	return &val{k: 'l', list: l}
}
func (v *val) set(k string, x *val) {
	v.keys = append(v.keys, k)
	v.list = append(v.list, x)
}

func (v *val) shuffled(r *Rand) *val {
	w := *v
	w.list = append([]*val{}, v.list...)
	w.keys = append([]string{}, v.keys...)
	for i := range w.list {
		w.list[i] = w.list[i].shuffled(r)
	}
	if v.k == 'o' {
		r.Shuffle(len(w.list), func(a, b int) {
			w.list[a], w.list[b] = w.list[b], w.list[a]
			w.keys[a], w.keys[b] = w.keys[b], w.keys[a]
		})
	}
	return &w
}

func quoteJSON(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

// json writes the value with spaces by sp
func (v *val) json(sp func() string) string {
	switch v.k {
	case 's':
		return quoteJSON(v.s)
	case 'b', 'n':
		return v.s
	case 'l':
		var p []string
		for _, x := range v.list {
			p = append(p, sp()+x.json(sp)+sp())
		}
		return "[" + strings.Join(p, ",") + sp() + "]"
	}
	var p []string
	for i, x := range v.list {
		p = append(p, sp()+quoteJSON(v.keys[i])+sp()+":"+" "+sp()+x.json(sp)+sp())
	}
	return "{" + strings.Join(p, ",") + sp() + "}"
}

// yaml writes the value in block style
func (v *val) yaml(r *Rand, indent int, sb *strings.Builder) {
	pad := strings.Repeat("  ", indent)
	switch v.k {
	case 's':
		if plainYAML(v.s) && r.P(1, 2) {
			sb.WriteString(v.s + "\n")
		} else if r.P(1, 2) && !strings.ContainsAny(v.s, "\n\t\r\x7f\u0085\u2028\ufeff") && !strings.ContainsRune(v.s, 0) {
			sb.WriteString("'" + strings.ReplaceAll(v.s, "'", "''") + "'\n")
		} else {
			sb.WriteString(quoteJSON(v.s) + "\n")
		}
	case 'b', 'n':
		sb.WriteString(v.s + "\n")
	case 'l':
		if len(v.list) == 0 {
			sb.WriteString("[]\n")
			return
		}
		sb.WriteString("\n")
		for _, x := range v.list {
			if x.k == 'o' && len(x.list) > 0 {
				sb.WriteString(pad + "-")
				for i := range x.list {
					if i == 0 {
						sb.WriteString(" ")
					} else {
						sb.WriteString(pad + "  ")
					}
					sb.WriteString(x.keys[i] + ": ")
					x.list[i].yaml(r, indent+2, sb)
				}
				continue
			}
			sb.WriteString(pad + "- ")
			x.yaml(r, indent+1, sb)
		}
	case 'o':
		if len(v.list) == 0 {
			sb.WriteString("{}\n")
			return
		}
		if indent > 0 {
			sb.WriteString("\n")
		}
		for i, x := range v.list {
			if r.P(1, 6) {
				sb.WriteString(pad + "# comment: [\n")
			}
			k := v.keys[i]
			if !plainYAML(k) {
				k = quoteJSON(k)
			}
			sb.WriteString(pad + k + ": ")
			x.yaml(r, indent+1, sb)
		}
	}
}

func plainYAML(s string) bool {
	if s == "" || !(s[0] >= 'a' && s[0] <= 'z') {
		return false
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c == '/' || c == '_') {
			return false
		}
	}
	switch s {
	case "y", "n", "yes", "no", "on", "off", "true", "false", "null":
		return false
	}
	return true
}

var confTexts = []string{"$HOME", "${HOME}/x", "$0", "$PATH/src", "a$b", "$", "$$", "%HOME%", "~/src", "~root", "file:///x", "\\\\host\\share", "C:\\\\x", "./", "..", "../", "a//b", "a/./b", "a/../b", "SRC", "Dist", "a*", "?", "{a,b}", "{{.x}}", "`x`", "$(x)", "&amp;", "a+b", "a%20b", "dist", "main", "p", "", ".", "./src", "dist/", "/tmp/none/such", "a b", "1", "1.0", "v2", "true", "null", "~", "yes", "- x", "a: b", "# no comment", "{}", "[]", "\"q\"", "it's", "日本", "é", "&a", "*a", "!t", "%d", "@", "|", ">", "a\\b", "tab\there", "nl\nhere", " lead", "trail ", "0x10", "1e3", "012", "key", "<html>&", "😀", "a/b/c", "..", "c:\\x", "-", "?", ":", "a#b", "long" + strings.Repeat("-long", 200)}

type confModel struct {
	cfg  config.Config
	tree *val
}

// many is now and then far more than n
func many(r *Rand, n int) int {
	if r.P(1, 40) {
		return r.Range(5, 300)
	}
	return n
}

func genConf(r *Rand) confModel { return genConfOf(r, 0) }

// genConfOf has size builds and plugins, if it is given
func genConfOf(r *Rand, size int) confModel {
	many := func(r *Rand, n int) int {
		if size > 0 {
			return size
		}
		return many(r, n)
	}
	m := confModel{tree: &val{k: 'o'}}
	text := func() string { return r.Pick(confTexts) }
	if r.P(3, 4) {
		m.cfg.Version = text()
		m.tree.set("version", vs(m.cfg.Version))
	}
	if r.P(2, 3) {
		l := vl()
		for n := many(r, r.W(2, 4, 2, 1)); n > 0; n-- {
			p := &config.Plugin{}
			o := &val{k: 'o'}
			if r.P(4, 5) {
				p.Name = text()
				o.set("name", vs(p.Name))
			}
			if r.P(1, 2) {
				p.Remote.URL = text()
				in := &val{k: 'o'}
				in.set("url", vs(p.Remote.URL))
				o.set("remote", in)
			}
			if r.P(1, 2) || len(o.list) == 0 {
				p.Local.Path = text()
				in := &val{k: 'o'}
				in.set("path", vs(p.Local.Path))
				o.set("local", in)
			}
			m.cfg.Plugins = append(m.cfg.Plugins, p)
			l.list = append(l.list, o)
		}
		m.tree.set("plugins", l)
	}
	if r.P(5, 6) {
		l := vl()
		for n := many(r, r.W(1, 5, 3, 1)); n > 0; n-- {
			b := &config.BuildConfig{}
			o := &val{k: 'o'}
			if r.P(4, 5) {
				b.Package = text()
				o.set("package", vs(b.Package))
			}
			if r.P(4, 5) {
				b.SourceDir = text()
				o.set("src", vs(b.SourceDir))
			}
			if r.P(4, 5) || len(o.list) == 0 {
				b.OutDir = text()
				o.set("output", vs(b.OutDir))
			}
			m.cfg.Builds = append(m.cfg.Builds, b)
			l.list = append(l.list, o)
		}
		m.tree.set("builds", l)
	}
	if r.P(1, 2) || len(m.tree.list) == 0 {
		m.cfg.Options = map[string]interface{}{}
		o := &val{k: 'o'}
		n := many(r, r.Intn(5))
		for n0 := n; n > 0; n-- {
			k := r.Pick([]string{"emit-ident-info", "case-conversion", "a", "b c", "x:y", "Z"})
			if n0 > 5 {
				k += strconv.Itoa(n)
			}
			if _, dup := m.cfg.Options[k]; dup {
				continue
			}
			v, g := genOption(r, 2)
			m.cfg.Options[k] = g
			o.set(k, v)
		}
		m.tree.set("options", o)
	}
	return m
}

func genOption(r *Rand, depth int) (*val, interface{}) {
	switch r.Intn(5) {
	case 0:
		s := r.Pick(confTexts)
		return vs(s), s
	case 1:
		b := r.P(1, 2)
		return &val{k: 'b', s: fmt.Sprint(b)}, b
	case 2:
		n := r.Intn(100000) - 500
		return &val{k: 'n', s: fmt.Sprint(n)}, float64(n)
	}
	if depth == 0 {
		return vs("x"), "x"
	}
	if r.P(1, 2) {
		l, g := vl(), []interface{}{}
		for n := r.Intn(4); n > 0; n-- {
			v, x := genOption(r, depth-1)
			l.list = append(l.list, v)
			g = append(g, x)
		}
		return l, g
	}
	o, g := &val{k: 'o'}, map[string]interface{}{}
	for n := r.Intn(4); n > 0; n-- {
		v, x := genOption(r, depth-1)
		k := fmt.Sprint("k", n)
		o.set(k, v)
		g[k] = x
	}
	return o, g
}

// plain makes the values of options comparable: the decoders differ in the types of numbers and maps
func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case int:
		return float64(x)
	case int64:
		return float64(x)
	case []interface{}:
		out := []interface{}{}
		for _, e := range x {
			out = append(out, plain(e))
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = plain(e)
		}
		return out
	case map[interface{}]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[fmt.Sprint(k)] = plain(e)
		}
		return out
	}
	return v
}

// confDiff compares a loaded configuration with the written one
func confDiff(want, got *config.Config) string {
	if got == nil {
		return "no configuration"
	}
	if want.Version != got.Version {
		return fmt.Sprintf("version is %q, not %q", got.Version, want.Version)
	}
	if len(want.Plugins) != len(got.Plugins) || len(want.Builds) != len(got.Builds) || len(want.Options) != len(got.Options) {
		return fmt.Sprintf("%d plugins, %d builds, %d options instead of %d, %d, %d", len(got.Plugins), len(got.Builds), len(got.Options), len(want.Plugins), len(want.Builds), len(want.Options))
	}
	for i := range want.Plugins {
		if got.Plugins[i] == nil || *got.Plugins[i] != *want.Plugins[i] {
			return fmt.Sprintf("plugin %d is %+v, not %+v", i, got.Plugins[i], want.Plugins[i])
		}
	}
	for i := range want.Builds {
		if got.Builds[i] == nil || *got.Builds[i] != *want.Builds[i] {
			return fmt.Sprintf("build %d is %+v, not %+v", i, got.Builds[i], want.Builds[i])
		}
	}
	if len(want.Options) > 0 {
		if a, b := plain(want.Options), plain(got.Options); !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("options are %#v, not %#v", b, a)
		}
	}
	return ""
}

// snapshot describes everything below a directory
func snapshot(t *T, dir string) map[string]string {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "link " + l
		case fi.IsDir():
			out[rel] = fmt.Sprintf("dir %v", fi.Mode())
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out[rel] = fmt.Sprintf("file %v %s", fi.Mode(), b)
		default:
			out[rel] = fmt.Sprintf("other %v", fi.Mode())
		}
		return nil
	})
	if err != nil {
		t.Inconclusive("scratch directory: %v", err)
	}
	return out
}

func sortedKeys(ms ...map[string]string) (out []string) {
	seen := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	sort.Strings(out)
	return out
}

func diffSnap(a, b map[string]string) string {
	for _, k := range sortedKeys(a, b) {
		x, inA := a[k]
		y, inB := b[k]
		switch {
		case !inA:
			return fmt.Sprintf("%s appeared: %s", k, clip(y))
		case !inB:
			return fmt.Sprintf("%s disappeared", k)
		case x != y:
			return fmt.Sprintf("%s changed from\n%s\nto\n%s", k, clip(x), clip(y))
		}
	}
	return ""
}

func (t *T) scratch() string {
	dir, err := os.MkdirTemp(t.c.Tmp, "d")
	if err != nil {
		t.Inconclusive("scratch directory: %v", err)
	}
	return dir
}

// openBelow counts this process's open files below a directory
func openBelow(dir string) (out []string) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir) {
			out = append(out, l)
		}
	}
	return out
}

var confSpaces = []string{"", "", " ", "  ", "\n", "\n\n  "}

func blankJSON(r *Rand) func() string {
	if r.P(1, 3) {
		return func() string { return "" }
	}
	return func() string { return confSpaces[r.Intn(len(confSpaces))] }
}

var propF01 = &Property{ID: "F01",
	Rule:        "random configurations written as JSON and as YAML (block style, three kinds of scalars, and JSON as YAML) with members in random order, some absent, texts that a YAML reader could take for something else; every prefix of them, appended content, wrong types, other file names; validity against directories, files, links and missing paths; the directory is compared with a copy and open files are counted; non-trivial: distinct files loaded or rejected",
	Assumptions: []string{"numbers and maps within options are compared by value: their Go types depend on the format"},
	Run: func(c *Ctx) {
		// with finalizers the descriptor of a dropped file would be closed now and then
		debug.SetGCPercent(-1)
		defer debug.SetGCPercent(200)
		garbage := 0
		load := func(t *T, dir, name, text string) (*config.Config, error) {
			p := filepath.Join(dir, name)
			writeFiles(t, dir, map[string]string{name: text})
			before, _ := os.Stat(p)
			t.Input([]byte(name + "\n" + text))
			cfg, err := config.LoadConfig(p)
			if err != nil && cfg != nil {
				t.Fail("a configuration is returned together with the error %v", err)
			}
			if err == nil && cfg == nil {
				t.Fail("neither a configuration nor an error")
			}
			after, e := os.Stat(p)
			b, _ := os.ReadFile(p)
			if e != nil || string(b) != text || before.ModTime() != after.ModTime() || before.Mode() != after.Mode() {
				t.Fail("loading changed the file")
			}
			if open := openBelow(dir); len(open) > 0 {
				t.Fail("loading leaves files open: %v", open)
			}
			os.Remove(p)
			t.Distinct(name, text)
			t.Count("files loaded", 1)
			if garbage += len(text) + 1<<16; garbage > 1<<28 { // nothing is open now
				garbage = 0
				runtime.GC()
			}
			return cfg, err
		}
		good := func(t *T, m confModel, dir, name, text string) {
			cfg, err := load(t, dir, name, text)
			if err != nil {
				t.Fail("rejected: %v", err)
			}
			if d := confDiff(&m.cfg, cfg); d != "" {
				t.Fail("%s", d)
			}
		}
		bad := func(t *T, dir, name, text, why string) {
			if cfg, err := load(t, dir, name, text); err == nil {
				b, _ := json.Marshal(cfg)
				t.Fail("%s is accepted as %s", why, b)
			}
		}
		c.DoN("load", c.N(1200, 40000), func(t *T, i int) {
			m := genConf(t.Rand)
			dir := t.scratch()
			defer os.RemoveAll(dir)
			tree := m.tree.shuffled(t.Rand)
			js := tree.json(blankJSON(t.Rand))
			good(t, m, dir, "cddlc.json", js+t.Pick([]string{"", "\n", "  \n\t", "\r\n"}))
			good(t, m, dir, "cddlc.yaml", tree.json(func() string { return "" })+"\n")
			var sb strings.Builder
			if t.P(1, 5) {
				sb.WriteString("---\n")
			}
			m.tree.shuffled(t.Rand).yaml(t.Rand, 0, &sb)
			good(t, m, dir, "cddlc.yaml", sb.String())
			// prefixes: none of them is a complete object
			flat := tree.json(func() string { return "" })
			for k := 0; k < 4; k++ {
				cut := t.Intn(len(flat))
				if i%40 == 0 && k == 0 { // all of them
					for q := 0; q < len(flat); q++ {
						bad(t, dir, "cddlc.json", flat[:q], "a prefix of a configuration")
					}
				}
				bad(t, dir, "cddlc.json", flat[:cut], "a prefix of a configuration")
				bad(t, dir, "cddlc.yaml", flat[:cut], "a prefix of a configuration")
			}
			bad(t, dir, "cddlc.json", flat+t.Pick([]string{"}", "{}", "x", "]", "\n{\"version\":\"2\"}", ",", " 1", "\"\"", flat}), "a configuration with other content behind it")
			bad(t, dir, "cddlc.yaml", flat+t.Pick([]string{"}", "\n---\nversion: \"2\"\n", "\n---\n{", "]", "\n- x\n", "\nversion: x\n"}), "a configuration with other content behind it")
			// one character gone wrong
			if k := strings.IndexAny(flat, ":"); k > 0 {
				bad(t, dir, "cddlc.json", flat[:k]+";"+flat[k+1:], "a configuration without its first colon")
			}
			name := t.Pick([]string{"cddlc.yml", "config.json", "cddlc.json.bak", "CDDLC.JSON", "cddlc", "cddl.json", ".cddlc.json", "cddlc.yaml~", "xcddlc.json", "cddlc.jsonx", "cddlc.toml"})
			bad(t, dir, name, flat, "a file with the name "+name)
			for _, missing := range []string{"cddlc.json", "cddlc.yaml", "none/cddlc.json"} {
				cfg, err := config.LoadConfig(filepath.Join(dir, missing))
				if err == nil || cfg != nil {
					t.Fail("a missing file gives %v, %v", cfg, err)
				}
			}
			if t.P(1, 150) {
				t.Sample("%.300q", sb.String())
			}
			t.Rearm()
		})
		// large ones
		c.DoN("large", c.Pick(6, 24), func(t *T, i int) {
			m := genConfOf(t.Rand, t.Range(300, 900)<<uint(i%6))
			dir := t.scratch()
			defer os.RemoveAll(dir)
			tree := m.tree.shuffled(t.Rand)
			js := tree.json(func() string { return "" })
			good(t, m, dir, "cddlc.json", js+"\n")
			t.Rearm()
			if len(js) < 1<<20 { // the reader of YAML is slow
				var sb strings.Builder
				m.tree.yaml(t.Rand, 0, &sb)
				good(t, m, dir, "cddlc.yaml", sb.String())
			}
			bad(t, dir, "cddlc.json", js[:len(js)-1], "a large configuration without its end")
			t.Count("bytes of large configurations", len(js))
			t.Rearm()
		})
		// the same path, of the same age and length, with other content; and a result is the caller's own
		c.DoN("again", c.N(150, 5000), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			name := []string{"cddlc.json", "cddlc.yaml"}[i%2]
			p := filepath.Join(dir, name)
			var ms []confModel
			var texts []string
			longest := 0
			for k := 0; k < 4; k++ {
				m := genConf(t.Rand)
				tx := m.tree.shuffled(t.Rand).json(func() string { return "" })
				ms, texts = append(ms, m), append(texts, tx)
				if len(tx) > longest {
					longest = len(tx)
				}
			}
			when := time.Unix(1700000000+int64(t.Intn(1000)), 0)
			var old *config.Config
			for k, m := range ms {
				tx := texts[k] + strings.Repeat(" ", longest-len(texts[k])) + "\n"
				mode := t.Intn(3)
				switch mode {
				case 0: // in place
					writeFiles(t, dir, map[string]string{name: tx})
				case 1: // another file takes the name
					writeFiles(t, dir, map[string]string{"new": tx})
					os.Rename(filepath.Join(dir, "new"), p)
				default:
					os.Remove(p)
					writeFiles(t, dir, map[string]string{name: tx})
				}
				if err := os.Chtimes(p, when, when); err != nil {
					t.Inconclusive("%v", err)
				}
				t.Input([]byte(name + "\n" + tx))
				path := p
				if t.P(1, 3) { // by a relative path
					wd, err := os.Getwd()
					if err != nil || os.Chdir(dir) != nil {
						t.Inconclusive("no working directory: %v", err)
					}
					defer os.Chdir(wd)
					path = t.Pick([]string{name, "./" + name, "../" + filepath.Base(dir) + "/" + name})
				}
				for n := 0; n < 2; n++ {
					cfg, err := config.LoadConfig(path)
					if err != nil {
						t.Fail("load %d of the path: rejected: %v", 2*k+n, err)
					}
					if d := confDiff(&m.cfg, cfg); d != "" {
						t.Fail("load %d of the path: %s", 2*k+n, d)
					}
					// what the caller does with its configuration is not seen by the next one
					cfg.Version += "x"
					for b := range cfg.Builds {
						cfg.Builds[b].Package += "x"
					}
					for b := range cfg.Plugins {
						cfg.Plugins[b].Name += "x"
					}
					for o := range cfg.Options {
						delete(cfg.Options, o)
					}
					if old == cfg {
						t.Fail("two loads give the same configuration")
					}
					old = cfg
				}
				t.Count("repeated loads", 2)
				t.Distinct("again", fmt.Sprint(mode), tx)
			}
		})
		c.DoN("types", c.N(300, 6000), func(t *T, i int) {
			m := genConf(t.Rand)
			dir := t.scratch()
			defer os.RemoveAll(dir)
			wrong := map[string][]string{
				"version": {`["1"]`, `{"a":"1"}`, `[]`, `{}`},
				"plugins": {`"x"`, `{"name":"x"}`, `3`, `true`, `["x"]`, `[3]`, `[["x"]]`, `[{"name":["x"]}]`, `[{"remote":"u"}]`, `[{"local":["p"]}]`, `[{"local":{"path":{}}}]`, `[{"name":"ok"},"x"]`, `[null]`, `[{"name":"ok"},null]`, `[{"name":"ok"},{"name":"ok"},null]`},
				"builds":  {`"x"`, `{"package":"x"}`, `3`, `false`, `["x"]`, `[true]`, `[[]]`, `[{"package":[]}]`, `[{"src":{"a":1}}]`, `[{"output":["o"]}]`, `[{"package":"ok"},7]`, `[null]`, `[{"package":"ok"},null]`, `[{"package":"ok"},{"package":"ok"},null]`},
				"options": {`"x"`, `[]`, `["a"]`, `3`, `true`},
			}
			key := t.Pick([]string{"version", "plugins", "builds", "options"})
			w := t.Pick(wrong[key])
			o := &val{k: 'o'}
			at := t.Intn(len(m.tree.list) + 1)
			for k := range m.tree.list {
				if k == at {
					o.set(key, &val{k: 'n', s: w})
				}
				if m.tree.keys[k] != key {
					o.set(m.tree.keys[k], m.tree.list[k])
				}
			}
			if at == len(m.tree.list) {
				o.set(key, &val{k: 'n', s: w})
			}
			js := o.json(func() string { return "" })
			bad(t, dir, "cddlc.json", js, "a "+key+" of the wrong type")
			bad(t, dir, "cddlc.yaml", js, "a "+key+" of the wrong type")
			if i%8 == 0 {
				for _, n := range []string{"1", "true", "1.5"} {
					bad(t, dir, "cddlc.json", `{"version":`+n+`}`, "a version that is no text")
				}
				for _, whole := range []string{`[]`, `"x"`, `3`, `[{"version":"1"}]`, `true`} {
					bad(t, dir, "cddlc.json", whole, "a file that is no object")
					bad(t, dir, "cddlc.yaml", whole, "a file that is no object")
				}
				for _, y := range []string{"\tversion: 1", "version: 'x", "builds:\n- package: a\n  src: [", "version: \"1\"\n  builds: []\n", "a: b: c", "%", "@x: 1", "version: *none\n"} {
					bad(t, dir, "cddlc.yaml", y, "malformed YAML")
				}
				for _, y := range []string{"", "  ", "\n\n"} {
					bad(t, dir, "cddlc.json", y, "an empty file")
				}
				os.Mkdir(filepath.Join(dir, "cddlc.json"), 0755)
				if cfg, err := config.LoadConfig(filepath.Join(dir, "cddlc.json")); err == nil || cfg != nil {
					t.Fail("a directory loads as a configuration")
				}
				if open := openBelow(dir); len(open) > 0 {
					t.Fail("loading leaves files open: %v", open)
				}
			}
			t.Rearm()
		})
		c.Do("options", func(t *T) {
			for _, k := range append([]string{"camelcase", "snakecase", "CamelCase", "camel-case", "SNAKECASE", "camelcase ", "kebab", "camel", "case"}, confTexts...) {
				for n := 0; n < 4; n++ {
					o := gogen.Options{CaseConversion: k, EmitIdent: n&1 > 0, GeneratePlugStub: n&2 > 0}
					if want := k == "camelcase" || k == "snakecase"; (o.Valid() == nil) != want {
						t.Fail("the options with case conversion %q are %v", k, o.Valid())
					}
				}
				t.Distinct("option", k)
			}
		})
		c.DoN("valid", c.N(300, 6000), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			os.MkdirAll(filepath.Join(dir, "real/sub"), 0755)
			os.MkdirAll(filepath.Join(dir, "sp ace"), 0700)
			os.WriteFile(filepath.Join(dir, "file"), nil, 0755)
			os.Symlink("real", filepath.Join(dir, "tolink"))
			os.Symlink("file", filepath.Join(dir, "tofile"))
			os.Symlink("nothing", filepath.Join(dir, "dangling"))
			os.Symlink("loop", filepath.Join(dir, "loop"))
			os.Symlink("real/sub", filepath.Join(dir, "deep"))
			paths := map[string]bool{"real": true, "real/": true, "real/sub": true, "real/../real": true, "sp ace": true, "tolink": true, "tolink/sub": true, ".": true, "": true,
				"file": false, "file/": false, "tofile": false, "dangling": false, "loop": false, "nothing": false, "real/none": false, "file/x": false, "REAL": false, "real\x00": false,
				"=": false, "= ": false, "nothing/../real": false, "file/../real": false, "deep/..": true, "deep/../../real": true, "tolink/.": true, "real/sub/..": true, "deep/../real": false, " real": false, "real ": false, "~": false, "$HOME": false, "real/*": false, "file/.": false, "./././real": true, "real//sub": true}
			names := []string{}
			for k := range paths {
				names = append(names, k)
			}
			sort.Strings(names)
			cfg := &config.Config{}
			want := true
			if i%5 != 0 || i < len(names) {
				n := t.Intn(4) + 1
				few := 3
				if t.P(1, 8) {
					n = t.Range(5, 60)
					few = 2 * n
				}
				for ; n > 0; n-- {
					k := t.Pick(names)
					if t.P(few-1, few) {
						for !paths[k] {
							k = t.Pick(names)
						}
					}
					if i < len(names) {
						k = names[i]
					}
					pth := dir + "/" + k
					if strings.HasPrefix(k, "=") {
						pth = k[1:]
					}
					cfg.Plugins = append(cfg.Plugins, &config.Plugin{Name: t.Pick(confTexts), Local: config.PluginLocal{Path: pth}})
					if t.P(1, 2) {
						cfg.Plugins[len(cfg.Plugins)-1].Remote.URL = t.Pick([]string{"https://example.org/p", "file:///", "x", "git@example.org:p.git"})
					}
					want = want && paths[k]
				}
			}
			for round := 0; round < 2; round++ {
				if err := cfg.Valid(); (err == nil) != want {
					b, _ := json.Marshal(cfg.Plugins)
					t.Fail("validity of %s is %v", b, err)
				}
			}
			t.Count(fmt.Sprintf("validity %v", want), 1)
			if want && len(cfg.Plugins) > 0 { // validity is that of the moment
				os.RemoveAll(dir)
				if cfg.Valid() == nil {
					t.Fail("valid although the directories are gone")
				}
			}
			if open := openBelow(dir); len(open) > 0 {
				t.Fail("validation leaves files open: %v", open)
			}
		})
	}}

// F02 -------------------------------------------------------------------------------------------------------

func sameAsDefault(cfg *config.Config) string { return confDiff(config.NewDefaultConfig(), cfg) }

// checkInit checks the configuration that a successful init leaves
func checkInit(t *T, dir string) {
	b, err := os.ReadFile(filepath.Join(dir, "cddlc.json"))
	if err != nil {
		t.Fail("init succeeded, but there is no configuration: %v", err)
	}
	if fi, err := os.Stat(filepath.Join(dir, "cddlc.json")); err == nil && fi.Mode().Perm()&0600 != 0600 {
		t.Fail("the created configuration can not be read and changed by its owner: %v", fi.Mode())
	}
	cfg, err := config.LoadConfig(filepath.Join(dir, "cddlc.json"))
	if err != nil {
		t.Fail("the created configuration does not load: %v\n%s", err, b)
	}
	if d := sameAsDefault(cfg); d != "" {
		t.Fail("the created configuration is not the default one: %s\n%s", d, b)
	}
	if err := cfg.Valid(); err != nil {
		t.Fail("the created configuration is not valid: %v", err)
	}
}

var propF02 = &Property{ID: "F02", Race: true, CLI: true,
	Rule:        "rounds of 2 to 24 goroutines released at the same moment in one directory, and rounds of concurrent processes of the command: exactly one success, a complete file; every kind of existing object at the path, with the directory compared before and after; writes that fail at every length of the file; generate run afterwards; non-trivial: rounds with the winners observed, kinds of objects",
	Assumptions: []string{"the in-process rounds use the working directory of the worker, as the command does"},
	Run: func(c *Ctx) {
		winners := map[int]int{}
		c.DoN("goroutines", c.N(600, 20000), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			old, _ := os.Getwd()
			if err := os.Chdir(dir); err != nil {
				t.Inconclusive("chdir: %v", err)
			}
			defer os.Chdir(old)
			g := t.Range(2, 24)
			errs := make([]error, g)
			var ready atomic.Int32
			var open atomic.Bool
			var wg sync.WaitGroup
			for k := 0; k < g; k++ {
				wg.Add(1)
				spin := t.Intn(200)
				go func(k int) {
					defer wg.Done()
					ready.Add(1)
					for !open.Load() {
					}
					for n := 0; n < spin; n++ {
						ready.Load()
					}
					errs[k] = commands.InitCmd(nil)
				}(k)
				if k >= 6 && i%2 == 0 { // more than can spin at the same time
					g = k + 1
					errs = errs[:g]
					break
				}
			}
			for int(ready.Load()) < g && g <= 6 {
			}
			open.Store(true)
			wg.Wait()
			win, who := 0, 0
			for k, e := range errs {
				if e == nil {
					win++
					who = k
				}
			}
			if win != 1 {
				t.Fail("%d of %d concurrent initializations succeed", win, g)
			}
			checkInit(t, dir)
			if s := snapshot(t, dir); len(s) != 2 {
				t.Fail("init leaves other files: %v", sortedKeys(s))
			}
			winners[who]++
			t.Count("concurrent initializations", g)
			t.Distinct("winner", fmt.Sprint(g, " ", who))
			t.Rearm()
		})
		c.DoN("processes", c.Pick(16, 400), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			g := t.Range(2, 10)
			res := make([]*exec.Cmd, g)
			outs := make([]strings.Builder, g)
			for k := range res {
				res[k] = exec.Command(t.c.CLI, "init")
				res[k].Dir = dir
				res[k].Stderr = &outs[k]
			}
			for k := range res {
				if err := res[k].Start(); err != nil {
					t.Inconclusive("the command does not start: %v", err)
				}
			}
			win := 0
			for k := range res {
				res[k].Wait()
				if res[k].ProcessState.ExitCode() == 0 {
					win++
				} else if outs[k].Len() == 0 || strings.Contains(outs[k].String(), "goroutine ") {
					t.Fail("a losing initialization says %q", outs[k].String())
				}
			}
			if win != 1 {
				t.Fail("%d of %d concurrent initializations succeed", win, g)
			}
			checkInit(t, dir)
			t.Count("concurrent processes", g)
			t.Distinct("processes", fmt.Sprint(g))
			t.Rearm()
		})
		kinds := []string{"file", "empty", "directory", "full directory", "dangling link", "link to file", "link to directory", "readonly", "fifo", "default", "loop", "long"}
		c.DoN("existing", len(kinds)*c.Pick(2, 6), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			kind := kinds[i%len(kinds)]
			p := filepath.Join(dir, "cddlc.json")
			switch kind {
			case "file":
				os.WriteFile(p, []byte(genConf(t.Rand).tree.json(blankJSON(t.Rand))), 0600)
			case "empty":
				os.WriteFile(p, nil, 0644)
			case "directory":
				os.Mkdir(p, 0755)
			case "full directory":
				writeFiles(t, p, map[string]string{"a": "b"})
			case "dangling link":
				os.Symlink("target", p)
			case "link to file":
				writeFiles(t, dir, map[string]string{"target": "content"})
				os.Symlink("target", p)
			case "link to directory":
				os.Mkdir(filepath.Join(dir, "target"), 0755)
				os.Symlink("target", p)
			case "readonly":
				os.WriteFile(p, []byte("{}"), 0400)
			case "fifo":
				if out, err := exec.Command("mkfifo", p).CombinedOutput(); err != nil {
					t.Inconclusive("mkfifo: %s", out)
				}
			case "default":
				runIn(t, dir, []string{"init"}, cliOpts{})
			case "loop":
				os.Symlink("cddlc.json", p)
			case "long":
				os.WriteFile(p, []byte(strings.Repeat(" ", 100000)+"{}"), 0644)
			}
			before := snapshot(t, dir)
			r := runIn(t, dir, []string{"init"}, cliOpts{})
			if r.code == 0 || r.crashed() || r.message()+strings.TrimSpace(r.stdout) == "" {
				t.Fail("with a %s in the place of the configuration, init ends with %d, %q", kind, r.code, r.stderr)
			}
			if d := diffSnap(before, snapshot(t, dir)); d != "" {
				t.Fail("with a %s in the place of the configuration, init changes something: %s", kind, d)
			}
			t.Distinct("existing", kind)
			t.Count("existing objects left alone", 1)
		})
		c.DoN("faults", c.Pick(12, 40), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			step := c.Pick(23, 3)
			for lim := int64(i) % int64(step); lim < 400; lim += int64(step) {
				fs := lim
				if fs == 0 {
					fs = -1
				}
				r := runIn(t, dir, []string{"init"}, cliOpts{fsize: fs})
				if r.crashed() {
					t.Fail("init crashes when a write fails: %s", r.stderr)
				}
				if r.code == 0 {
					checkInit(t, dir)
					os.Remove(filepath.Join(dir, "cddlc.json"))
					t.Count("complete within the limit", 1)
				} else {
					if s := snapshot(t, dir); len(s) != 1 {
						t.Fail("init fails to write more than %d bytes and leaves %v", lim, s)
					}
					t.Count("failed writes", 1)
				}
				t.Distinct("fault", fmt.Sprint(lim, r.code))
				t.Eval()
			}
		})
		// without the rights to create or to read it
		c.DoN("denied", c.Pick(8, 40), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			writeFiles(t, dir, map[string]string{"other": "x"})
			p := filepath.Join(dir, "cddlc.json")
			giveAway(t, dir)
			if !reachable(dir) {
				t.Count("unprivileged commands are not possible here", 1)
				return
			}
			switch i % 4 {
			case 0:
				os.Chmod(dir, 0555)
			case 1:
				os.WriteFile(p, []byte("mine"), 0)
			case 2:
				os.WriteFile(p, []byte("mine"), 0222)
				os.Chmod(p, 0222)
			case 3:
				os.WriteFile(p, []byte("mine"), 0444)
				os.Chmod(dir, 0555)
			}
			before := snapshot(t, dir)
			r := runIn(t, dir, []string{"init"}, cliOpts{user: true})
			if r.code == 0 || r.crashed() || r.message()+strings.TrimSpace(r.stdout) == "" {
				t.Fail("init in a directory without the rights to create a configuration ends with %d, %q", r.code, r.stderr)
			}
			if d := diffSnap(before, snapshot(t, dir)); d != "" {
				t.Fail("a failing init changes something: %s", d)
			}
			t.Distinct("denied", fmt.Sprint(i%4))
			t.Count("denied initializations", 1)
		})
		c.DoN("generate", c.Pick(8, 60), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			for _, f := range []string{"cddlc.json~", "cddlc.json.tmp", ".cddlc.json", ".cddlc.json.tmp", "cddlc.json.bak", "cddlc.json.lock", "cddlc.yml", "CDDLC.JSON", "dist/keep", "init.tmp", "tmp", "cddlc.json.new", "go.mod"} {
				if t.P(1, 3) {
					writeFiles(t, dir, map[string]string{f: "mine"})
				}
			}
			before := snapshot(t, dir)
			if r := runIn(t, dir, []string{"init"}, cliOpts{}); r.code != 0 {
				t.Fail("init fails in a directory without a configuration: %s", r.stderr)
			}
			after := snapshot(t, dir)
			delete(after, "cddlc.json")
			if d := diffSnap(before, after); d != "" {
				t.Fail("init changes something else: %s", d)
			}
			checkInit(t, dir)
			cs, tx := t.codegen(3)
			_ = cs
			writeFiles(t, dir, map[string]string{"schema.cddl": string(tx.Src)})
			t.Input(tx.Src)
			want := t.generated(tx, "dist")
			if r := runIn(t, dir, []string{"generate"}, cliOpts{}); r.code != 0 {
				t.Fail("generate fails after init: %s", r.stderr)
			}
			b, err := os.ReadFile(filepath.Join(dir, "dist", "schema.go"))
			if err != nil || !strings.HasSuffix(string(b), string(want)) {
				t.Fail("generate after init: %v\n%s", err, b)
			}
			t.Distinct("generate", string(want))
		})
	}}
