// X01: results depend only on the input, also under concurrency. Built with the race detector.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/config"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/runtime/validators"
	"github.com/HannesKimara/cddlc/token"
)

var concKinds = []string{"lex", "parse", "session", "format", "generate", "config", "validate"}

func hashText(s string) string {
	return fmt.Sprintf("%d:%016x", len(s), NewRand(0, s).Uint64())
}

// concOp performs one operation and returns everything observable of its result
func concOp(kind string, src []byte, pkg string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	var sb strings.Builder
	switch kind {
	case "lex":
		l := lexer.NewLexer(src)
		for i := 0; i <= len(src)+1; i++ {
			tok, pos, lit := l.Scan()
			fmt.Fprintf(&sb, "%v %v %q %d\n", tok, pos, lit, tok.Precedence())
			if tok == token.EOF {
				break
			}
		}
	case "parse":
		cddl, errs := parseSrc(src)
		sb.WriteString(deepDump(cddl))
		writeDiags(&sb, errs)
	case "session": // line by line into one environment
		env := environment.NewEnvironment()
		for _, line := range bytes.Split(src, []byte("\n")) {
			cddl, errs := parser.NewParser(lexer.NewLexer(line), parser.WithEnv(env)).ParseFile()
			sb.WriteString(deepDump(cddl))
			writeDiags(&sb, errs)
		}
	case "format":
		cddl, _ := parseSrc(src)
		for _, r := range cddl.Rules {
			sb.WriteString(astutils.Format(r))
			if ru, ok := r.(*ast.Rule); ok {
				sb.WriteString(astutils.Format(ru.Value))
			}
		}
		astutils.Walk(visitFunc(func(n ast.Node) {
			fmt.Fprintf(&sb, "%T ", n)
		}), cddl)
	case "generate":
		cddl, _ := parseSrc(src)
		out, err := generate(cddl, pkg)
		fmt.Fprintf(&sb, "%s\n%v", out, err)
	case "config":
		cfg, err := config.LoadConfig(string(src))
		b, _ := json.Marshal(cfg)
		fmt.Fprintf(&sb, "%s %v", b, err)
		if cfg != nil {
			fmt.Fprintf(&sb, " %v", cfg.Valid())
		}
		b, _ = json.Marshal(config.NewDefaultConfig())
		sb.Write(b)
	case "validate":
		for i := 0; i+1 < len(src) && i < 40; i++ {
			a, b := int8(src[i]), int8(src[i+1])
			fmt.Fprint(&sb, validators.InInclusiveRange(a, b, 50), validators.InExclusiveRange(float64(a), float64(b), 99), validators.IsLessThan(uint8(a), uint8(b)),
				validators.IsGreaterThan(a, b), validators.CheckSize(a, uint(src[i])), validators.RegexpMatches(concRE, string(src[i:])))
		}
	}
	return sb.String()
}

var concBounds = strings.Fields("bi bf bt bg bc bb bm bk bi 1 2.5 bnone")

var concRE = regexp.MustCompile(`[a-c]+=\s?(int|tstr)`)

func writeDiags(sb *strings.Builder, errs parser.ErrorList) {
	for _, e := range errs {
		fmt.Fprintf(sb, "%v %v %s | %s\n", e.Start(), e.End(), e.Error(), e.String())
	}
	sb.WriteString(errs.String())
}

// concInputs is a mix of correct, erroneous and malformed sources
func concInputs(r *Rand, n int) (out [][]byte) {
	for len(out) < n {
		if r.P(1, 6) { // two sources which digests do not tell apart
			p := confused[r.Intn(len(confused))]
			rest := r.Pick([]string{" = int\n", " = [a: int, b: tstr]\nz = nvmdvbwzrc\n", " = 1 .. 2 ; end", " = (k: uint)\r\nnab = nba\r\n"})
			out = append(out, []byte(p[0]+rest), []byte(p[1]+rest))
			continue
		}
		if len(out) > 0 && r.P(1, 4) {
			out = append(out, twin(r, out[len(out)-1]))
			continue
		}
		switch r.Intn(8) {
		case 6: // names that differ in the case of a letter or in a separator from those of other sources
			var sb strings.Builder
			seen := map[string]bool{}
			for k := r.Range(1, 6); k > 0; k-- {
				b := []byte(r.Pick([]string{"foobar", "username", "key-id", "a-b", "maxlen", "t1"}))
				for j := range b {
					if b[j] >= 'a' && r.P(1, 3) {
						b[j] ^= 0x20
					}
				}
				name := string(b)
				if r.P(1, 3) {
					name = strings.Replace(name, "-", r.Pick([]string{"_", "", "."}), 1)
				}
				if c := camel(name); !seen[c] {
					seen[c] = true
					fmt.Fprintf(&sb, "%s = %s\n", name, r.Pick([]string{"int", "tstr", "[" + name + "a: int]", "(" + name + ": tstr, b: uint)", "1.5", "\"t\""}))
				}
			}
			out = append(out, []byte(sb.String()))
		case 0, 1:
			_, tx := genText(r)
			out = append(out, tx.Src)
		case 2:
			cs := GenCode(r, 6, 3)
			l := layouts[r.Intn(len(layouts))]
			out = append(out, Render(Print(cs.Schema, r, r.Intn(3)), &l, r).Src)
		case 3:
			_, tx := genText(r)
			out = append(out, mutateTokens(r, tx))
		case 4:
			_, tx := genText(r)
			out = append(out, mutateBytes(r, tx.Src))
		case 5:
			out = append(out, fragSoup(r, 80))
		default:
			// many undeclared and doubly declared names, so that an order of diagnostics taken from a map shows,
			// and bounds of all types
			var sb strings.Builder
			sb.WriteString("bi = 1\nbf = 1.5\nbt = \"t\"\nbg = [a: int, b: [c: int]]\nbc = int / bi\nbb = bytes .bits bi\nbm = { bi => 5 }\nbk = (bi: 3)\n")
			for i := 0; i < 30; i++ {
				fmt.Fprintf(&sb, "n%d = [u%d, k%d: v%d, 1..w%d]\nr%d = %s..%s\n", r.Intn(12), r.Intn(90), i, r.Intn(90), r.Intn(90), i, r.Pick(concBounds), r.Pick(concBounds))
			}
			out = append(out, []byte(sb.String()))
		}
	}
	return out
}

// twin is another source that has much in common with src: the length, the beginning and the end, or the bytes
func twin(r *Rand, src []byte) []byte {
	b := append([]byte{}, src...)
	if len(b) < 3 {
		return append(b, "a = 1"...)
	}
	at := 1 + r.Intn(len(b)-2)
	switch r.Intn(4) {
	case 0: // two bytes change places
		to := 1 + r.Intn(len(b)-2)
		b[at], b[to] = b[to], b[at]
	case 1: // another digit or letter
		for k := 0; k < len(b)-2; k++ {
			o := 1 + (at+k-1)%(len(b)-2)
			if c := b[o]; c >= '0' && c < '9' || c >= 'a' && c < 'z' {
				b[o]++
				break
			}
		}
	case 2: // one byte less in the middle
		b = append(b[:at], b[at+1:]...)
	default:
		b[at] = r.Pick([]string{" ", "\n", "x", "=", "1", "\""})[0]
	}
	return b
}

// arena places the inputs one directly behind the other, so that a write behind an input hits the next one
func arena(ins [][]byte) (all []byte, parts [][]byte) {
	for _, in := range ins {
		all = append(all, in...)
	}
	o := 0
	for _, in := range ins {
		parts = append(parts, all[o:o+len(in)]) // capacity reaches to the end of the arena
		o += len(in)
	}
	return all, parts
}

type concTask struct {
	kind string
	src  []byte
	pkg  string
	want string
}

var propX01 = &Property{ID: "X01", Race: true,
	Rule:        "operations of seven kinds on inputs shared by all goroutines, under the race detector: digests of the complete results are compared with those of a sequential run, with a second sequential run afterwards, and with processes that see the inputs in other orders; the shared memory is compared with a copy; non-trivial: distinct pairs of operations observed in progress at the same time, distinct results",
	Assumptions: []string{"the race detector reports races of memory accesses that were executed in the observed runs"},
	Run: func(c *Ctx) {
		c.DoN("mix", c.Pick(16, 700), func(t *T, i int) { concMix(t, i) })
		c.DoN("tree", c.Pick(40, 800), func(t *T, i int) { concTree(t) })
		c.DoN("cold", c.Pick(8, 200), func(t *T, i int) { concCold(t, i) })
		c.DoN("order", c.Pick(8, 200), func(t *T, i int) { concOrder(t) })
		// one buffer for one source after the other
		c.DoN("reuse", c.Pick(60, 1500), func(t *T, i int) {
			ins := concInputs(t.Rand, 6)
			longest := 0
			for _, in := range ins {
				if len(in) > longest {
					longest = len(in)
				}
			}
			buf := make([]byte, longest)
			for _, kind := range concKinds {
				if kind == "config" {
					continue
				}
				for _, in := range ins {
					want := hashText(concOp(kind, append([]byte{}, in...), "p"))
					for k := range buf {
						buf[k] = 0xa5
					}
					copy(buf, in)
					if got := hashText(concOp(kind, buf[:len(in)], "p")); got != want {
						t.Input(in)
						t.Fail("%s gives %s for a source in a buffer that held another source before, %s for the same bytes in their own buffer", kind, got, want)
					}
					t.Count("reused buffers", 1)
					t.Eval()
				}
			}
			t.Distinct("reuse", t.Name)
		})
	}}

func concTasks(t *T, n int) (tasks []*concTask, all []byte) {
	all, parts := arena(concInputs(t.Rand, n))
	dir, err := os.MkdirTemp(t.c.Tmp, "conc")
	if err != nil {
		t.Inconclusive("scratch directory: %v", err)
	}
	paths := []string{}
	for k := 0; k < 4; k++ {
		sub := filepath.Join(dir, fmt.Sprint(k))
		name, text := "cddlc.json", fmt.Sprintf(`{"version":"%d","builds":[{"package":"p%d","src":"s","output":"o"}],"options":{"a":%d}}`, k, k, k)
		if k%2 == 1 {
			name, text = "cddlc.yaml", fmt.Sprintf("version: \"%d\"\nplugins:\n- name: p%d\n  local:\n    path: %s\n", k, k, dir)
		}
		if k == 3 {
			text += "\n}"
		}
		writeFiles(t, sub, map[string]string{name: text})
		paths = append(paths, filepath.Join(sub, name))
	}
	for i, p := range parts {
		for _, k := range concKinds {
			if k == "config" {
				continue
			}
			tasks = append(tasks, &concTask{kind: k, src: p, pkg: pkgNames[i%len(pkgNames)]})
		}
	}
	for _, p := range paths {
		for k := 0; k < 3; k++ {
			tasks = append(tasks, &concTask{kind: "config", src: []byte(p)})
		}
	}
	return tasks, all
}

func concMix(t *T, i int) {
	tasks, all := concTasks(t, 10)
	defer func() {
		for _, k := range tasks {
			if k.kind == "config" {
				os.RemoveAll(filepath.Dir(filepath.Dir(string(k.src))))
				break
			}
		}
	}()
	t.Input(all)
	before := append([]byte{}, all...)
	for _, k := range tasks {
		k.want = concOp(k.kind, append([]byte{}, k.src...), k.pkg)
		t.Distinct("result", k.kind, hashText(k.want))
	}
	G := 8
	if i%3 == 1 {
		G = 32
	}
	kindNo := map[string]int{}
	for n, k := range concKinds {
		kindNo[k] = n
	}
	var inflight [16]atomic.Int32
	var pairs [16][16]atomic.Int64
	type bad struct {
		k   *concTask
		got string
	}
	bads := make([]*bad, G)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		r := NewRand(uint64(g), t.Name)
		order := make([]int, len(tasks))
		for n := range order {
			order[n] = n
		}
		if (i/2)%2 == 0 { // otherwise all goroutines go through the tasks in the same order and meet on the same inputs
			r.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
		}
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for _, n := range order {
				k := tasks[n]
				kn := kindNo[k.kind]
				inflight[kn].Add(1)
				got := concOp(k.kind, k.src, k.pkg)
				inflight[kn].Add(-1)
				for o := range concKinds {
					if inflight[o].Load() > 0 {
						pairs[kn][o].Add(1)
					}
				}
				if got != k.want && bads[g] == nil {
					bads[g] = &bad{k, got}
				}
				if r.P(1, 5) {
					runtime.Gosched()
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, b := range bads {
		if b != nil {
			t.Input(b.k.src)
			t.Fail("%s gives another result while other goroutines are at work:\n%s\ninstead of\n%s", b.k.kind, clip(b.got), clip(b.k.want))
		}
	}
	if !bytes.Equal(before, all) {
		t.Fail("the shared input was changed: %s", firstChange(before, all))
	}
	for a := range concKinds {
		for b := range concKinds {
			if n := pairs[a][b].Load(); n > 0 {
				t.Distinct("overlap", concKinds[a], concKinds[b])
				t.Count("overlapping operations seen", int(n))
			}
		}
	}
	for _, k := range tasks {
		if got := concOp(k.kind, k.src, k.pkg); got != k.want {
			t.Input(k.src)
			t.Fail("%s gives another result afterwards:\n%s\ninstead of\n%s", k.kind, clip(got), clip(k.want))
		}
	}
	t.Count("operations run concurrently", G*len(tasks))
	if i < 16 {
		t.Sample("%d goroutines x %d operations on %d shared bytes, first result %.120q", G, len(tasks), len(all), tasks[0].want)
	}
	t.Rearm()
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

func firstChange(a, b []byte) string {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("at offset %d: %q becomes %q", i, a[i], b[i])
		}
	}
	return "length"
}

// concTree lets goroutines walk, format and generate from one tree at the same time
func concTree(t *T) {
	var src []byte
	if t.P(1, 2) {
		_, tx := t.codegen(3)
		src = tx.Src
	} else {
		_, tx := genText(t.Rand)
		src = tx.Src
	}
	t.Input(src)
	cddl, errs := parseSrc(src)
	use := func(k int) (res string) {
		defer func() {
			if r := recover(); r != nil {
				res = fmt.Sprintf("panic: %v", r)
			}
		}()
		switch k % 4 {
		case 0:
			var sb strings.Builder
			astutils.Walk(visitFunc(func(n ast.Node) {
				fmt.Fprintf(&sb, "%T %v ", n, n.Start())
			}), cddl)
			return sb.String()
		case 1:
			var sb strings.Builder
			for _, r := range cddl.Rules {
				sb.WriteString(astutils.Format(r))
				if ru, ok := r.(*ast.Rule); ok {
					sb.WriteString(astutils.Format(ru.Value))
				}
			}
			return sb.String()
		case 2:
			out, err := generate(cddl, "p")
			return fmt.Sprintf("%s %v", out, err)
		}
		var sb strings.Builder
		writeDiags(&sb, errs)
		return sb.String()
	}
	dump := deepDump(cddl)
	var want [4]string
	for k := range want {
		want[k] = use(k)
	}
	var got [16]string
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range got {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			got[g] = use(g)
		}(g)
	}
	close(start)
	wg.Wait()
	for g := range got {
		if got[g] != want[g%4] {
			t.Fail("%s on a shared tree gives another result:\n%s\ninstead of\n%s", []string{"walking", "formatting", "generating", "listing diagnostics"}[g%4], clip(got[g]), clip(want[g%4]))
		}
	}
	if d := deepDump(cddl); d != dump {
		t.Fail("the shared tree was changed")
	}
	t.Count("uses of shared trees", len(got))
	t.Distinct("tree", hashText(dump))
}

// concCold starts with all goroutines at once in a new process, before anything was initialised by a first use
func concCold(t *T, i int) {
	ins := concInputs(t.Rand, 4)
	var tasks []digestTask
	for n, in := range ins {
		for _, k := range concKinds {
			if k != "config" {
				tasks = append(tasks, digestTask{k, string(in), pkgNames[n%len(pkgNames)]})
			}
		}
	}
	res := digestRun(t, tasks, 12)
	for n, d := range res {
		k := tasks[n%len(tasks)]
		if w := hashText(concOp(k.Kind, []byte(k.Src), k.Pkg)); d != w {
			t.Input([]byte(k.Src))
			t.Fail("%s gives %s among the first uses in a new process, %s in this one", k.Kind, d, w)
		}
	}
	t.Count("cold starts", 1)
	t.Distinct("cold", t.Name)
}

// concOrder compares processes that see the same inputs in different orders
func concOrder(t *T) {
	ins := concInputs(t.Rand, 8)
	var tasks []digestTask
	for n, in := range ins {
		for _, k := range concKinds {
			if k != "config" {
				tasks = append(tasks, digestTask{k, string(in), pkgNames[n%len(pkgNames)]})
			}
		}
	}
	base := digestRun(t, tasks, 0)
	for round := 0; round < 2; round++ {
		perm := make([]int, len(tasks))
		for n := range perm {
			perm[n] = len(perm) - 1 - n
		}
		if round > 0 {
			t.Shuffle(len(perm), func(a, b int) { perm[a], perm[b] = perm[b], perm[a] })
		}
		var p []digestTask
		for _, n := range perm {
			p = append(p, tasks[n])
		}
		for n, d := range digestRun(t, p, 0) {
			if k := tasks[perm[n]]; d != base[perm[n]] {
				t.Input([]byte(k.Src))
				t.Fail("%s depends on what was processed before: digest %s in one order, %s in another", k.Kind, base[perm[n]], d)
			}
		}
	}
	t.Count("processes compared", 3)
	t.Distinct("order", strings.Join(base, " "))
}

type digestTask struct{ Kind, Src, Pkg string }

func digestRun(t *T, tasks []digestTask, goroutines int) []string {
	b, _ := json.Marshal(map[string]interface{}{"tasks": encodeTasks(tasks), "g": goroutines})
	self, _ := os.Executable()
	cmd := exec.Command(self, "digest", "-")
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = os.Environ()
	// the report of the race detector belongs to the worker's directory
	err := cmd.Run()
	t.Rearm()
	if err != nil {
		t.Fail("the process ends with %v: %s", err, clip(errb.String()))
	}
	res := strings.Fields(out.String())
	n := len(tasks)
	if goroutines > 0 {
		n *= goroutines
	}
	if len(res) != n {
		t.Inconclusive("the helper gave %d of %d results: %s", len(res), n, errb.String())
	}
	return res
}

// sources need not be valid UTF-8, which JSON strings have to be
func encodeTasks(tasks []digestTask) (out [][3][]byte) {
	for _, k := range tasks {
		out = append(out, [3][]byte{[]byte(k.Kind), []byte(k.Src), []byte(k.Pkg)})
	}
	return out
}

func digestHelper() int {
	var in struct {
		Tasks [][3][]byte `json:"tasks"`
		G     int         `json:"g"`
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if in.G == 0 {
		for _, k := range in.Tasks {
			fmt.Println(hashText(concOp(string(k[0]), k[1], string(k[2]))))
		}
		return 0
	}
	res := make([][]string, in.G)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range res {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for n := range in.Tasks {
				k := in.Tasks[(n+g*7)%len(in.Tasks)]
				res[g] = append(res[g], hashText(concOp(string(k[0]), k[1], string(k[2]))))
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for g := range res {
		back := make([]string, len(in.Tasks))
		for n, d := range res[g] {
			back[(n+g*7)%len(in.Tasks)] = d
		}
		fmt.Println(strings.Join(back, "\n"))
	}
	return 0
}
