// X02: results do not depend on the platform the library is built for
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// port is one build of portable/main.go
type port struct {
	name   string
	banner string
	argv   []string
	guest  bool // runs within another program, which limits its stack
}

func ports(t *T) (out []port) {
	base := os.Getenv("VMON_PORTS")
	out = []port{{name: "386", banner: "linux/386"}, {name: "v3", banner: "linux/amd64"}, {name: "plain", banner: "linux/amd64"}, {name: "wasm", banner: "js/wasm", guest: true}}
	for i := range out {
		exe := filepath.Join(base, "port-"+out[i].name)
		out[i].argv = []string{exe}
		if out[i].name == "wasm" {
			out[i].argv = []string{"node", filepath.Join(os.Getenv("VMON_GOROOT"), "lib/wasm/wasm_exec_node.js"), exe}
		}
	}
	return out
}

// runnable tells whether this machine runs programs of a port
func (p port) runnable() bool {
	switch p.name {
	case "v3":
		b, _ := os.ReadFile("/proc/cpuinfo")
		for _, f := range []string{" avx2 ", " bmi1 ", " bmi2 ", " f16c ", " fma ", " movbe ", " abm "} {
			if !bytes.Contains(b, []byte(f)) {
				return false
			}
		}
	case "wasm":
		if _, err := exec.LookPath("node"); err != nil {
			return false
		}
		_, err := os.Stat(p.argv[1])
		return err == nil
	}
	return true
}

type portQuestion struct {
	Kind string
	Pkg  string
	Src  []byte
	Full bool
}

type portAnswer struct {
	Len    int
	Digest string
	Text   string
}

// ask lets a port answer questions; ok is false if the port can not be run here
func (p port) ask(t *T, qs []portQuestion) (as []portAnswer, ok bool) {
	if _, err := os.Stat(filepath.Join(os.Getenv("VMON_PORTS"), "port-"+p.name)); err != nil || !p.runnable() {
		return nil, false // a failing build is judged by the case "builds"
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, q := range qs {
		enc.Encode(q)
	}
	cmd := exec.Command(p.argv[0], p.argv[1:]...)
	cmd.Stdin = &in
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		if strings.Contains(err.Error(), syscall.ENOEXEC.Error()) {
			return nil, false
		}
		t.Inconclusive("%s does not start: %v", p.name, err)
	}
	slow := time.AfterFunc(4*cliWall, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	killed := !slow.Stop()
	t.Rearm()
	if killed {
		t.Inconclusive("%s did not end within %v", p.name, 4*cliWall)
	}
	sc := bufio.NewReader(&out)
	banner, _ := sc.ReadString('\n')
	if banner != "" && strings.TrimSpace(banner) != p.banner {
		t.Inconclusive("%s calls itself %q", p.name, banner)
	}
	dec := json.NewDecoder(sc)
	for {
		var a portAnswer
		if e := dec.Decode(&a); e != nil {
			break
		}
		as = append(as, a)
	}
	if err != nil || len(as) != len(qs) {
		if ws, is := cmd.ProcessState.Sys().(syscall.WaitStatus); is && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			t.Inconclusive("%s was killed", p.name)
		}
		if len(as) < len(qs) {
			t.Input(qs[len(as)].Src)
			// what was answered is buffered: find the question it ends with
			if len(qs) > 1 {
				for _, q := range qs {
					p.ask(t, []portQuestion{q})
				}
			}
		}
		if p.guest && strings.Contains(errb.String(), "out of memory") {
			return nil, false
		}
		t.Fail("the %s build ends with %v: %s", p.banner, err, clip(errb.String()))
	}
	return as, true
}

// compare lets all ports answer and compares the answers with those of the native build
func comparePorts(t *T, qs []portQuestion, guests bool) {
	native := port{name: "native", banner: "linux/amd64", argv: []string{filepath.Join(os.Getenv("VMON_PORTS"), "port-native")}}
	want, _ := native.ask(t, qs)
	for _, p := range ports(t) {
		if p.guest && !guests {
			continue
		}
		got, ok := p.ask(t, qs)
		if !ok {
			t.Count("not run here: "+p.name, 1)
			continue
		}
		for i, q := range qs {
			if got[i] != want[i] {
				t.Input(q.Src)
				q.Full = true
				a, _ := native.ask(t, []portQuestion{q})
				b, _ := p.ask(t, []portQuestion{q})
				t.Fail("%s: the %s build (%s) answers %s", q.Kind, p.banner, p.name, diffAt(b[0].Text, a[0].Text))
			}
			t.Distinct(p.name, q.Kind, want[i].Digest)
			t.Eval()
		}
		t.Count("answers compared: "+p.name, len(qs))
	}
}

var wideNumbers = strings.Fields("0 1 127 128 255 256 32767 32768 65535 65536 2147483646 2147483647 2147483648 4294967294 4294967295 4294967296 4294967297 6442450944 8589934591 1099511627776 9007199254740991 9007199254740992 9007199254740993 " +
	"9223372036854775806 9223372036854775807 9223372036854775808 18446744073709551615 18446744073709551616 0x7fffffff 0x80000000 0xffffffff 0x100000000 0x7fffffffffffffff 0x8000000000000000 0xffffffffffffffff 0b11111111111111111111111111111111 0b100000000000000000000000000000000 0o37777777777 0o40000000000 " +
	"0.1 0.3 1.5 16777217.0 2147483648.5 4294967295.5 9007199254740993.0 3.4028235677973366 123456789.123456789 0.30000000000000004 99999999999999999999.5 1.7976931348623157 1e5 1.5e300 1.0e-320 4.9e-324 1e400")

// wideSource has numbers around the limits of the machine words in all places
func wideSource(r *Rand) []byte {
	n := func() string {
		if r.P(1, 3) {
			return r.Pick(ints)
		}
		if r.P(1, 6) {
			return itoa(int64(r.Uint64() >> uint(1+r.Intn(62))))
		}
		return r.Pick(wideNumbers)
	}
	var sb strings.Builder
	for k := r.Range(1, 6); k > 0; k-- {
		fmt.Fprintf(&sb, "r%d = ", k)
		switch r.Intn(12) {
		case 0, 1:
			sb.WriteString(n())
		case 2:
			sb.WriteString(n() + " " + r.Pick([]string{"..", "..."}) + " " + n())
		case 3:
			sb.WriteString("#6." + n() + "(" + r.Pick(prims) + ")")
		case 4:
			sb.WriteString("[" + n() + "*" + n() + " int]")
		case 5:
			sb.WriteString("[a: " + n() + ", ? b: [" + n() + ", c: " + n() + "]]")
		case 6:
			sb.WriteString(r.Pick([]string{"uint", "bstr", "tstr", "bytes"}) + " .size " + r.Pick([]string{n(), "(" + n() + ")", n() + ".." + n()}))
		case 7:
			sb.WriteString("int " + r.Pick([]string{".lt", ".le", ".gt", ".ge", ".eq", ".ne"}) + " " + n())
		case 8:
			sb.WriteString(n() + " / " + n() + " / tstr")
		case 9:
			sb.WriteString("{ " + n() + ": int, " + n() + " => " + n() + " }")
		case 10:
			sb.WriteString("#" + n() + "." + n())
		default:
			sb.WriteString("uint .bits " + n())
		}
		sb.WriteString(r.Pick([]string{"\n", "\r\n", " ; c\n", "\n\n"}))
	}
	return []byte(sb.String())
}

var propX02 = &Property{ID: "X02", CLI: true,
	Rule:        "questions about sources, sessions, configurations and validated values are answered by builds for linux/amd64, for 32 bits (linux/386), for another processor level with fused instructions, without optimisation, and for js/wasm, and the complete answers compared; the command for 32 bits is compared with the native one on projects; non-trivial: distinct (build, kind of question, answer)",
	Assumptions: []string{"builds for other systems are compiled, those that this machine can not execute are not run", "types whose size differs between platforms (int, uint, uintptr, strings, slices) are not given to the size validator, whose range is the platform's uint"},
	Run: func(c *Ctx) {
		base := os.Getenv("VMON_PORTS")
		c.DoN("builds", 1, func(t *T, i int) {
			for _, n := range []string{"port-386", "port-v3", "port-plain", "port-wasm", "386/cddlc", "windows/cddlc.exe"} {
				if _, err := os.Stat(filepath.Join(base, n)); err != nil {
					b, _ := os.ReadFile(filepath.Join(base, n+".err"))
					for _, s := range []string{"signal: killed", "no space left", "cannot allocate memory"} {
						if bytes.Contains(b, []byte(s)) {
							t.Inconclusive("%s: %s", n, b)
						}
					}
					t.Fail("%s does not build where the native one does: %s", n, clip(string(b)))
				}
				t.Distinct(n)
				t.Count("builds", 1)
			}
		})
		questions := func(t *T, srcs [][]byte) (qs []portQuestion) {
			for k, s := range srcs {
				for _, kind := range []string{"lex", "parse", "generate", "session", "validate"} {
					if kind == "session" && k%3 != 0 {
						continue
					}
					qs = append(qs, portQuestion{Kind: kind, Pkg: pkgNames[k%len(pkgNames)], Src: s})
				}
			}
			return qs
		}
		c.DoN("sources", c.Pick(96, 4000), func(t *T, i int) {
			srcs := concInputs(t.Rand, 25)
			for k := 0; k < 25; k++ {
				srcs = append(srcs, wideSource(t.Rand))
			}
			for k := 0; k < 5; k++ {
				_, tx := t.codegen(i + k)
				srcs = append(srcs, tx.Src)
			}
			qs := questions(t, srcs)
			comparePorts(t, qs, i%4 == 0)
			if i < 3 {
				t.Sample("%d questions, the last source is %.150q", len(qs), srcs[len(srcs)-1])
			}
		})
		c.DoN("configurations", c.Pick(12, 300), func(t *T, i int) {
			dir := t.scratch()
			defer os.RemoveAll(dir)
			var qs []portQuestion
			for k := 0; k < 40; k++ {
				p := t.newProject(false)
				sub := filepath.Join(dir, fmt.Sprint(k))
				writeFiles(t, sub, p.files)
				for _, n := range []string{"cddlc.json", "cddlc.yaml"} {
					qs = append(qs, portQuestion{Kind: "config", Src: []byte(filepath.Join(sub, n))})
				}
				name := []string{"cddlc.json", "cddlc.yaml"}[k%2]
				v := t.Pick(wideNumbers)
				text := `{"version": ` + v + `, "builds": []}`
				if t.P(1, 2) {
					text = `{"version": "1", "builds": [{"package": "p", "src": "s", "output": "o"}], "options": {"n": ` + v + `}}`
				}
				writeFiles(t, sub+"n", map[string]string{name: text})
				qs = append(qs, portQuestion{Kind: "config", Src: []byte(filepath.Join(sub+"n", name))})
			}
			comparePorts(t, qs, false) // another system has other words for its errors
		})
		// long lines, many lines, deep sources
		c.DoN("large", c.Pick(12, 100), func(t *T, i int) {
			var src string
			n := []int{70000, 300000, 66000}[i/4%3]
			switch i % 4 {
			case 0: // columns and offsets beyond 16 bits
				src = "a = \"" + strings.Repeat("x", n) + "\" b = c d = [e: f"
			case 1: // lines beyond 16 bits
				src = strings.Repeat("\n", n) + "a = b\n" + strings.Repeat(";c\n", n) + "c = ["
			case 2:
				src = strings.Repeat("a"+itoa(int64(n))+" = ", 1) + strings.Repeat(t.Pick([]string{"[", "(", "{", "[a: ", "#6.1("}), 20000) + "int"
			default:
				s := bigSchema(t.Rand, i/4%3, c.Pick(1, 3))
				l := layouts[t.Intn(len(layouts))]
				src = string(Render(Print(s, t.Rand, 1), &l, t.Rand).Src)
			}
			t.Input([]byte(src))
			qs := questions(t, [][]byte{[]byte(src)})[:3]
			comparePorts(t, qs, i%4 < 2)
		})
		if _, err := os.Stat(filepath.Join(base, "386/cddlc")); err != nil {
			return
		}
		c.DoN("command", c.Pick(64, 3000), func(t *T, i int) {
			p := t.newProject(i%3 != 0)
			t.Input(p.text())
			src := cliSource(t, i)
			if i%2 == 0 {
				src = wideSource(t.Rand)
			}
			session := string(bytes.ReplaceAll(wideSource(t.Rand), []byte("\r"), nil)) + ":tree r1\n:exit\n"
			runs := []struct {
				args  []string
				stdin string
			}{{[]string{"lex", "one.cddl"}, ""}, {[]string{"parse", "one.cddl"}, ""}, {[]string{"init"}, ""}, {[]string{"generate"}, ""}, {[]string{"init"}, ""}, {[]string{"qrepl"}, session}, {[]string{"help"}, ""}, {[]string{"lex"}, ""}, {[]string{"nothing"}, ""}}
			var res [2][]cliResult
			var trees [2]map[string]string
			keep := t.c.CLI
			defer func() { t.c.CLI = keep }()
			for k, exe := range []string{keep, filepath.Join(base, "386/cddlc")} {
				dir := t.scratch()
				defer os.RemoveAll(dir)
				work := filepath.Join(dir, "w")
				writeFiles(t, work, p.files)
				if i%5 == 4 { // without a configuration, so that init makes one
					os.Remove(filepath.Join(work, "cddlc.json"))
					os.Remove(filepath.Join(work, "cddlc.yaml"))
				}
				writeFiles(t, work, map[string]string{"one.cddl": string(src)})
				t.c.CLI = exe
				for _, r := range runs {
					one := runIn(t, work, r.args, cliOpts{stdin: r.stdin})
					one.stderr = strings.ReplaceAll(one.message(), dir, "DIR")
					one.stdout = strings.ReplaceAll(one.stdout, dir, "DIR")
					res[k] = append(res[k], one)
				}
				trees[k] = snapshot(t, work)
			}
			for k, r := range runs {
				a, b := res[0][k], res[1][k]
				if b.crashed() && !a.crashed() {
					t.Fail("%q crashes in the build for 32 bits: %s", r.args, clip(b.stderr))
				}
				if a != b {
					t.Fail("%q in the build for 32 bits: exit status %d instead of %d, stdout %s, stderr %s", r.args, b.code, a.code, diffAt(b.stdout, a.stdout), diffAt(b.stderr, a.stderr))
				}
				t.Distinct("command", r.args[0], a.stdout, a.stderr)
				t.Eval()
			}
			for n, w := range trees[0] {
				if trees[1][n] != w {
					t.Fail("%s in the build for 32 bits: %s", n, diffAt(trees[1][n], w))
				}
			}
			if len(trees[0]) != len(trees[1]) {
				t.Fail("%d files in the build for 32 bits, otherwise %d", len(trees[1]), len(trees[0]))
			}
			t.Count("projects compared", 1)
		})
	}}
