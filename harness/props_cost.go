// P09: the cost of tokenizing, parsing and walking grows with the size of the source, not with its square
package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
)

// threadCPU is the CPU time of this thread; the collector's threads do not count
func threadCPU() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(1, &ru) // RUSAGE_THREAD
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type cost struct {
	cpu   time.Duration
	bytes uint64
	calls uint64
}

// costOf is the least cost of some runs of fn after a first one, with the collector off
func costOf(runs int, fn func()) (c cost) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	runtime.GC()
	fn() // grows the stack
	for i := 0; i < runs; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		s := threadCPU()
		fn()
		d := threadCPU() - s
		runtime.ReadMemStats(&b)
		if i == 0 || d < c.cpu {
			c.cpu = d
		}
		if n := b.TotalAlloc - a.TotalAlloc; i == 0 || n < c.bytes {
			c.bytes, c.calls = n, b.Mallocs-a.Mallocs
		}
	}
	return c
}

const (
	costFactor  = 16
	costGrowth  = 4.0 // growth of the allocations per token that is not accepted; 16 for a quadratic part that dominates
	costCPU     = 6.0 // same for CPU time
	costRepeats = 6
	costAtLeast = 40 * time.Millisecond // of CPU time per measurement of the small source
	costTrivial = 30 * time.Millisecond // what costs less is not judged
	costBytes   = 256 << 10
)

// costSources are sources of about n tokens, most of the shapes of P01 and flat ones
func costSources(n int) map[string]string {
	m := deepSources(n)
	rep := strings.Repeat
	each := func(format string) string {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, format, i)
		}
		return sb.String()
	}
	for k, v := range map[string]string{
		"one name": rep("n", 8*n) + " = int", "one text": "x = \"" + rep("t", 8*n) + "\"", "one comment": ";" + rep("c", 8*n) + "\nx = int",
		"one number": "x = 1" + rep("0", 8*n), "blank lines": "x = " + rep("\n", 8*n) + "int", "blanks": "x =" + rep(" ", 8*n) + "int", "carriage returns": "x = " + rep("\r\n", 4*n) + "int",
		"comment group": rep("; c\n", n) + "x = int", "comment groups": rep("; c\n\n", n) + "x = int", "trailing comments": each("x%d = int ; c\n"), "comments after all": "x = int\n" + rep("; c\n", n),
		"distinct rules": each("x%d = [a: int, b: tstr]\n"), "references": "x = int\ny = [" + rep("x, ", n) + "]", "forward references": each("x%d = y\n") + "y = int", "named references": each("x%d = int\n") + "y = [" + each("a%[1]d: x%[1]d, ") + "]",
		"fields": "x = {" + each("a%d: int,\n") + "}", "fields on one line": "x = (" + each("a%d: int,") + ")", "undeclared names": "x = [" + each("u%d, ") + "]", "undeclared rules": each("x%[1]d = u%[1]d\n"),
		"illegal tokens": "x = int " + rep("! ", n), "illegal lines": rep("!\n", n), "bad rules": rep("x = = int\n", n), "open texts": rep("x = \"a\n", n), "unknown operators": "x = uint " + rep(".foo ", n),
		"text choice": "x = " + each("\"t%d\" / ") + "int", "number choice": "x = " + each("%d / ") + "int", "duplicates of many": each("x%d = int\n") + each("x%d = int\n"), "ranges of names": "lo = 1\nhi = 2\n" + each("r%d = lo..hi\n"),
		"mixed rules": each("m%d = { a: int, ? b: [* tstr], c: 1..5, d: #6.1(tstr), e: tstr .size 4 / bool }\n"), "bytes above ASCII": "x = \"" + rep("é", 4*n) + "\"", "sockets": each("$s%d /= int\n"),
	} {
		m[k] = v
	}
	for k, v := range map[string]string{"backslashes": "\\", "semicolons": ";", "quotes": "'", "slashes": "//", "brackets": "([{", "closing brackets": "}])", "percents": "%d", "digits": "0123", "blanks inside": " ", "tabs": "\t", "dollars": "$", "points": ".", "dashes": "-", "equals": "=", "carriage returns inside": "\r", "zero bytes": "\x00", "wide": "\u65e5", "invalid": "\xff", "escapes": "\\n"} {
		v = rep(v, 8*n/len(v))
		m["text of "+k] = "x = \"" + v + "\""
		m["comment of "+k] = "; " + v + "\nx = int"
	}
	for k, v := range map[string]string{"dollars": "$", "points": "a.", "dashes": "a-", "ats": "@", "underscores": "_", "digits": "a1", "capitals": "AB", "humps": "aB"} {
		m["name of "+k] = "x = tstr\n" + rep(v, 8*n/len(v)) + "z = int"
	}
	m["fraction"], m["hex digits"], m["zeros"], m["binary digits"] = "x = 0."+rep("3", 8*n), "x = 0x"+rep("f", 8*n), "x = "+rep("0", 8*n), "x = 0b"+rep("1", 8*n)
	return m
}

// costLines are kinds of lines; sources of two or three kinds in turn show what one kind costs next to another
var costLines = []string{
	"x%[1]d = int\n", "x%[1]d = int ; c\n", "; c\n", "\n", "u%[1]d = v%[1]d\n", "u%[1]d = y\n", "d = int\n", "d /= tstr\n", "d //= (a: int)\n", "b = = int\n", "!\n", "o = \"a\n", "m%[1]d = { a: int, ? b: [* tstr], }\n", "$s /= int\n", "$$p%[1]d //= (a: int)\n",
	"r%[1]d = 0..%[1]d\n", "c%[1]d = uint .size 3\n", "w%[1]d = uint .lt \"a\"\n", "t%[1]d = \"%[1]d\" / \"b\"\n", "g%[1]d = #6.%[1]d(tstr)\n", "e%[1]d = [\n; c\nint, ; d\ntstr ; e\n]\n", "f%[1]d = f%[1]d\n", ") int\n", "h = ~d\n", "k%[1]d = (x%[1]d, x%[1]d)\n", "l%[1]d = {d => d}\n",
}

func pairSource(n int, kinds ...string) string {
	var sb strings.Builder
	for i := 0; sb.Len() < 10*n; i++ {
		fmt.Fprintf(&sb, kinds[i%len(kinds)]+"%.0[1]d", i)
	}
	return sb.String()
}

// blockSource has the kinds one after another, not in turn
func blockSource(n int, kinds ...string) string {
	s := ""
	for _, k := range kinds {
		s += pairSource(n/len(kinds), k)
	}
	return s
}

var costSteps = []struct {
	name string
	run  func(src []byte) func()
}{
	{"tokenize", func(src []byte) func() {
		return func() {
			l := lexer.NewLexer(src)
			for {
				if k, _, _ := l.Scan(); k == token.EOF {
					return
				}
			}
		}
	}},
	{"parse", func(src []byte) func() {
		return func() { parseSrc(src) }
	}},
	{"walk", func(src []byte) func() {
		cddl, _ := parseSrc(src)
		return func() {
			n := 0
			astutils.Walk(visitFunc(func(ast.Node) { n++ }), cddl)
		}
	}},
	{"list of diagnostics", func(src []byte) func() {
		_, errs := parseSrc(src)
		return func() { _ = errs.String() }
	}},
	{"generate", func(src []byte) func() {
		cddl, _ := parseSrc(src)
		return func() { generate(cddl, "p") }
	}},
}

var generatedShapes = map[string]bool{"one name": true, "one comment": true, "comment group": true, "comments after all": true, "distinct rules": true, "fields on one line": true, "rules": true, "references": true, "comment in entry": true, "comment groups": true, "trailing comments": true, "named references": true, "blanks": true, "forward references": true}

func judgeCost(t *T, shape, step string, small, big []byte, run func(src []byte) func()) {
	var last string
	for try := 0; try < costRepeats; try++ {
		t.Rearm()
		fs, fb := run(small), run(big)
		// the small source again and again, until the clock can tell
		a := costOf(2, fs)
		reps := 1
		total := a
		for total.cpu < costAtLeast && reps < 4096 && a.bytes*uint64(reps) < 100<<20 {
			reps *= 4
			total = costOf(1, func() {
				for i := 0; i < reps; i++ {
					fs()
				}
			})
		}
		perSmall := float64(total.cpu) / float64(reps)
		t.Rearm()
		b := costOf(1+try, fb)
		t.Rearm()
		t.Count("measurements", 1)
		last = ""
		if b.bytes > costBytes && float64(b.bytes) > costGrowth*costFactor*float64(a.bytes+4096) {
			last = fmt.Sprintf("allocates %d bytes for %d bytes of source and %d bytes for %d times as much", a.bytes, len(small), b.bytes, costFactor)
		} else if b.calls > 4096 && float64(b.calls) > costGrowth*costFactor*float64(a.calls+64) {
			last = fmt.Sprintf("allocates %d times for %d bytes of source and %d times for %d times as much", a.calls, len(small), b.calls, costFactor)
		} else if b.cpu > costTrivial && float64(b.cpu) > costCPU*costFactor*perSmall {
			last = fmt.Sprintf("uses %v for %d bytes of source and %v for %d times as much", time.Duration(perSmall), len(small), b.cpu, costFactor)
		}
		if last == "" {
			return
		}
		time.Sleep(time.Duration(try) * 100 * time.Millisecond)
	}
	t.Fail("to %s the source of %q %s", step, shape, last)
}

var propP09 = &Property{ID: "P09",
	Rule:        "some hundred shapes of sources (nested, repeated, wide, long, erroneous) at a size and at sixteen times that size: allocated bytes, allocations and CPU time of tokenizing, parsing, walking, joining the diagnostics and generating code are compared; non-trivial: distinct (shape, step, size)",
	Assumptions: []string{"CPU time of the measuring thread with the collector off, the least of several runs; a violation has to show six times", "proportional means: sixteen times the source costs less than 64 times the allocations and 96 times the CPU time"},
	Run: func(c *Ctx) {
		mixed := func(name string, kinds []string) {
			for w, src := range []func(int, ...string) string{pairSource, blockSource} {
				small, big := src(2800, kinds...), src(costFactor*2800, kinds...)
				for _, s := range costSteps[1:4] {
					c.Do(fmt.Sprintf("mixed/%s/%d/%s", name, w, s.name), func(t *T) {
						t.Input([]byte(small))
						judgeCost(t, strings.Join(kinds, ""), s.name, []byte(small), []byte(big), s.run)
						t.Distinct("mixed", fmt.Sprint(w), strings.Join(kinds, "\x00"), s.name)
						t.Count("mixed sources", 1)
					})
				}
			}
		}
		if c.Tier == "thorough" {
			for i := range costLines {
				for j := range costLines {
					if i != j {
						mixed(fmt.Sprintf("%d-%d", i, j), []string{costLines[i], costLines[j]})
					}
				}
			}
		}
		// what is wrong next to everything else
		for _, i := range []int{4, 5, 6, 9, 10, 11} {
			for j := range costLines {
				if i == j {
					continue
				}
				kinds := []string{costLines[i], costLines[j]}
				small, big := pairSource(5600, kinds...), pairSource(costFactor*5600, kinds...)
				c.Do(fmt.Sprintf("wrong/%d-%d", i, j), func(t *T) {
					t.Input([]byte(small))
					judgeCost(t, strings.Join(kinds, ""), "parse", []byte(small), []byte(big), costSteps[1].run)
					t.Distinct("wrong", strings.Join(kinds, "\x00"))
					t.Count("mixed sources", 1)
				})
			}
		}
		r := NewRand(c.Seed, "mixed")
		for i := 0; i < c.Pick(16, 100); i++ {
			var kinds []string
			for k := 0; k < len(costLines); k++ {
				if r.P(1+i%3, 3) || i == 0 {
					kinds = append(kinds, costLines[k])
				}
			}
			if len(kinds) > 0 {
				mixed(fmt.Sprintf("set %d", i), kinds)
			}
		}
		sizes := []int{2800}
		if c.Tier == "thorough" {
			sizes = []int{350, 700, 1400, 2800, 3000, 20000}
		}
		for _, n := range sizes {
			small, big := costSources(n), costSources(costFactor*n)
			if n > 3000 { // the nested ones would exceed the nesting limit
				for k := range deepSources(1) {
					delete(small, k)
				}
				delete(small, "text choice")
				delete(small, "number choice")
			}
			for _, k := range sortedKeys(small) {
				for _, s := range costSteps {
					if s.name == "generate" && (!generatedShapes[k] && !strings.HasPrefix(k, "text of ") && !strings.HasPrefix(k, "name of ") || n > 3000) {
						continue
					}
					c.Do(fmt.Sprintf("%d/%s/%s", n, k, s.name), func(t *T) {
						t.Input([]byte(small[k]))
						judgeCost(t, k, s.name, []byte(small[k]), []byte(big[k]), s.run)
						t.Distinct(k, s.name, fmt.Sprint(n))
						if s.name == "parse" {
							t.Sample("%s: %d and %d bytes of source", k, len(small[k]), len(big[k]))
						}
					})
				}
			}
		}
	}}
