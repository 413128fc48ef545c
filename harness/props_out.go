// C06: what the commands print arrives, or they say that it does not
package main

import (
	"bytes"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

var propC06 = &Property{ID: "C06", CLI: true,
	Rule:        "lex, parse and doctor with standard outputs that take everything (files, the end and the middle of files, pipes that are read slowly, in small pieces or without blocking, sockets, terminals) and that do not (a full device, a file of limited size at every limit around the length, a descriptor that can only be read, a pipe whose reader goes away); non-trivial: distinct pairs of output and destination",
	Assumptions: []string{"ending by the signal for a pipe without a reader counts as a report", "a closed standard output is no destination: the Go runtime replaces it by the null device", "what should be printed is taken from a run that is collected in a pipe, which C03 and C05 judge"},
	Run: func(c *Ctx) {
		type job struct {
			dir  string
			args []string
			want cliResult
		}
		prepare := func(t *T, i int, src []byte) job {
			j := job{dir: t.scratch(), args: [][]string{{"lex", "s.cddl"}, {"parse", "s.cddl"}, {"doctor"}}[i%3]}
			if i%30 > 2 && i%3 == 2 {
				j.args = [][]string{{"lex", "s.cddl"}, {"parse", "s.cddl"}}[i/3%2]
			}
			writeFiles(t, j.dir, map[string]string{"s.cddl": string(src)})
			t.Input(src)
			j.want = runIn(t, j.dir, j.args, cliOpts{})
			if j.want.crashed() {
				t.Fail("%q crashes: %s", j.args, clip(j.want.stderr))
			}
			return j
		}
		open := func(t *T, path string, flag int) *os.File {
			f, err := os.OpenFile(path, flag, 0644)
			if err != nil {
				t.Inconclusive("destination: %v", err)
			}
			return f
		}
		read := func(t *T, path string) string {
			b, err := os.ReadFile(path)
			if err != nil {
				t.Inconclusive("destination: %v", err)
			}
			return string(b)
		}
		complete := func(t *T, j job, what, got string, r cliResult) {
			if got != j.want.stdout {
				t.Fail("%q to %s: %s", j.args, what, diffAt(got, j.want.stdout))
			}
			if r.code != j.want.code || r.signal != "" {
				t.Fail("%q to %s exits with %d %s, otherwise with %d", j.args, what, r.code, r.signal, j.want.code)
			}
			t.Count("complete outputs", 1)
			t.Count("bytes that arrived", len(got))
		}
		lost := func(t *T, j job, what, got string, r cliResult) {
			if !strings.HasPrefix(j.want.stdout, got) {
				t.Fail("%q to %s writes something else: %s", j.args, what, diffAt(got, j.want.stdout))
			}
			if r.signal == syscall.SIGPIPE.String() {
				t.Count("ended by the signal", 1)
				return
			}
			if r.crashed() {
				t.Fail("%q to %s crashes: %s", j.args, what, clip(r.stderr))
			}
			if r.code == 0 {
				t.Fail("%q to %s: %d of %d bytes arrive, and it exits with 0", j.args, what, len(got), len(j.want.stdout))
			}
			if r.message() == "" {
				t.Fail("%q to %s: %d of %d bytes arrive, and nothing is said about it", j.args, what, len(got), len(j.want.stdout))
			}
			t.Count("incomplete outputs reported", 1)
		}
		c.DoN("files", c.N(120, 3000), func(t *T, i int) {
			j := prepare(t, i, cliSource(t, i))
			defer os.RemoveAll(j.dir)
			out := t.scratch()
			defer os.RemoveAll(out)
			path := filepath.Join(out, "o")
			f := open(t, path, os.O_CREATE|os.O_WRONLY)
			r := runIn(t, j.dir, j.args, cliOpts{out: f})
			f.Close()
			complete(t, j, "a file", read(t, path), r)
			f = open(t, path, os.O_APPEND|os.O_WRONLY)
			r = runIn(t, j.dir, j.args, cliOpts{out: f})
			f.Close()
			both := read(t, path)
			if !strings.HasPrefix(both, j.want.stdout) {
				t.Fail("%q changes the earlier content of a file it is appended to", j.args)
			}
			complete(t, j, "the end of a file", both[len(j.want.stdout):], r)
			// in the middle of a file, which keeps what is before and behind
			before, behind := string(randBytes(t.Rand, t.Range(1, 300))), string(randBytes(t.Rand, t.Range(0, 300)))
			mid := filepath.Join(out, "m")
			if err := os.WriteFile(mid, []byte(before+strings.Repeat("\x00", len(j.want.stdout))+behind), 0644); err != nil {
				t.Inconclusive("destination: %v", err)
			}
			f = open(t, mid, []int{os.O_WRONLY, os.O_RDWR}[i%2])
			f.Seek(int64(len(before)), io.SeekStart)
			r = runIn(t, j.dir, j.args, cliOpts{out: f})
			at, _ := f.Seek(0, io.SeekCurrent)
			f.Close()
			both = read(t, mid)
			if !strings.HasPrefix(both, before) || !strings.HasSuffix(both, behind) {
				t.Fail("%q changes the file before or behind the place it is to write to", j.args)
			}
			complete(t, j, "the middle of a file", both[len(before):len(both)-len(behind)], r)
			if want := int64(len(before) + len(j.want.stdout)); at != want {
				t.Fail("%q leaves the file at offset %d, expected %d", j.args, at, want)
			}
			// does not take anything
			for _, d := range []struct {
				path string
				flag int
			}{{"/dev/full", os.O_WRONLY}, {path, os.O_RDONLY}} {
				f = open(t, d.path, d.flag)
				r = runIn(t, j.dir, j.args, cliOpts{out: f})
				f.Close()
				lost(t, j, d.path, "", r)
				t.Eval()
			}
			t.Distinct(j.args[0], j.want.stdout)
			t.Eval()
			if i < 3 {
				t.Sample("%q: %d bytes; to a full device: %d %q", j.args, len(j.want.stdout), r.code, r.message())
			}
		})
		// the size of the output file is limited
		c.DoN("limits", c.N(100, 2500), func(t *T, i int) {
			j := prepare(t, i, cliSource(t, i))
			defer os.RemoveAll(j.dir)
			n := len(j.want.stdout)
			for _, k := range []int{1, n - 1, n, n + 1, t.Intn(n + 1), n - t.Intn(min(n, 100)+1), 4096, n / 4096 * 4096} {
				if k < 1 {
					continue
				}
				path := filepath.Join(j.dir, "o")
				os.Remove(path)
				f := open(t, path, os.O_CREATE|os.O_WRONLY)
				r := runIn(t, j.dir, j.args, cliOpts{out: f, fsize: int64(k)})
				f.Close()
				got := read(t, path)
				switch {
				case k >= n:
					complete(t, j, "a file that is large enough", got, r)
				case len(got) > k:
					t.Inconclusive("the limit %d does not hold: %d", k, len(got))
				default:
					lost(t, j, "a file that is too small", got, r)
				}
				t.Distinct(j.args[0], j.want.stdout, itoa(int64(k)))
				t.Eval()
			}
		})
		// pipes
		c.DoN("pipes", c.N(60, 1500), func(t *T, i int) {
			src := cliSource(t, i)
			if i%3 == 0 {
				src = bytes.Repeat([]byte("name = [a: int, b: tstr, * c: text] ; comment\n"), 2000)
			}
			j := prepare(t, i/3+2*(i%2)+3, src)
			defer os.RemoveAll(j.dir)
			n := len(j.want.stdout)
			for _, kind := range []string{"slow", "pieces", "nonblocking", "socket", "terminal", "gone", "leaves"} {
				var p [2]int
				if kind == "socket" {
					var err error
					if p, err = syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0); err != nil {
						t.Inconclusive("socket: %v", err)
					}
				} else if kind == "terminal" {
					var err error
					if p, err = terminal(); err != nil {
						t.Count("no terminal", 1)
						continue
					}
				} else if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
					t.Inconclusive("pipe: %v", err)
				}
				if kind == "nonblocking" {
					syscall.SetNonblock(p[1], true)
				}
				r, w := os.NewFile(uintptr(p[0]), "r"), os.NewFile(uintptr(p[1]), "w")
				var got bytes.Buffer
				end := make(chan struct{})
				start := func() {
					w.Close()
					go func() {
						defer close(end)
						defer r.Close()
						switch kind {
						case "gone":
						case "leaves":
							io.CopyN(&got, r, 100)
						case "slow":
							time.Sleep(50 * time.Millisecond)
							io.Copy(&got, r)
						default:
							b := make([]byte, 1+n/200)
							for k := 0; ; k++ {
								m, err := r.Read(b)
								got.Write(b[:m])
								if err != nil {
									return
								}
								if k%10 == 0 {
									time.Sleep(time.Millisecond)
								}
							}
						}
					}()
				}
				if kind == "gone" {
					r.Close()
				}
				res := runIn(t, j.dir, j.args, cliOpts{out: w, start: start})
				<-end
				switch {
				case kind == "gone":
					lost(t, j, "a pipe without a reader", "", res)
				case kind == "leaves":
					if n > 1<<20 { // more than fits into the pipe
						lost(t, j, "a pipe whose reader leaves", got.String(), res)
					}
				default:
					complete(t, j, "a pipe ("+kind+")", got.String(), res)
				}
				t.Distinct(j.args[0], j.want.stdout, kind)
				t.Eval()
			}
		})
	}}

// terminal opens a pseudo terminal that changes nothing: the side to read and the side to write
func terminal() (p [2]int, err error) {
	ioctl := func(fd int, op uintptr, arg unsafe.Pointer) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), op, uintptr(arg)); e != 0 {
			return e
		}
		return nil
	}
	p[0], err = syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return p, err
	}
	var no, locked int32
	if err = ioctl(p[0], syscall.TIOCSPTLCK, unsafe.Pointer(&locked)); err == nil {
		err = ioctl(p[0], syscall.TIOCGPTN, unsafe.Pointer(&no))
	}
	if err == nil {
		p[1], err = syscall.Open("/dev/pts/"+itoa(int64(no)), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	}
	if err != nil {
		syscall.Close(p[0])
		return p, err
	}
	var tio syscall.Termios
	if err = ioctl(p[1], syscall.TCGETS, unsafe.Pointer(&tio)); err == nil {
		tio.Oflag &^= syscall.OPOST
		tio.Lflag &^= syscall.ECHO | syscall.ICANON
		err = ioctl(p[1], syscall.TCSETS, unsafe.Pointer(&tio))
	}
	if err != nil {
		syscall.Close(p[0])
		syscall.Close(p[1])
	}
	return p, err
}
