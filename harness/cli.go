// Running the command line tool
package main

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

type cliOpts struct {
	stdin string
	dir   string   // an existing directory to run in; a new one otherwise
	fsize int64    // limit of the size of written files in bytes, if > 0 (-1 for zero bytes)
	nofd  int      // limit of open files
	user  bool     // run as an unprivileged user
	out   *os.File // the standard output, which is else collected
	start func()   // called when the command has been started
}

// nobody owns nothing but what a case gives to it
const nobody = 65534

// giveAway lets the unprivileged user reach and own what is below a scratch directory, and run the command
func giveAway(t *T, dir string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error { os.Lchown(p, nobody, nobody); return nil })
	base := filepath.Dir(t.c.CLI)
	os.Chmod(base, 0711)
	for d := filepath.Dir(dir); len(d) > len(base) && strings.HasPrefix(d, base); d = filepath.Dir(d) {
		os.Chmod(d, 0711)
	}
}

// reachable tells whether the unprivileged user can run commands in a directory
func reachable(dir string) bool {
	cmd := exec.Command("/bin/sh", "-c", "test -w . && test ! -r /etc/shadow")
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	return cmd.Run() == nil
}

type cliResult struct {
	code           int
	stdout, stderr string
	signal         string
}

const cliWall = 120 * time.Second

// runCLI runs the tool in a directory with the given files
func runCLI(t *T, args []string, files map[string]string, o cliOpts) cliResult {
	dir := o.dir
	if dir == "" {
		var err error
		dir, err = os.MkdirTemp(t.c.Tmp, "cli")
		if err != nil {
			t.Inconclusive("scratch directory: %v", err)
		}
		defer os.RemoveAll(dir)
	}
	writeFiles(t, dir, files)
	return runIn(t, dir, args, o)
}

func writeFiles(t *T, dir string, files map[string]string) {
	for name, content := range files {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(content), 0644); err != nil {
			t.Inconclusive("scratch file: %v", err)
		}
	}
}

func runIn(t *T, dir string, args []string, o cliOpts) cliResult {
	exe := t.c.CLI
	full := args
	if o.fsize != 0 || o.nofd != 0 {
		self, _ := os.Executable()
		full = append([]string{"exec", itoa(o.fsize), itoa(int64(o.nofd)), exe}, args...)
		exe = self
	}
	cmd := exec.Command(exe, full...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if o.user {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	cmd.Stdin = strings.NewReader(o.stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if o.out != nil {
		cmd.Stdout = o.out
	}
	if err := cmd.Start(); err != nil {
		t.Inconclusive("the command does not start: %v", err)
	}
	if o.start != nil {
		o.start()
	}
	// a command that never ends is found by the CPU time of the child; a wall clock only gives up
	timer := time.AfterFunc(cliWall, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !timer.Stop() {
		st := cmd.ProcessState
		if st.UserTime()+st.SystemTime() > 30*time.Second {
			t.Fail("the command %v uses %v of CPU time and does not end", args, st.UserTime()+st.SystemTime())
		}
		t.Inconclusive("the command %v did not end within %v", args, cliWall)
	}
	t.Rearm()
	r := cliResult{code: cmd.ProcessState.ExitCode(), stdout: out.String(), stderr: errb.String()}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.signal = ws.Signal().String()
	}
	t.Count("commands run", 1)
	return r
}

// crashed tells whether a command ended in a panic or by a signal
func (r cliResult) crashed() bool {
	return r.signal != "" || strings.Contains(r.stderr, "goroutine 1 [") || strings.Contains(r.stderr, "panic: ") || strings.Contains(r.stderr, "fatal error: ")
}

var logLine = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d (Len\(.*|Len validators.*|Embed called)?`)

// message is what the command says apart from time stamps and the trace of the code generator
func (r cliResult) message() string {
	return strings.TrimSpace(logLine.ReplaceAllString(r.stderr, ""))
}
