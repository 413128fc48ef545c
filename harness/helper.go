package main

import (
	"fmt"
	"os"
	"os/signal"
	"strconv"
	"syscall"
)

func itoa(v int64) string { return strconv.FormatInt(v, 10) }

// helper runs a command with limited resources: FSIZE NOFILE EXE ARGS...
func helper(args []string) int {
	if len(args) < 3 {
		return 2
	}
	fsize, _ := strconv.ParseInt(args[0], 10, 64)
	nofd, _ := strconv.ParseInt(args[1], 10, 64)
	if fsize != 0 {
		if fsize < 0 {
			fsize = 0
		}
		// a write behind the limit fails with EFBIG instead of killing the process
		signal.Ignore(syscall.SIGXFSZ)
		l := syscall.Rlimit{Cur: uint64(fsize), Max: uint64(fsize)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			fmt.Fprintln(os.Stderr, "helper:", err)
			return 125
		}
	}
	if nofd > 0 {
		l := syscall.Rlimit{Cur: uint64(nofd), Max: uint64(nofd)}
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l); err != nil {
			fmt.Fprintln(os.Stderr, "helper:", err)
			return 125
		}
	}
	if err := syscall.Exec(args[2], args[2:], os.Environ()); err != nil {
		fmt.Fprintln(os.Stderr, "helper:", err)
	}
	return 125
}
