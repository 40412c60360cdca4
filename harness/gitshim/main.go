// gitshim stands in for git on PATH. It counts the git commands git-who runs
// and makes one of them fail in a chosen way.
//
//	SHIM_DIR   directory for the call log (one file per call, numbered)
//	SHIM_GIT   the real git
//	SHIM_CALL  number of the call to make fail (from 0), -1 for none
//	SHIM_KIND  how: before, silent, after, mid, midkill, kill, afterkill, or
//	           noisy, noisyfail: more on standard error than a pipe holds
//	SHIM_EXIT  the exit status, 128 if not set
//	SHIM_QUIET without a message
//	SHIM_AT    for mid kinds: how many bytes of output to pass on
package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
)

func die() {
	signal.Reset()
	syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

func fail() {
	if os.Getenv("SHIM_QUIET") == "" {
		fmt.Fprintln(os.Stderr, "fatal: injected failure")
	}
	code, err := strconv.Atoi(os.Getenv("SHIM_EXIT"))
	if err != nil || code <= 0 {
		code = 128
	}
	os.Exit(code)
}

func main() {
	dir, git := os.Getenv("SHIM_DIR"), os.Getenv("SHIM_GIT")
	n := 0
	for ; ; n++ {
		f, err := os.OpenFile(filepath.Join(dir, strconv.Itoa(n)), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
		if err == nil {
			fmt.Fprint(f, strings.Join(os.Args[1:], "\x00"))
			f.Close()
			break
		}
		if !os.IsExist(err) {
			fmt.Fprintln(os.Stderr, "gitshim:", err)
			os.Exit(120)
		}
	}
	call, _ := strconv.Atoi(os.Getenv("SHIM_CALL"))
	if os.Getenv("SHIM_CALL") == "" || call != n {
		err := syscall.Exec(git, append([]string{"git"}, os.Args[1:]...), os.Environ())
		fmt.Fprintln(os.Stderr, "gitshim:", err)
		os.Exit(120)
	}
	at, _ := strconv.Atoi(os.Getenv("SHIM_AT"))
	kind := os.Getenv("SHIM_KIND")
	fired := func() { os.WriteFile(filepath.Join(dir, "fired"), nil, 0o644) }
	switch kind {
	case "killparent":
		// git-who itself dies at this moment
		fired()
		syscall.Kill(os.Getppid(), syscall.SIGKILL)
		os.Exit(0)
	case "before":
		fired()
		fail()
	case "silent":
		fired()
		fail()
	case "kill":
		fired()
		die()
	case "noisy", "noisyfail":
		fired()
		for i := 0; i < 4000; i++ {
			fmt.Fprintf(os.Stderr, "warning: %060d\n", i)
		}
		if kind == "noisyfail" {
			fail()
		}
		syscall.Exec(git, append([]string{"git"}, os.Args[1:]...), os.Environ())
		os.Exit(120)
	}
	cmd := exec.Command(git, os.Args[1:]...)
	cmd.Stdin, cmd.Stderr = os.Stdin, os.Stderr
	out, err := cmd.StdoutPipe()
	if err != nil {
		os.Exit(120)
	}
	if err := cmd.Start(); err != nil {
		os.Exit(120)
	}
	switch kind {
	case "after", "afterkill", "killparentafter":
		io.Copy(os.Stdout, out)
		cmd.Wait()
		fired()
		switch kind {
		case "afterkill":
			die()
		case "killparentafter":
			syscall.Kill(os.Getppid(), syscall.SIGKILL)
			os.Exit(0)
		}
		fail()
	default: // mid, midkill
		io.CopyN(os.Stdout, out, int64(at))
		cmd.Process.Kill()
		cmd.Wait()
		fired()
		if kind == "midkill" {
			die()
		}
		fail()
	}
}
