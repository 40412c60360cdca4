// Package harness decides the properties listed in /verif/properties.jsonl by
// generated-input search (pgregory.net/rapid) against the git-who executable
// built from /repo's working tree.
package harness

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- settings

var (
	checkID   = os.Getenv("VERIF_CHECK")
	tier      = envOr("VERIF_TIER", "quick")
	shard     = envOr("VERIF_SHARD", "0")
	whoBin    = os.Getenv("VERIF_WHO")     // git-who under test
	workDir   = os.Getenv("VERIF_WORK")    // scratch for this shard
	replayDir = os.Getenv("VERIF_REPLAYS") // where failures are written
	statsFile = os.Getenv("VERIF_STATS")   // where coverage is written
	gitBin    = envOr("VERIF_GIT", "/usr/bin/git")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// An infrastructure failure ends the shard with exit code 3; the driver turns
// that into an error exit, never into a violation.
func infra(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "INFRA: "+format+"\n", args...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		infra("%v", err)
	}
}

// ---------------------------------------------------------------- coverage

type stats struct {
	Cases      int            `json:"cases"`      // generated cases
	Runs       int            `json:"runs"`       // git-who executions judged
	NonTrivial int            `json:"nontrivial"` // distinct, by the check's rule
	Classes    map[string]int `json:"classes"`    // what the generator produced
	Samples    []string       `json:"samples"`
	Rule       string         `json:"rule"`
	seen       map[[16]byte]bool
}

var st = stats{Classes: map[string]int{}, seen: map[[16]byte]bool{}}
var stMu sync.Mutex

func class(name string) {
	stMu.Lock()
	st.Classes[name]++
	stMu.Unlock()
}

func classIf(b bool, name string) {
	if b {
		class(name)
	}
}

func nontrivial(sig string, sample func() string) {
	h := sha256.Sum256([]byte(sig))
	var k [16]byte
	copy(k[:], h[:])
	if st.seen[k] {
		return
	}
	st.seen[k] = true
	st.NonTrivial++
	if n := len(st.Samples); n < 3 && (st.NonTrivial == 1 || st.NonTrivial == 17 || st.NonTrivial == 101) {
		st.Samples = append(st.Samples, sample())
	}
}

func writeStats() {
	if statsFile == "" {
		return
	}
	st.Rule = rules[checkID]
	b, _ := json.Marshal(st)
	_ = os.WriteFile(statsFile, b, 0o644)
}

// ---------------------------------------------------------------- world

// World is one generated case: a scratch directory holding a repository and
// everything git-who may look at or write to.
type World struct {
	T      *rapid.T
	Root   string // scratch, everything below is inside
	Dir    string // repository work tree
	Home   string
	Cache  string // XDG_CACHE_HOME
	Tmp    string
	TZ     string
	steps  []string // shell lines that reproduce the case
	sig    strings.Builder
	nfile  int
	over   []string // additional environment for git
	common string   // git directory, if not in Dir
}

var worldSeq int

func NewWorld(t *rapid.T, repoName string) *World {
	worldSeq++
	soonTime = time.Now().Unix() + 1800
	st.Cases++
	root := filepath.Join(workDir, "w"+strconv.Itoa(worldSeq))
	w := &World{T: t, Root: root, TZ: "UTC"}
	w.Dir = filepath.Join(root, "src", repoName)
	w.Home = filepath.Join(root, "home")
	w.Cache = filepath.Join(root, "cache")
	w.Tmp = filepath.Join(root, "tmp")
	for _, d := range []string{w.Dir, w.Home, w.Cache, w.Tmp} {
		must(os.MkdirAll(d, 0o755))
	}
	w.step("mkdir -p " + w.q(w.Dir) + " " + w.q(w.Home) + " " + w.q(w.Cache) + " " + w.q(w.Tmp))
	return w
}

func (w *World) Close() {
	// Directories may have been made read-only by a case.
	_ = os.RemoveAll(w.Root)
}

// q quotes a string for the replay script, with the scratch root replaced by a
// shell variable.
func (w *World) q(s string) string {
	parts := strings.Split(s, w.Root)
	for i, p := range parts {
		parts[i] = shq(p)
	}
	return strings.Join(parts, `"$W"`)
}

func shq(s string) string {
	if s == "" {
		return ""
	}
	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
}

func (w *World) step(s string) { w.steps = append(w.steps, s) }

func (w *World) note(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	for _, l := range strings.Split(s, "\n") {
		w.step("# " + l)
	}
}

// Fail records the case as a self-contained shell script and fails it.
func (w *World) Fail(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if replayDir != "" {
		var b bytes.Buffer
		fmt.Fprintf(&b, "#!/bin/bash\n# Replay of a violation of %s. Usage: GIT_WHO=/path/to/git-who bash %s-%s.sh\n", checkID, checkID, shard)
		fmt.Fprintf(&b, "# Recreates the repository in a scratch directory and runs the commands; what was\n# observed and what the property demands is noted at the end.\n")
		fmt.Fprintf(&b, "W=$(mktemp -d); GIT_WHO=${GIT_WHO:-/repo/git-who}; trap 'rm -rf \"$W\"' EXIT\n")
		for _, s := range w.steps {
			fmt.Fprintln(&b, s)
		}
		for _, l := range strings.Split(msg, "\n") {
			fmt.Fprintf(&b, "## %s\n", l)
		}
		_ = os.WriteFile(filepath.Join(replayDir, checkID+"-"+shard+".sh"), b.Bytes(), 0o644)
	}
	w.Close()
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	w.T.Fatalf("%s", msg)
}

func (w *World) baseEnv() []string {
	env := []string{
		"HOME=" + w.Home,
		"XDG_CACHE_HOME=" + w.Cache,
		"XDG_CONFIG_HOME=" + w.Home + "/.config",
		"TMPDIR=" + w.Tmp,
		"TZ=" + w.TZ,
		"LC_ALL=C",
		"PATH=" + filepath.Dir(gitBin) + ":/usr/bin:/bin",
		"GIT_CONFIG_NOSYSTEM=1",
		"GIT_CONFIG_GLOBAL=" + w.Home + "/.gitconfig",
		"GIT_TERMINAL_PROMPT=0",
		"GIT_OPTIONAL_LOCKS=0",
	}
	return append(env, w.over...)
}

// Git runs a plain git command of the harness itself.
func (w *World) Git(dir string, stdin []byte, args ...string) []byte {
	out, err := w.gitTry(dir, stdin, args...)
	if err != nil {
		infra("git %q in %s: %v", args, dir, err)
	}
	return out
}

func (w *World) gitTry(dir string, stdin []byte, args ...string) ([]byte, error) {
	cmd := exec.Command(gitBin, args...)
	cmd.Dir = dir
	cmd.Env = w.baseEnv()
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if err != nil {
		return out.Bytes(), fmt.Errorf("%w: %s", err, errb.String())
	}
	return out.Bytes(), nil
}

// WriteFile writes a file inside the scratch directory and records it.
func (w *World) WriteFile(path string, data []byte) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, data, 0o644))
	w.step(fmt.Sprintf("mkdir -p %s; base64 -d <<'E' | gunzip > %s\n%s\nE", w.q(filepath.Dir(path)), w.q(path), b64gz(data)))
	w.sig.WriteString(path[len(w.Root):])
	w.sig.Write(data)
}

func (w *World) Remove(path string) {
	must(os.RemoveAll(path))
	w.step("rm -rf " + w.q(path))
	w.sig.WriteString("rm" + path[len(w.Root):])
}

func b64gz(data []byte) string {
	var z bytes.Buffer
	g := gzip.NewWriter(&z)
	g.Write(data)
	g.Close()
	s := base64.StdEncoding.EncodeToString(z.Bytes())
	var b strings.Builder
	for len(s) > 120 {
		b.WriteString(s[:120] + "\n")
		s = s[120:]
	}
	b.WriteString(s)
	return b.String()
}

// ---------------------------------------------------------------- running

type RunOpts struct {
	Cwd     string
	Procs   int      // GOMAXPROCS, 0 = 4
	NoCache bool     // GIT_WHO_DISABLE_CACHE=1
	TZ      string   // default w.TZ
	Path    string   // prepended to PATH (fault shims)
	Env     []string // additional
	Quiet   bool     // do not count as a judged run
	Nobody  bool     // run as an unprivileged user
	Wrap    []string // command line to run git-who through
	Cmd     []string // command line in place of git-who
	Stdin   *os.File
	TTY     bool  // standard input and error are a terminal, output is none
	Take    *Take // how standard output is read
}

const nobody = 65534

type Result struct {
	Args       []string
	Opts       RunOpts
	Code       int
	Signal     string
	Out, Err   string
	Start, End time.Time
	Hang       string // not empty: the process was found deadlocked or spinning
	Faulted    string // git command that was made to fail
	unfired    bool   // the failure did not happen
}

func (r *Result) Quiet() { r.unfired = true }

const (
	cpuLimit = 40      // seconds of CPU per process before it counts as endless
	memLimit = 6 << 30 // address space
)

func setLimit(pid int, res int, lim uint64) {
	type rlimit struct{ cur, max uint64 }
	l := rlimit{lim, lim}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(res), uintptr(unsafe.Pointer(&l)), 0, 0, 0)
}

func (w *World) whoCmd(o RunOpts, args ...string) *exec.Cmd {
	line := append([]string{}, o.Wrap...)
	if len(o.Cmd) > 0 {
		line = append(line, o.Cmd...)
	} else {
		line = append(line, whoBin)
	}
	line = append(line, args...)
	cmd := exec.Command(line[0], line[1:]...)
	if o.Stdin != nil {
		cmd.Stdin = o.Stdin
	}
	cmd.Dir = o.Cwd
	if cmd.Dir == "" {
		cmd.Dir = w.Dir
	}
	env := w.baseEnv()
	procs := o.Procs
	if procs == 0 {
		procs = 4
	}
	env = append(env, "GOMAXPROCS="+strconv.Itoa(procs), "PWD="+cmd.Dir)
	if o.NoCache {
		env = append(env, "GIT_WHO_DISABLE_CACHE=1")
	}
	if o.TZ != "" {
		env = append(env, "TZ="+o.TZ)
	}
	if o.Path != "" {
		env = append(env, "PATH="+o.Path+":"+filepath.Dir(gitBin)+":/usr/bin:/bin")
	}
	env = append(env, o.Env...)
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if o.Nobody {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	return cmd
}

func (w *World) whoLine(o RunOpts, args ...string) string {
	var b strings.Builder
	cwd := o.Cwd
	if cwd == "" {
		cwd = w.Dir
	}
	procs := o.Procs
	if procs == 0 {
		procs = 4
	}
	tz := o.TZ
	if tz == "" {
		tz = w.TZ
	}
	fmt.Fprintf(&b, "(cd %s && env HOME=%s XDG_CACHE_HOME=%s TMPDIR=%s TZ=%s LC_ALL=C GIT_CONFIG_NOSYSTEM=1 GIT_CONFIG_GLOBAL=%s GOMAXPROCS=%d",
		w.q(cwd), w.q(w.Home), w.q(w.Cache), w.q(w.Tmp), tz, w.q(w.Home+"/.gitconfig"), procs)
	for _, e := range append(append([]string{}, w.over...), o.Env...) {
		b.WriteString(" " + w.q(e))
	}
	if o.NoCache {
		b.WriteString(" GIT_WHO_DISABLE_CACHE=1")
	}
	if o.Path != "" {
		b.WriteString(" PATH=" + w.q(o.Path) + `:"$PATH"`)
	}
	if o.Nobody {
		fmt.Fprintf(&b, " setpriv --reuid=%d --regid=%d --clear-groups", nobody, nobody)
	}
	for _, a := range o.Wrap {
		b.WriteString(" " + w.q(a))
	}
	for _, a := range o.Cmd {
		b.WriteString(" " + w.q(a))
	}
	if len(o.Cmd) == 0 {
		b.WriteString(` "$GIT_WHO"`)
	}
	for _, a := range args {
		if a == "" {
			b.WriteString(" ''")
		} else {
			b.WriteString(" " + w.q(a))
		}
	}
	if o.Stdin != nil {
		b.WriteString(" < " + w.q(o.Stdin.Name()))
	}
	if o.Take != nil && o.Take.Limit >= 0 {
		fmt.Fprintf(&b, " | head -c %d", o.Take.Limit)
	} else if o.Take != nil {
		b.WriteString(" | cat")
	}
	b.WriteString("); echo \"exit status $?\"")
	return b.String()
}

// Who runs git-who and records the run.
func (w *World) Who(o RunOpts, args ...string) Result {
	line := w.whoLine(o, args...)
	if o.TTY {
		w.step("# with standard input and error, but not output, on a terminal:")
		w.sig.WriteString("tty")
	}
	w.step(line)
	w.sig.WriteString(line)
	if !o.Quiet {
		stMu.Lock()
		st.Runs++
		stMu.Unlock()
	}
	return w.whoQuiet(o, args...)
}

func (w *World) whoQuiet(o RunOpts, args ...string) Result {
	cmd := w.whoCmd(o, args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	r := Result{Args: args, Opts: o, Start: time.Now()}
	cmd.WaitDelay = 20 * time.Second
	var pipe *os.File
	if o.Take != nil {
		pipe = o.Take.start()
		cmd.Stdout = pipe
	}
	var terminal, slave *os.File
	said := make(chan bool)
	if o.TTY {
		var err error
		if terminal, slave, err = openPTY(); err != nil {
			infra("pty: %v", err)
		}
		defer terminal.Close()
		cmd.Stdin, cmd.Stderr = slave, slave
	}
	if err := cmd.Start(); err != nil {
		infra("start git-who: %v", err)
	}
	if o.TTY {
		slave.Close()
		go func() {
			io.Copy(&errb, terminal) // ends with EIO when nobody has the terminal open
			close(said)
		}()
	}
	if pipe != nil {
		pipe.Close()
	}
	pid := cmd.Process.Pid
	setLimit(pid, 0 /* RLIMIT_CPU */, cpuLimit)
	setLimit(pid, 9 /* RLIMIT_AS */, memLimit)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(10 * time.Second):
		err, r.Hang = waitOrHang(pid, done)
	}
	r.End = time.Now()
	if o.TTY && r.Hang == "" {
		<-said
	}
	if o.Take != nil {
		<-o.Take.done
		out.WriteString(o.Take.got.String())
	}
	r.Out, r.Err = out.String(), errb.String()
	var ee *exec.ExitError
	switch {
	case r.Hang != "":
		r.Code = -1
	case err == nil:
	case errors.As(err, &ee):
		ws := ee.Sys().(syscall.WaitStatus)
		r.Code = ws.ExitStatus()
		if ws.Signaled() {
			r.Signal = ws.Signal().String()
			r.Code = 128 + int(ws.Signal())
			if ws.Signal() == syscall.SIGXCPU {
				r.Hang = fmt.Sprintf("used more than %d s of CPU time", cpuLimit)
			} else if ws.Signal() == syscall.SIGKILL && o.Path == "" {
				ut := ee.ProcessState.UserTime() + ee.ProcessState.SystemTime()
				if ut > (cpuLimit-2)*time.Second {
					r.Hang = fmt.Sprintf("used %v of CPU time", ut)
				} else {
					infra("git-who was killed from outside (out of memory?)")
				}
			}
		}
	default:
		infra("wait git-who: %v", err)
	}
	return r
}

// waitOrHang decides by progress, not by the clock: a process counts as
// deadlocked only when for 40 seconds none of its process group was runnable or
// used any CPU time.
func waitOrHang(pid int, done chan error) (error, string) {
	idle := 0
	last := int64(-1)
	for i := 0; ; i++ {
		select {
		case err := <-done:
			return err, ""
		case <-time.After(500 * time.Millisecond):
		}
		cpu, runnable := groupState(pid)
		if runnable || cpu != last {
			idle = 0
		} else {
			idle++
		}
		last = cpu
		if idle >= 80 {
			_ = syscall.Kill(-pid, syscall.SIGKILL)
			<-done
			return nil, "deadlocked: no process of it was runnable or used CPU time for 40 s"
		}
		if i > 1200 {
			_ = syscall.Kill(-pid, syscall.SIGKILL)
			<-done
			infra("git-who still making progress after 600 s")
		}
	}
}

func groupState(pgid int) (cpu int64, runnable bool) {
	ents, _ := os.ReadDir("/proc")
	for _, e := range ents {
		if _, err := strconv.Atoi(e.Name()); err != nil {
			continue
		}
		b, err := os.ReadFile("/proc/" + e.Name() + "/stat")
		if err != nil {
			continue
		}
		s := string(b)
		i := strings.LastIndexByte(s, ')')
		if i < 0 {
			continue
		}
		f := strings.Fields(s[i+1:])
		if len(f) < 15 || f[2] != strconv.Itoa(pgid) {
			continue
		}
		if f[0] == "R" || f[0] == "D" {
			runnable = true
		}
		u, _ := strconv.ParseInt(f[11], 10, 64)
		k, _ := strconv.ParseInt(f[12], 10, 64)
		cpu += u + k
		// threads
		ts, _ := os.ReadDir("/proc/" + e.Name() + "/task")
		for _, t := range ts {
			tb, err := os.ReadFile("/proc/" + e.Name() + "/task/" + t.Name() + "/stat")
			if err != nil {
				continue
			}
			q := string(tb)
			if j := strings.LastIndexByte(q, ')'); j >= 0 && len(q) > j+2 && (q[j+2] == 'R' || q[j+2] == 'D') {
				runnable = true
			}
		}
	}
	return cpu, runnable
}

func (r Result) String() string {
	return fmt.Sprintf("git-who %q (GOMAXPROCS=%d, nocache=%v)\nexit %d %s%s\nstdout:\n%s\nstderr:\n%s", r.Args, r.Opts.Procs, r.Opts.NoCache, r.Code, r.Signal, r.Hang, clip(r.Out), clip(r.Err))
}

func clip(s string) string {
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

// crashed tells whether the run ended in a Go crash instead of an error.
func (r Result) crashed() bool {
	return r.Signal != "" || strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:")
}

// OK demands a successful run.
func (w *World) OK(r Result) {
	if r.Hang != "" {
		w.Fail("git-who does not terminate: %s\n%s", r.Hang, r)
	}
	if r.Code != 0 || r.crashed() {
		w.Fail("git-who failed on a valid request\n%s", r)
	}
}

// ---------------------------------------------------------------- misc

func hexHash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func diffLines(want, got string) string {
	return "--- expected\n" + want + "\n--- got\n" + got
}
