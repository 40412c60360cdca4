package harness

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

func init() {
	reg("C31", "a case is a generated repository with generated commands whose output is not taken as usual: the reader goes away after a drawn number of bytes, is slow, reads through a small or non-blocking pipe, or the output goes to a full device or nowhere; what was delivered is compared with a reference model of the history (diffs learned from git diff-tree), later runs and the cache are checked too. Non-trivial: the output was not taken by an ordinary reader.", c31)
}

// Take says how standard output is read.
type Take struct {
	Limit int // bytes after which the reader goes away, -1 = never
	Pause bool
	got   strings.Builder
	done  chan bool
}

func (tk *Take) start() (w *os.File) {
	r, w, err := os.Pipe()
	must(err)
	_, _, _ = syscall.Syscall(syscall.SYS_FCNTL, w.Fd(), 1031 /* F_SETPIPE_SZ */, 4096)
	tk.done = make(chan bool)
	go func() {
		defer close(tk.done)
		defer r.Close()
		buf := make([]byte, 4096)
		for {
			b := buf
			if tk.Pause {
				b = buf[:700]
			}
			if tk.Limit >= 0 {
				b = b[:min(len(b), tk.Limit-tk.got.Len())]
				if len(b) == 0 {
					return
				}
			}
			n, err := r.Read(b)
			tk.got.Write(b[:n])
			if err != nil {
				return
			}
			if tk.Pause {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	return w
}

func (r Result) trace() bool {
	return strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "fatal error:")
}

var python = sync.OnceValue(func() string {
	p, err := exec.LookPath("python3")
	if err != nil {
		return ""
	}
	return p
})

// WideRepo is a repository of few commits to many files.
func WideRepo(seed int64, files int) *Repo {
	rnd := rand.New(rand.NewSource(seed))
	r := &Repo{Branches: map[string]int{}, Tags: map[string]int{}, ATags: map[string]int{}, Head: "main"}
	var names []string
	for i := 0; i < files; i++ {
		names = append(names, fmt.Sprintf("%s/%s%d.txt", []string{"src", "docs", "src/lib", "a b", "t"}[rnd.Intn(5)], strings.Repeat("name", rnd.Intn(8)), i))
	}
	at := int64(1300000000)
	n := 2 + rnd.Intn(6)
	for i := 0; i < n; i++ {
		c := &Commit{Tree: map[string]File{}}
		if i > 0 {
			c.Parents = []int{i - 1}
			for k, v := range r.Commits[i-1].Tree {
				c.Tree[k] = v
			}
		}
		for j, p := range names {
			if j%n == i || rnd.Intn(10) == 0 {
				c.Tree[p] = File{"100644", strings.Repeat(fmt.Sprintf("l%d of %d\n", i, j), 1+rnd.Intn(3))}
			}
		}
		a := rnd.Intn(4)
		c.Author = Ident{fmt.Sprintf("Author %c", 'A'+a), fmt.Sprintf("a%d@example.com", a)}
		at += int64(rnd.Intn(10000000))
		c.ATime, c.CTime, c.ATZ = at, at+1000, "+0000"
		r.Commits = append(r.Commits, c)
	}
	r.Branches["main"] = n - 1
	r.NoMailmap()
	return r
}

func c31(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	var r *Repo
	switch g.uni("size", 6) {
	case 0:
		r = BigRepo(g.seed(), 200+g.uni("n", 1000), 30+g.uni("authors", 150))
		class("output of several pipefuls")
	case 1, 2:
		r = WideRepo(g.seed(), 60+g.uni("files", 500))
		class("output of several pipefuls")
	default:
		r = g.Repo(GenOpts{Min: 2, Max: 12, Weird: 10, Fancy: 25, Merge: 10, Empty: 8, Idents: 12, NoDirFile: true, NoTabs: true})
	}
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		s.Sep = true
		if g.pct("revs", 20) {
			s.Revs, s.Set = g.Revs(r)
		}
		s.Email = g.pct("email", 25)
		s.Merges = g.pct("merges", 15)
		v := g.View("cctrrh")
		if v.Kind == "table" {
			v.Limit = pick(g, "limit", []int{-1, 0, 0, 3})
		}
		o := g.Opts(w)
		args := v.Args(s)
		whole := func() Result { return w.Ask(r, s, v, o) }
		var before Result
		if g.pct("first", 50) {
			before = whole()
		}
		odd := o
		how := pick(g, "how", []string{"goes away", "goes away", "goes away", "slow", "non-blocking", "full device", "closed", "log to full device", "log goes away"})
		if how == "non-blocking" && python() == "" {
			how = "slow"
		}
		class("output " + how)
		switch how {
		case "goes away", "slow", "non-blocking":
			tk := &Take{Limit: -1}
			if how == "goes away" {
				tk.Limit = pick(g, "after", []int{0, 0, 1, 10, 100, 1000, 4096, 5000})
				if before.Out != "" && g.pct("anywhere", 60) {
					tk.Limit = g.uni("bytes", len(before.Out)+1)
				}
				tk.Pause = g.pct("pause", 30)
				if g.pct("ignored", 30) {
					odd.Wrap = []string{"sh", "-c", `trap "" PIPE; exec "$0" "$@"`}
				}
			} else if how == "slow" {
				tk.Pause = true
			} else {
				odd.Wrap = []string{python(), "-c", "import os, sys; os.set_blocking(1, False); os.execv(sys.argv[1], sys.argv[1:])"}
				tk.Pause = g.pct("pause", 50)
			}
			odd.Take = tk
			res := w.Who(odd, args...)
			if res.Hang != "" || res.trace() {
				w.Fail("does not end properly when its reader %s\n%s", how, res)
			}
			if how != "goes away" {
				w.Check(res, r, s, v)
				w.mark(true, "%s: %s, reader %s, %d bytes", summary(r), cmdline(res), how, len(res.Out))
				break
			}
			after := whole()
			if !strings.HasPrefix(after.Out, res.Out) && !strings.HasPrefix(before.Out, res.Out) && !strings.HasPrefix(ageless(after.Out), ageless(res.Out)) {
				w.Fail("the first %d bytes are different when the reader goes away\n%s\n%s", tk.Limit, res, after)
			}
			if res.Code != 0 && tk.Limit > len(after.Out)+50 {
				w.Fail("fails although everything was read\n%s", res)
			}
			w.mark(true, "%s: %s, reader goes away after %d of %d bytes", summary(r), cmdline(res), len(res.Out), len(after.Out))
		case "full device", "closed":
			to := map[string]string{"full device": ">/dev/full", "closed": ">&-"}[how]
			odd.Wrap = []string{"sh", "-c", `exec "$0" "$@" ` + to}
			res := w.Who(odd, args...)
			if res.Hang != "" || res.Signal != "" || res.trace() {
				w.Fail("does not end properly when its output is a %s\n%s", how, res)
			}
			after := whole()
			if v.CSV && how == "full device" && after.Out != "" && res.Code == 0 {
				w.Fail("reports success although the device for its output is full\n%s", res)
			}
			w.mark(true, "%s: %s, output %s", summary(r), cmdline(res), how)
		case "log to full device", "log goes away":
			to := map[string]string{"log to full device": "2>/dev/full", "log goes away": "2>&-"}[how]
			odd.Wrap = []string{"sh", "-c", `exec "$0" "$@" ` + to}
			res := w.Who(odd, append([]string{"-v"}, args...)...)
			w.Check(res, r, s, v)
			w.mark(true, "%s: %s, %s", summary(r), cmdline(res), how)
		}
		if g.pct("again", 50) {
			whole()
		}
		for _, f := range w.lastingCacheFiles() {
			b, err := os.ReadFile(f)
			must(err)
			if _, ok := gunzip(b); !ok {
				w.Fail("%s is not a complete cache file after %s", f[len(w.Root):], how)
			}
		}
	}
}
