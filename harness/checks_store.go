package harness

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

func init() {
	reg("C29", "a case is a generated repository and cache; the place of the cache is then made unusable in drawn ways (permissions of each directory and file for an unprivileged user, other things in their place, impossible locations, a full file system) and git-who runs; every run is compared with a reference model of the history (diffs learned from git diff-tree), also after the place has become usable again. Non-trivial: the place of the cache was changed.", c29)
}

// ---------------------------------------------------------------- C29

// tree of the places the cache consists of, from the outside in.
func (w *World) cachePlaces() []string {
	out := []string{w.Cache, filepath.Join(w.Cache, "git-who"), filepath.Join(w.Cache, "git-who", "gob")}
	for _, f := range w.lastingCacheFiles() {
		return append(out, filepath.Dir(f), f)
	}
	return out
}

func (w *World) sh(format string, args ...any) {
	line := fmt.Sprintf(format, args...)
	cmd := exec.Command("/bin/sh", "-c", strings.ReplaceAll(line, `"$W"`, w.Root))
	if b, err := cmd.CombinedOutput(); err != nil {
		infra("%s: %v %s", line, err, b)
	}
	w.step(line)
	w.sig.WriteString(line)
}

var smallFS = sync.OnceValue(func() bool {
	d := filepath.Join(workDir, "fs")
	must(os.MkdirAll(d, 0o755))
	return exec.Command("unshare", "-Urm", "mount", "-t", "tmpfs", "-o", "size=16k", "none", d).Run() == nil
})

func c29(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	var r *Repo
	if g.pct("big", 8) {
		r = BigRepo(g.seed(), 1030+g.uni("n", 1500), 5)
		class("several batches")
	} else {
		r = g.Repo(GenOpts{Min: 2, Max: 9, Weird: 10, Fancy: 15, Merge: 10, Empty: 8, NoDirFile: true, NoTabs: true})
	}
	w.Install(r)
	r.classes()
	w.WriteFile(filepath.Join(w.Home, ".gitconfig"), []byte("[safe]\n\tdirectory = *\n"))
	w.sh("chmod 755 %s; chown -R %d:%d %s", w.q(w.Root), nobody, nobody, w.q(w.Cache))
	draw := func() (View, *Sel) {
		s := r.SelHead()
		s.Sep = true
		if g.pct("revs", 20) {
			s.Revs, s.Set = g.Revs(r)
		}
		s.Email = g.pct("email", 20)
		v := g.View("cccttrh")
		if g.pct("diff", 80) {
			v.Mode = pick(g, "diffmode", []Mode{ByLines, ByFiles})
		}
		return v, s
	}
	ask := func(o RunOpts, what string) {
		v, s := draw()
		if o.Procs == 0 {
			o.Procs = pick(g, "procs", []int{1, 2, 4, 8})
		}
		res := w.Ask(r, s, v, o)
		w.mark(what != "", "%s: %s: %s", summary(r), what, cmdline(res))
	}
	if g.pct("small file system", 20) && smallFS() {
		class("small file system")
		for i := 0; i < 3; i++ {
			opt := fmt.Sprintf("size=%dk", 4*(1+g.uni("pages", 12)))
			if g.pct("inodes", 25) {
				opt = fmt.Sprintf("nr_inodes=%d", 1+g.uni("inodes", 7))
			}
			// A first run fills what it can.
			script := `mount -t tmpfs -o "$1" none "$2" && shift 2 && { [ "$1" = once ] || "$2" --csv -l >/dev/null; } && shift && exec "$@"`
			o := RunOpts{Wrap: []string{"unshare", "-Urm", "sh", "-c", script, "sh", opt, w.Cache, pick(g, "runs", []string{"once", "twice"})}}
			ask(o, "full file system "+opt)
		}
		return
	}
	o := RunOpts{Nobody: true}
	for i := 0; i < 2; i++ {
		if g.pct("warm", 85) {
			v, s := draw()
			v.Mode = ByLines
			w.Ask(r, s, v, o)
		}
		places := w.cachePlaces()
		what := ""
		run := o
		saved := filepath.Join(w.Root, fmt.Sprintf("saved%d", i))
		p := places[g.uni("place", len(places))]
		if _, err := os.Lstat(p); err != nil {
			p = w.Cache
		}
		switch k := g.uni("fault", 10); {
		case k < 4:
			what = fmt.Sprintf("mode %03o", pick(g, "mode", []int{0o000, 0o100, 0o200, 0o300, 0o400, 0o500, 0o555}))
			w.sh("chmod %s %s", what[5:], w.q(p))
		case k < 6:
			what = "of another user, " + pick(g, "mode", []string{"755", "700", "644", "600", "555", "711"})
			w.sh("chown 0:0 %s; chmod %s %s", w.q(p), what[len(what)-3:], w.q(p))
		case k < 9:
			what = pick(g, "thing", []string{"a file", "an empty file", "a directory", "a full directory", "a link to nowhere", "a link to itself", "a link to another directory", "a link to a device", "a link to an unreadable file"})
			w.sh("mv %s %s", w.q(p), w.q(saved))
			switch what {
			case "a file":
				w.sh("echo hello > %s", w.q(p))
			case "an empty file":
				w.sh("true > %s", w.q(p))
			case "a directory":
				w.sh("mkdir %s", w.q(p))
			case "a full directory":
				w.sh("mkdir -p %s/a; echo x > %s/a/b", w.q(p), w.q(p))
			case "a link to nowhere":
				w.sh("ln -s nowhere %s", w.q(p))
			case "a link to itself":
				w.sh("ln -s %s %s", w.q(filepath.Base(p)), w.q(p))
			case "a link to another directory":
				w.sh("mkdir -p %s-d; chmod 777 %s-d; ln -s %s-d %s", w.q(saved), w.q(saved), w.q(saved), w.q(p))
			case "a link to a device":
				w.sh("ln -s /dev/null %s", w.q(p))
			case "a link to an unreadable file":
				w.sh("echo x > %s-f; chmod 0 %s-f; ln -s %s-f %s", w.q(saved), w.q(saved), w.q(saved), w.q(p))
			}
			if g.pct("owned", 60) {
				w.sh("chown -hR %d:%d %s", nobody, nobody, w.q(p))
				what += " of the user's"
			}
		default:
			what = "location " + pick(g, "location", []string{"/dev/null", "/proc", "/nonexistent/a/b", "/", "FILE", "LONG"})
			loc := strings.TrimPrefix(what, "location ")
			switch loc {
			case "FILE":
				loc = filepath.Join(w.Home, ".gitconfig")
			case "LONG":
				loc = "/" + strings.Repeat("x", 300)
			}
			run.Env = append(run.Env, "XDG_CACHE_HOME="+loc)
			p = w.Cache
		}
		depth := strings.Count(strings.TrimPrefix(p, w.Cache), "/")
		what = []string{"cache home", "git-who's directory", "directory of the format", "directory of the repository", "cache file"}[depth] + ": " + what
		class(what)
		for j, n := 0, 1+g.uni("runs", 2); j < n; j++ {
			ask(run, what)
		}
		// The place becomes usable again.
		if fi, err := os.Lstat(saved); err == nil {
			if fi.IsDir() || g.pct("back", 50) {
				w.sh("rm -rf %s; mv %s %s", w.q(p), w.q(saved), w.q(p))
			} else if fi, err := os.Lstat(p); err == nil && !fi.Mode().IsRegular() {
				w.sh("rm -rf %s", w.q(p))
			}
		}
		w.sh("chown -hR %d:%d %s; [ -h %s ] || chmod -R u+rwX %s", nobody, nobody, w.q(w.Cache), w.q(w.Cache), w.q(w.Cache))
		ask(o, "after "+what)
		v, s := draw()
		v.Mode = ByLines
		w.Ask(r, s, v, o)
		if len(r.Selected(s)) > 0 && settled(r, s) {
			kept := false
			for _, f := range w.lastingCacheFiles() {
				b, err := os.ReadFile(f)
				must(err)
				if _, ok := gunzip(b); !ok {
					w.Fail("%s is not a complete cache file (%s)", f[len(w.Root):], what)
				}
				kept = true
			}
			if !kept {
				w.Fail("no cache is kept although its place is usable again (%s)", what)
			}
		}
	}
}
