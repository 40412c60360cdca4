package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	reg("C33", "a case is a generated repository whose diffs are cached by a generated command; then what they depend on changes (attributes in any of the places git takes them from, diff settings in any configuration file, shallow boundaries, grafts, replaced objects), often on top of such a change made before, and is taken back again; after every change generated commands are compared with a reference model of the history (diffs learned from git diff-tree under the same circumstances). Non-trivial: what the model expects differs from what was cached.", c33)
}

// describeDiffs tells apart what commits are and change.
func describeDiffs(r *Repo) string {
	var b strings.Builder
	for _, c := range r.Commits {
		fmt.Fprintln(&b, c.Hash, c.Parents, c.Author, c.Diffs)
	}
	return b.String()
}

func c33(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	o := GenOpts{Min: 2, Max: 8, Weird: 8, Fancy: 10, Merge: 10, Empty: 5, NoDirFile: true, NoTabs: true, NoNobody: true}
	r := g.Repo(o)
	w.Install(r)
	r.classes()
	if g.pct("linked", 15) {
		class("linked worktree")
		wt := filepath.Join(w.Root, "src", "linked tree")
		w.sh("git -C %s worktree add -q -b linked %s HEAD", w.q(w.Dir), w.q(wt))
		w.common, w.Dir = w.gitDir(), wt
		r.Branches["linked"] = r.HeadCommit()
		r.Head = "linked"
	}
	switch g.uni("user files", 4) {
	case 0:
		w.over = []string{"XDG_CONFIG_HOME="} // as if it was not set
	case 1:
		w.over = []string{"XDG_CONFIG_HOME=" + filepath.Join(w.Root, "x d g")}
	}
	seen := map[string]bool{} // states under which everything was cached
	state := func() string { return describeDiffs(r) }
	ask := func(when string) {
		s := r.SelHead()
		s.Sep = true
		if g.pct("revs", 15) {
			s.Revs, s.Set = g.Revs(r)
		}
		if g.pct("cwd", 20) {
			if ds := r.worktreeDirs(); len(ds) > 0 {
				s.Prefix = pick(g, "prefix", ds)
			}
		}
		if g.pct("paths", 20) {
			s.Paths = g.Paths(r, s.Prefix, 1, 2)
		}
		s.Prepare(w, r)
		s.Email = g.pct("email", 20)
		v := g.View("ccctrrh")
		if g.pct("diff", 80) {
			v.Mode = pick(g, "diffmode", []Mode{ByLines, ByFiles})
		}
		ro := RunOpts{Procs: pick(g, "procs", []int{1, 3, 8})}
		res := w.Ask(r, s, v, ro)
		if v.Mode.Diff() || v.Kind == "tree" {
			now := state()
			w.mark(len(seen) > 0 && !seen[now], "%s: %s %s", summary(r), when, cmdline(res))
			classIf(len(seen) > 0 && !seen[now], "other diffs than those cached")
			classIf(len(seen) > 1 && seen[now], "diffs cached before")
			seen[now] = true
		}
	}
	// Overrides and trees of attributes are not laid over others of their kind.
	active := map[string]bool{}
	once := func(kind string, undo func()) func() {
		active[kind] = true
		return func() {
			undo()
			delete(active, kind)
		}
	}
	change := func() (undo func()) {
		if len(r.replaced) > 0 && g.pct("unreplace", 60) {
			return w.Unreplace(g, r)
		}
		kind := pick(g, "change", []string{"tree", "override", "override", "override", "", "", "", "", "", ""})
		if active[kind] {
			kind = ""
		}
		switch kind {
		case "tree":
			return once(kind, w.AttrTree(g, r))
		case "override":
			return once(kind, w.Override(g, r))
		}
		return w.attributes(g, r, 1, true)
	}
	if g.pct("base", 60) {
		change()
	}
	ask("at first")
	for i := 0; i < 2; i++ {
		undo := change()
		if g.pct("removed", 15) {
			// git falls back to what is in the index.
			f := filepath.Join(w.Dir, ".gitattributes")
			if len(w.Git(w.Dir, nil, "ls-files", "--", ".gitattributes")) > 0 {
				class("attributes in the index only")
				w.Remove(f)
				w.relearn(r)
			}
		}
		ask("after a change")
		if g.pct("moved", 35) {
			if back := w.moveAttributes(g, r); back != nil {
				class("attributes moved to another directory")
				ask("after attributes were moved")
				back()
			}
		}
		undo()
		if g.pct("after", 60) {
			ask("after it was taken back")
		}
	}
}

// moveAttributes moves attributes to another directory of the work tree. It
// returns a function that moves them back, or nil if there are none.
func (w *World) moveAttributes(g G, r *Repo) func() {
	var with, without []string
	for _, d := range append([]string{"."}, r.worktreeDirs()...) {
		f := filepath.Join(d, ".gitattributes")
		if _, err := os.Lstat(filepath.Join(w.Dir, f)); err == nil {
			with = append(with, f)
		} else if len(w.Git(w.Dir, nil, "ls-files", "--", ":(literal)"+f)) == 0 {
			without = append(without, f)
		}
	}
	if len(with) == 0 || len(without) == 0 {
		return nil
	}
	from, to := pick(g, "from", with), pick(g, "to", without)
	tracked := len(w.Git(w.Dir, nil, "ls-files", "--", ":(literal)"+from)) > 0
	w.sh("cd %s; mv %s %s; git update-index --add -- %s", w.q(w.Dir), w.q("./"+from), w.q("./"+to), w.q(to))
	if tracked {
		w.sh("git -C %s update-index --force-remove -- %s", w.q(w.Dir), w.q(from))
	}
	w.relearn(r)
	return func() {
		w.sh("cd %s; mv %s %s; git update-index --force-remove -- %s", w.q(w.Dir), w.q("./"+to), w.q("./"+from), w.q(to))
		if tracked {
			w.sh("git -C %s update-index --add -- %s", w.q(w.Dir), w.q(from))
		}
		w.relearn(r)
	}
}
