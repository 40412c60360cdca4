package harness

import (
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	reg("C34", "a case is a generated repository with a series of generated commands (views, revisions, paths, filters, directories, time zones, starting points) between which the repository gains commits, is amended, reset, repacked or switched to another branch, and other commands run that have no business with what is cached. From a model of which commits earlier commands have counted, each command is run with all file contents taken out of the object store but those that the diffs of other commits need: it has to succeed and to match a reference model of the history. Non-trivial: contents were taken out that the diffs of selected commits need.", c34)
}

// without takes all contents of files out of the object store, save what the
// diffs of the given commits need, until the returned function is called. It
// tells how many contents the diffs of the other commits would have needed.
func (w *World) without(r *Repo, needed, cached []string) (restore func(), n int) {
	git := "git -C " + w.q(w.Dir)
	dir := w.q(filepath.Join(w.Dir, ".git"))
	keep := w.q(filepath.Join(w.Root, "keep"))
	blobs := func(commits []string) []string {
		if len(commits) == 0 {
			return nil
		}
		raw := string(w.Git(w.Dir, []byte(strings.Join(commits, "\n")+"\n"), "diff-tree", "--stdin", "-r", "--root", "--no-renames"))
		seen := map[string]bool{}
		for _, l := range strings.Split(raw, "\n") {
			if !strings.HasPrefix(l, ":") {
				continue
			}
			f := strings.Fields(l)
			for i, mode := range []string{f[0][1:], f[1]} {
				if h := f[2+i]; mode != "160000" && strings.Trim(h, "0") != "" {
					seen[h] = true
				}
			}
		}
		return sortedKeys(seen)
	}
	stay := blobs(needed)
	stays := map[string]bool{}
	for _, h := range stay {
		stays[h] = true
	}
	for _, h := range blobs(cached) {
		if !stays[h] {
			n++
		}
	}
	w.WriteFile(filepath.Join(w.Root, "stay"), []byte(strings.Join(stay, "\n")))
	w.sh("(%s cat-file --batch-all-objects --batch-check='%%(objecttype) %%(objectname)' | awk '$1 != \"blob\" {print $2}'; cat %s; echo) | grep . | sort -u > %s", git, w.q(filepath.Join(w.Root, "stay")), keep)
	w.sh("mv %s/objects %s/objects.all && mkdir -p %s/objects/pack %s/objects/info", dir, dir, dir, dir)
	w.sh("GIT_OBJECT_DIRECTORY=%s/objects.all %s pack-objects -q %s/objects/pack/pack < %s > /dev/null", dir, git, dir, keep)
	return func() {
		w.sh("rm -rf %s/objects && mv %s/objects.all %s/objects", dir, dir, dir)
	}, n
}

func c34(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	o := GenOpts{Min: 2, Max: 9, Weird: 8, Fancy: 12, Merge: 15, Empty: 5, NoDirFile: true, NoTabs: true, NoNobody: true}
	var r *Repo
	if g.pct("big", 4) {
		r = BigRepo(g.seed(), 1030+g.uni("n", 1200), 5)
		class("several batches")
	} else {
		r = g.Repo(o)
	}
	big := len(r.Commits) > 1000
	w.Install(r)
	r.classes()
	w.setMailmap(g, r)
	still := big || g.pct("diff settings", 20)
	if still && !big {
		w.attributes(g, r, 1, true)
	}
	var ig map[string]bool
	cached := map[string]bool{} // commits whose diffs must have been cached
	state := ""
	plainSel := func() *Sel {
		s := r.SelHead()
		s.Ignore = ig
		return s
	}
	ask := func() {
		now := ""
		for _, f := range []string{".mailmap", ".gitattributes"} {
			b, _ := os.ReadFile(filepath.Join(w.Dir, f))
			now += f + string(b)
		}
		if now != state {
			state, cached = now, map[string]bool{}
		}
		s := r.SelHead()
		s.Sep = true
		if big && g.pct("part", 60) {
			k := g.uni("k", len(r.Commits))
			s.Revs, s.Set = []string{r.Commits[k].Hash}, r.ancestors(k)
		} else if !big && g.pct("revs", 50) {
			s.Revs, s.Set = g.Revs(r)
		}
		if g.pct("cwd", 25) {
			if ds := r.worktreeDirs(); len(ds) > 0 {
				s.Prefix = pick(g, "prefix", ds)
			}
		}
		if g.pct("filters", 25) {
			g.Filters(r, s)
		}
		if g.pct("paths", 30) && !big {
			s.Paths = g.Paths(r, s.Prefix, 1, 2)
		}
		s.Ignore = ig
		s.Prepare(w, r)
		s.Email = g.pct("email", 25)
		s.Merges = g.pct("merges", 25)
		v := g.View("ccctrrh")
		if v.Kind != "tree" || g.pct("diff", 40) {
			v.Mode = pick(g, "diffmode", []Mode{ByLines, ByFiles})
		}
		ro := RunOpts{Procs: pick(g, "procs", []int{2, 3, 8}), TZ: pick(g, "tz", []string{"UTC", "UTC", "America/New_York", "Asia/Kathmandu"})}
		if s.Prefix != "" {
			ro.Cwd = filepath.Join(w.Dir, s.Prefix)
		}
		var all, fresh, old []string
		for i, c := range r.Commits {
			if s.Set[i] && len(c.Parents) < 2 {
				all = append(all, c.Hash)
				if !cached[c.Hash] {
					fresh = append(fresh, c.Hash)
				}
			}
		}
		selected := r.Selected(s)
		for _, c := range selected {
			if !c.IsMerge() && cached[c.Hash] {
				old = append(old, c.Hash)
			}
		}
		restore, gone := w.without(r, fresh, old)
		res := w.Who(ro, v.Args(s)...)
		restore()
		if res.Code != 0 {
			w.Fail("of %d commits, %d have been counted before and are to be found in the cache, but with nothing to read but the diffs of the other %d the command fails\n%s", len(all), len(all)-len(fresh), len(fresh), res)
		}
		class(v.String())
		w.Check(res, r, s, v)
		classIf(gone > 0 && len(fresh) > 0, "some cached, some new")
		classIf(gone > 0 && len(fresh) == 0, "all cached")
		classIf(gone > 0 && len(s.Paths) > 0, "cached commits under paths")
		w.mark(gone > 0, "%s: %s with %d of %d commits cached, %d contents missing", summary(r), cmdline(res), len(all)-len(fresh), len(all), gone)
		for _, c := range selected {
			if !c.IsMerge() {
				cached[c.Hash] = true
			}
		}
	}
	ask()
	for i, k := 0, 2+g.uni("more", 3); i < k; i++ {
		if !still && g.pct("evolve", 45) {
			w.Evolve(g, r, o)
		}
		if g.pct("between", 40) {
			switch g.uni("what", 9) {
			case 0:
				class("repacked")
				w.sh("git -C %s repack -Adq", w.q(w.Dir))
			case 1:
				class("run without cache between")
				w.Ask(r, plainSel(), View{Kind: "table", CSV: true, Mode: ByLines}, RunOpts{NoCache: true, Procs: 4})
			case 2:
				class("run with one processor between")
				w.Ask(r, plainSel(), View{Kind: "table", CSV: true, Mode: ByLines}, RunOpts{Procs: 1})
			case 3:
				class("other repository of the same name between")
				d := filepath.Join(w.Root, "other", filepath.Base(w.Dir))
				w.sh("test -d %s || (git init -q %s && git -C %s -c user.name=O -c user.email=o@x commit -q --allow-empty -m o)", w.q(d), w.q(d), w.q(d))
				if res := w.Who(RunOpts{Cwd: d, Procs: 4}, "-l", "--csv"); res.Code != 0 {
					w.Fail("fails in another repository\n%s", res)
				}
			case 4:
				class("refused request between")
				w.Who(RunOpts{Procs: 4}, "-l", "nosuchrev")
			case 5:
				class("ignore file changed between")
				if ig == nil {
					var data string
					data, ig = g.IgnoreFile(r)
					w.WriteFile(filepath.Join(w.Dir, ".git-blame-ignore-revs"), []byte(data))
				} else {
					ig = nil
					w.Remove(filepath.Join(w.Dir, ".git-blame-ignore-revs"))
				}
			case 6:
				class("settings changed between that have no say")
				c := pick(g, "setting", []string{"user.name me", "color.ui always", "diff.noprefix true", "core.pager false", "diff.colorMoved zebra", "gc.auto 0", "alias.x log", "branch.main.remote o"})
				w.sh("git -C %s config %s", w.q(w.Dir), c)
			case 7:
				class("tagged between")
				w.sh("git -C %s tag -f unrelated%d HEAD > /dev/null", w.q(w.Dir), i)
			default:
				class("untracked file between")
				w.WriteFile(filepath.Join(w.Dir, "unrelated.txt"), []byte("untracked\n"))
				w.WriteFile(filepath.Join(w.Dir, ".git", "config.new"), nil)
				w.Remove(filepath.Join(w.Dir, ".git", "config.new"))
			}
		}
		ask()
	}
}
