package harness

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	runewidth "github.com/mattn/go-runewidth"
	"pgregory.net/rapid"
)

type checkFn func(t *rapid.T)

var checks = map[string]checkFn{}
var rules = map[string]string{}

func reg(id, rule string, f checkFn) {
	checks[id] = f
	rules[id] = rule
}

func (w *World) mark(nt bool, format string, args ...any) {
	if nt {
		nontrivial(w.sig.String(), func() string { return fmt.Sprintf(format, args...) })
	}
}

func cmdline(res Result) string { return "git-who " + strings.Join(res.Args, " ") }

func summary(r *Repo) string {
	ids := map[Ident]bool{}
	merges, diffs := 0, 0
	for _, c := range r.Commits {
		ids[c.Author] = true
		diffs += len(c.Diffs)
		if c.IsMerge() {
			merges++
		}
	}
	return fmt.Sprintf("%d commits (%d merges) by %d authors, %d file changes, branches %v, tags %d", len(r.Commits), merges, len(ids), diffs, sortedKeys(r.Branches), len(r.Tags)+len(r.ATags))
}

func c01(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	var r *Repo
	if g.pct("big", 3) {
		class("hundreds of commits by few authors")
		n := 300 + g.uni("n", 1500)
		r = BigRepo(g.seed(), n, 1+g.uni("authors", 3))
		w.Install(r)
		w.big(n)
	} else {
		r = g.Repo(GenOpts{Min: 1, Max: 14, Weird: 15, Fancy: 25, Merge: 15, Empty: 10, Idents: 6})
		w.Install(r)
	}
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		if g.pct("rev", 40) {
			a, c := g.rev(r)
			s.Revs, s.Set = []string{a}, r.ancestors(c)
			s.Sep = true
		}
		s.Email = g.pct("email", 40)
		v := g.View("ccct")
		res := w.Ask(r, s, v, g.Opts(w))
		w.mark(len(r.Table(s)) > 1, "%s: %s -> %d authors", summary(r), cmdline(res), len(r.Table(s)))
	}
}

func c02(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 4, Max: 16, Weird: 5, Fancy: 10, Merge: 40, Empty: 8, NoDirFile: true, NoTabs: true})
	w.Install(r)
	r.classes()
	s := r.SelHead()
	if g.pct("rev", 25) {
		a, c := g.rev(r)
		s.Revs, s.Set, s.Sep = []string{a}, r.ancestors(c), true
	}
	if g.pct("paths", 20) {
		s.Paths = g.Paths(r, "", 1, 2)
		s.Prepare(w, r)
	}
	if g.pct("filters", 20) {
		g.Filters(r, s)
		if len(s.Paths) > 0 {
			s.Prepare(w, r)
		}
	}
	s.Email = g.pct("email", 30)
	merges := 0
	for _, c := range r.Selected(s) {
		if c.IsMerge() {
			merges++
		}
	}
	v := g.View("ctrrh")
	o := g.Opts(w)
	for _, m := range []bool{false, true} {
		x := s.clone()
		x.Merges = m
		res := w.Ask(r, x, v, o)
		w.mark(merges > 0, "%s: %s with %d merges selected", summary(r), cmdline(res), merges)
	}
}

func c03(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 2, Max: 12, Weird: 35, Fancy: 5, Merge: 12, Empty: 5, NoDirFile: g.pct("nodf", 70), NoTabs: true})
	// A name with characters that are special somewhere, beside names it would
	// match if they were special to Git, or if what it matches stood for
	// everything below it.
	var sibling *PathArg
	if g.pct("siblings", 25) {
		k := pick(g, "sibling", [][]string{
			{"{p,q}.go", "{p,q}.go", "p.go", "q.go"},
			{"z{1..3}", "z{1..3}/f.go", "z1/f.go", "z2/f.go"},
			{"d{x,y}", "d{x,y}/f", "dx/f", "dy/f"},
			{"d{x,y}/", "d{x,y}/f", "dx/f", "dy/f"},
			{"d{x,y}/f", "d{x,y}/f", "dx/f", "dy/f"},
			{"[g]", "[g]/f", "g/f", "g/h/f"},
			{"h?", "h?/f", "hx/f", "hy/z/f"},
			{"k*/", "k*/f", "ky/f", "kz/f"},
			{"m[0-9]/", "m[0-9]/f", "m1/f", "m2/f"},
			{"{e", "{e/f", "e/f", "ee"},
			{"cr\r", "cr\r", "cr", "c\r"},
			{"dir\r", "dir\r/f", "dir/f", "dir\r\r/f"},
			{"q\r/", "q\r/f", "q/f", "qq/f"},
			{"*{p,q}.go", "x{p,q}.go", "xp.go", "d/{p,q}.go", "d/xq.go"},
			{"*/{p,q}.g?", "x/{p,q}.go", "x/p.go", "x/y/{p,q}.gg"},
			{`h\*`, "h*/f", "h*/g/f", "hx/f"}, // only a file of that name
			{`h\*`, "h*", "hx/f", "h"},
			{`h\\*`, `h\f`, `h\g/f`, "h/f"},
		})
		for i := range 2 {
			tree := map[string]File{}
			for p, f := range r.Commits[r.HeadCommit()].Tree {
				tree[p] = f
			}
			for j, n := range k[1:] {
				put(tree, n, File{"100644", strings.Repeat("line\n", i+j+1)})
				if g.pct("one", 50) {
					break
				}
			}
			r.Commits = append(r.Commits, &Commit{Parents: []int{r.HeadCommit()}, Author: Ident{"Sib", "sib@x"}, ATime: 1600000100 + int64(i), ATZ: "+0000", CTime: 1600000100 + int64(i), Tree: tree})
			r.anc = nil
			r.Branches["main"] = len(r.Commits) - 1
			r.Head = "main"
		}
		r.NoMailmap()
		if !hasDirFile(r) || !strings.HasSuffix(k[0], "/") {
			sibling = &PathArg{Arg: k[0], Path: strings.TrimSuffix(k[0], "/"), DirOnly: strings.HasSuffix(k[0], "/")}
			if strings.Contains(k[0], `\`) || k[0][0] == '*' {
				sibling.Glob = k[0]
			}
		}
	}
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		if g.pct("revs", 25) {
			s.Revs, s.Set = g.Revs(r)
		}
		if sibling != nil {
			s.Paths = slices.DeleteFunc(g.Paths(r, "", 0, 1), func(p PathArg) bool { return strings.ContainsAny(p.Path, "*?[") })
			p := *sibling
			if g.pct("exclude sibling", 20) {
				p.Arg, p.Exclude = ":(exclude)"+p.Arg, true
			}
			s.Paths = append(s.Paths, p)
			if p.Exclude {
				s.Paths = s.Paths[len(s.Paths)-1:]
			}
			class("name beside what it would match as a pattern")
		} else {
			s.Paths = g.Paths(r, "", 1, 3)
		}
		s.Sep = len(s.Revs) > 0
		s.Prepare(w, r)
		s.Email = g.pct("email", 15)
		s.Merges = g.pct("merges", 15)
		kinds := "cccth"
		if !hasDirFile(r) {
			kinds = "cccthrrr"
		}
		v := g.View(kinds)
		if v.Kind == "table" && g.pct("diff", 60) {
			v.Mode = pick(g, "mode", []Mode{ByLines, ByFiles})
		}
		o := g.Opts(w)
		if len(s.Paths) > 0 && w.unambiguous(r, s) && g.pct("nosep", 40) {
			// Git tells paths from revisions without help.
			args := v.Args(s)
			var bare []string
			for _, a := range args {
				if a != "--" {
					bare = append(bare, a)
				}
			}
			res := w.Who(o, bare...)
			w.Check(res, r, s, v)
			class("paths without --")
		} else {
			w.Ask(r, s, v, o)
		}
		n, all := len(r.Selected(s)), s.clone()
		all.Paths, all.gitSet = nil, nil
		for _, p := range s.Paths {
			classIf(p.Exclude, "exclude path")
			classIf(p.Suffix != "", "suffix pattern")
			classIf(strings.HasPrefix(p.Glob, "*"), "pattern with leading asterisk and other wildcards")
			classIf(p.Glob != "" && p.Glob[0] != '*', "pattern without leading asterisk")
			classIf(p.DirOnly, "directory with slash")
			classIf(strings.ContainsAny(p.Path, "*?[]{}\\"), "path with glob characters")
			classIf(strings.HasPrefix(p.Path, "-"), "path starting with dash")
		}
		w.mark(n > 0 && n < len(r.Selected(all)), "%s: %q selects %d of %d commits", summary(r), v.Args(s), n, len(r.Selected(all)))
	}
}

func hasDirFile(r *Repo) bool {
	ps := r.AllPaths()
	for i := range ps {
		for j := i + 1; j < len(ps); j++ {
			if conflict(ps[i], ps[j]) {
				return true
			}
		}
	}
	return false
}

func c04(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 2, Max: 14, Weird: 5, Fancy: 5, Merge: 25, Empty: 10, NoDirFile: true, NoTabs: true})
	// A name that is both a branch and a file.
	both := ""
	hashFile := ""
	if g.pct("hash", 20) {
		// A file named like a hash is a path where paths are given.
		hashFile = strings.Repeat("0123456789", 4) + pick(g, "digit", []string{"", "a"})
		h := r.Commits[r.HeadCommit()]
		put(h.Tree, hashFile, File{"100644", "hash\n"})
		put(h.Tree, "plain.txt", File{"100644", "plain\n"})
		r.NoMailmap()
	} else if g.pct("dashes", 8) {
		// So is one named like what separates revisions and paths.
		hashFile = "--"
		h := r.Commits[r.HeadCommit()]
		put(h.Tree, hashFile, File{"100644", "dashes\n"})
		put(h.Tree, "plain.txt", File{"100644", "plain\n"})
		r.NoMailmap()
	} else if g.pct("both", 50) {
		both = pick(g, "both", []string{"dual", "main.txt", "wip/x"})
		h := r.Commits[r.HeadCommit()]
		tree := map[string]File{}
		for p, f := range h.Tree {
			tree[p] = f
		}
		put(tree, both, File{"100644", "dual\n"})
		r.Commits = append(r.Commits, &Commit{Parents: []int{r.HeadCommit()}, Author: Ident{"Dual", "dual@x"}, ATime: 1400000000, ATZ: "+0000", CTime: 1600000000, Tree: tree})
		r.NoMailmap()
		r.anc = nil
		r.Branches["main"] = len(r.Commits) - 1
		r.Branches[both] = g.uni("at", len(r.Commits))
		if both == "wip/x" {
			delete(r.Branches, "wip")
		}
	}
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		s.Revs, s.Set = g.revs(r, g.pct("flags", 35))
		s.Sep = true
		if g.pct("paths", 15) {
			s.Paths = g.Paths(r, "", 1, 2)
			s.Prepare(w, r)
		} else if both == "" && w.unambiguous(r, s) && g.pct("nosep", 60) {
			s.Sep = false
		}
		v := g.View("ccctrh")
		if v.Kind == "table" && g.pct("commits", 40) {
			v.Mode = ByCommits
		}
		res := w.Ask(r, s, v, g.Opts(w))
		n := 0
		for _, b := range s.Set {
			if b {
				n++
			}
		}
		for _, a := range s.Revs {
			classIf(strings.Contains(a, "..."), "A...B")
			classIf(strings.Contains(a, "..") && !strings.Contains(a, "..."), "A..B")
			classIf(strings.HasPrefix(a, "^"), "^A")
		}
		classIf(len(s.Revs) > 1, "several revisions")
		w.mark(len(s.Revs) > 0 && n > 0 && n < len(r.Commits), "%s: %s selects %d of %d commits", summary(r), cmdline(res), n, len(r.Commits))
	}
	if hashFile != "" {
		class("path that looks like a hash or separator")
		s := r.SelHead()
		for _, p := range []string{"plain.txt", hashFile} {
			s.Paths = append(s.Paths, PathArg{Arg: p, Path: p})
		}
		if len(hashFile) != 40 && g.pct("hash first", 50) {
			slices.Reverse(s.Paths)
		}
		s.Prepare(w, r)
		s.Bare = len(hashFile) >= 40 && g.pct("bare", 70)
		w.Ask(r, s, g.View("ctrh"), g.Opts(w))
	}
	if both != "" {
		class("name that is revision and path")
		v := g.View("ctrh")
		o := g.Opts(w)
		s := r.SelHead()
		s.Revs, s.Set, s.Sep = []string{both}, r.ancestors(r.Branches[both]), g.pct("sep", 70)
		w.Ask(r, s, v, o)
		s = r.SelHead()
		s.Paths = []PathArg{{Arg: both, Path: both}}
		s.Prepare(w, r)
		w.Ask(r, s, v, o)
		s = r.SelHead()
		s.Revs, s.Set = []string{both}, r.ancestors(r.Branches[both])
		s.Paths = []PathArg{{Arg: both, Path: both}}
		s.Prepare(w, r)
		w.Ask(r, s, v, o)
	}
}

func c05(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 3, Max: 14, Weird: 3, Fancy: 20, Merge: 10, Empty: 8, NoDirFile: true, Idents: 6, NoTabs: true})
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		g.Filters(r, s)
		if g.pct("revs", 20) {
			s.Revs, s.Set = g.Revs(r)
			s.Sep = true
		}
		if g.pct("paths", 15) {
			s.Paths = g.Paths(r, "", 1, 2)
			s.Prepare(w, r)
		}
		s.Email = g.pct("email", 25)
		s.Merges = g.pct("merges", 20)
		v := g.View("cccthr")
		o := g.Opts(w)
		if g.pct("elsewhere", 30) {
			o.TZ = pick(g, "zone without summer time", []string{"Asia/Kathmandu", "Asia/Kolkata", "Pacific/Kiritimati", "America/Phoenix"})
			if g.pct("local", 40) {
				var err error
				s.Loc, err = time.LoadLocation(o.TZ)
				must(err)
				s.DateAs = 6
				classIf(s.Since != 0 || s.Until != 0, "local date")
			}
		}
		res := w.Ask(r, s, v, o)
		all := s.clone()
		all.Authors, all.Nauth, all.Since, all.Until = nil, nil, 0, 0
		n, m := len(r.Selected(s)), len(r.Selected(all))
		classIf(len(s.Authors) > 0, "--author")
		classIf(len(s.Nauth) > 0, "--nauthor")
		classIf(len(s.Authors) > 0 && len(s.Nauth) > 0, "--author and --nauthor")
		classIf(s.Since != 0, "--since")
		classIf(s.Until != 0, "--until")
		classIf(s.DateAs != 0 && (s.Since != 0 || s.Until != 0), "date written out")
		w.mark(n > 0 && n < m, "%s: %s selects %d of %d commits", summary(r), cmdline(res), n, m)
	}
}

// setMailmap writes the mailmap state drawn for a case and maps the model.
func (w *World) setMailmap(g G, r *Repo) bool {
	local, global := false, false
	if _, err := os.Stat(filepath.Join(w.Dir, ".mailmap")); err == nil && g.pct("keep", 40) {
		class("repository mailmap kept")
		local = true
	} else if g.pct("local", 60) {
		w.WriteFile(filepath.Join(w.Dir, ".mailmap"), []byte(g.Mailmap(r)))
		local = true
	} else {
		w.Remove(filepath.Join(w.Dir, ".mailmap"))
	}
	cfg := ""
	file := filepath.Join(w.Home, "people map")
	if g.pct("global", 35) {
		w.WriteFile(file, []byte(g.Mailmap(r)))
		global = true
		cfg = "[mailmap]\n\tfile = \"" + file + "\"\n"
		switch g.uni("spelling", 3) {
		case 0:
			class("mailmap.file with ~")
			cfg = "[mailmap]\n\tfile = \"~/people map\"\n"
		case 1: // relative to the root of the worktree
			if rel, err := filepath.Rel(w.Dir, file); err == nil {
				class("relative mailmap.file")
				cfg = "[mailmap]\n\tfile = \"" + rel + "\"\n"
			}
		}
	} else if g.pct("missing", 10) {
		w.Remove(file)
		cfg = "[mailmap]\n\tfile = \"" + file + "\"\n"
	}
	w.WriteFile(filepath.Join(w.Home, ".gitconfig"), []byte(cfg))
	if local || global {
		w.ApplyMailmap(r)
	} else {
		r.NoMailmap()
	}
	classIf(local, "repository mailmap")
	classIf(global, "configured mailmap")
	classIf(!local && !global, "no mailmap")
	return local || global
}

func (r *Repo) mappedCount() int {
	n := 0
	for _, c := range r.Commits {
		if c.Mapped != c.Author {
			n++
		}
	}
	return n
}

func c06(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 2, Max: 10, Weird: 3, Fancy: 25, Merge: 8, Empty: 5, NoDirFile: true, Idents: 6, NoTabs: true})
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		if i == 0 || g.pct("change", 60) {
			w.setMailmap(g, r)
		}
		s := r.SelHead()
		if g.pct("filter", 35) {
			g.Filters(r, s)
		}
		if ds := r.worktreeDirs(); len(ds) > 0 && g.pct("cwd", 20) {
			class("in subdirectory")
			s.Prefix = pick(g, "prefix", ds)
		}
		if g.pct("paths", 10) {
			s.Paths = g.Paths(r, s.Prefix, 1, 2)
			s.Prepare(w, r)
		}
		s.Email = g.pct("email", 45)
		v := g.View("cccthr")
		o := g.Opts(w)
		if i > 0 {
			o.NoCache = g.pct("nocache2", 15)
		}
		res := w.Ask(r, s, v, o)
		w.mark(r.mappedCount() > 0, "%s, mailmap changes %d commits: %s", summary(r), r.mappedCount(), cmdline(res))
	}
}

// IgnoreFile draws .git-blame-ignore-revs and the commits it lists.
func (g G) IgnoreFile(r *Repo) (string, map[string]bool) {
	var b strings.Builder
	ig := map[string]bool{}
	eol := "\n"
	if g.pct("crlf", 20) {
		eol = "\r\n"
	}
	for _, c := range r.Commits {
		if !g.pct("ignored", 25) {
			if g.pct("noise", 10) {
				switch g.uni("noise", 6) {
				case 0:
					b.WriteString("# " + c.Hash + eol)
				case 1:
					b.WriteString(eol)
				case 2:
					b.WriteString(hexHash(c.Hash)[:40] + eol)
				case 3:
					b.WriteString("#" + c.Hash + eol)
				case 4:
					b.WriteString("   " + eol)
				case 5:
					b.WriteString("# reformatting, see " + c.Hash[:10] + eol)
					if g.pct("long", 10) {
						class("long comment")
						b.WriteString("# " + strings.Repeat(c.Hash, pick(g, "times", []int{2000, 2000, 30000})) + eol)
					}
				}
			}
			continue
		}
		ig[c.Hash] = true
		h := c.Hash
		switch g.uni("style", 6) {
		case 0:
			h = strings.ToUpper(h)
		case 1:
			h += " # reformat"
		case 2:
			h = "  " + h
		case 3:
			h += "  "
		}
		b.WriteString(h + eol)
	}
	s := b.String()
	if g.pct("noeol", 30) {
		s = strings.TrimSuffix(s, eol)
	}
	return s, ig
}

func c07(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 2, Max: 12, Weird: 5, Fancy: 10, Merge: 12, Empty: 8, NoDirFile: true, NoTabs: true})
	w.Install(r)
	r.classes()
	file := filepath.Join(w.Dir, ".git-blame-ignore-revs")
	if g.pct("warm", 40) {
		class("cached before being ignored")
		w.Ask(r, r.SelHead(), View{Kind: "table", CSV: true, Mode: ByLines}, RunOpts{})
	}
	var ig map[string]bool
	for i := 0; i < 3; i++ {
		if i == 0 || g.pct("change", 50) {
			if i > 0 && g.pct("remove", 25) {
				w.Remove(file)
				ig = nil
			} else {
				var data string
				data, ig = g.IgnoreFile(r)
				w.Remove(file)
				if g.pct("link", 15) {
					class("symbolic link to the list")
					to := filepath.Join(w.Home, "the list")
					w.WriteFile(to, []byte(data))
					must(os.Symlink(to, file))
					w.step(fmt.Sprintf("ln -s %s %s", w.q(to), w.q(file)))
				} else {
					w.WriteFile(file, []byte(data))
				}
			}
		}
		s := r.SelHead()
		s.Ignore = ig
		if g.pct("revs", 20) {
			s.Revs, s.Set = g.Revs(r)
			s.Sep = true
		}
		if g.pct("paths", 15) {
			s.Paths = g.Paths(r, "", 1, 2)
			s.Prepare(w, r)
		}
		s.Merges = g.pct("merges", 20)
		s.Email = g.pct("email", 20)
		v := g.View("cccthr")
		o := g.Opts(w)
		o.NoCache = g.pct("nocache", 25)
		res := w.Ask(r, s, v, o)
		all := s.clone()
		all.Ignore = nil
		n, m := len(r.Selected(s)), len(r.Selected(all))
		w.mark(n < m, "%s: %s with %d of %d commits ignored", summary(r), cmdline(res), m-n, m)
	}
}

func c08(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	// Many authors with few commits each, so that ties are common.
	r := g.Repo(GenOpts{Min: 1, Max: 22, Weird: 3, Fancy: 15, Merge: 5, Empty: 8, Idents: 16, Linear: g.pct("linear", 50), NoTabs: true, TimeKind: pick(g, "tk", []int{0, 1, 5, 6, 7})})
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		s.Email = g.pct("email", 30)
		m := r.Table(s)
		v := g.View("ct")
		switch g.uni("limit", 5) {
		case 0:
			v.Limit = -1
		case 1:
			v.Limit = 0
		case 2:
			v.Limit = max(0, len(m)+g.between("off", -1, 1))
		default:
			v.Limit = 1 + g.uni("n", 12)
		}
		res := w.Ask(r, s, v, g.Opts(w))
		limit := v.Limit
		if limit < 0 {
			limit = 10
		}
		ties := 0
		rk := ranked(m, v.Mode)
		for j := 1; j < len(rk); j++ {
			if rk[j].Metric(v.Mode) == rk[j-1].Metric(v.Mode) {
				ties++
			}
		}
		classIf(ties > 0, "tie in metric")
		classIf(limit > 0 && limit < len(m), "rows left out")
		w.mark(len(m) > 2, "%s: %s with %d authors, %d ties", summary(r), cmdline(res), len(m), ties)
	}
}

func c13(t *rapid.T) { treeCheck(t, false) }
func c14(t *rapid.T) { treeCheck(t, true) }

func treeCheck(t *rapid.T, structure bool) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	o := GenOpts{Min: 1, Max: 12, Weird: 10, Fancy: 15, Merge: 12, Empty: 10, NoDirFile: true, NoTabs: true}
	if structure {
		o.Weird = 25
		o.Max = 16
	}
	r := g.Repo(o)
	tall := structure && g.pct("tall", 12)
	if tall {
		class("deeply nested")
		g.tall(r)
	}
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		if g.pct("revs", 20) {
			s.Revs, s.Set = g.Revs(r)
			s.Sep = true
		}
		if g.pct("cwd", 25) && !tall {
			if ds := r.worktreeDirs(); len(ds) > 0 {
				s.Prefix = pick(g, "prefix", ds)
			}
		}
		if g.pct("paths", 20) {
			s.Paths = g.Paths(r, s.Prefix, 1, 2)
			s.Prepare(w, r)
		}
		if g.pct("filters", 10) {
			g.Filters(r, s)
			if len(s.Paths) > 0 {
				s.Prepare(w, r)
			}
		}
		s.Email = g.pct("email", 25)
		s.Merges = g.pct("merges", 20)
		v := View{Kind: "tree", Mode: pick(g, "mode", allModes), All: g.pct("all", 35)}
		if g.pct("depth", 30) {
			v.Depth = 1 + g.uni("d", 5)
		}
		res := w.Ask(r, s, v, g.Opts(w))
		lines := strings.Count(res.Out, "\n")
		classIf(v.All, "-a")
		classIf(v.Depth > 0, "-d")
		classIf(s.Prefix != "", "in subdirectory")
		classIf(strings.Contains(res.Out, pathSep+"/") || elided(res.Out), "joined directories")
		w.mark(lines > 2, "%s: %s prints %d lines", summary(r), cmdline(res), lines)
	}
}

const pathSep = "//"

// tall grows nested directories at the end of history: down to the depth at
// which a tree is cut off and further, some with long names, with files on
// the way, some of which are deleted again.
func (g G) tall(r *Repo) {
	name := pick(g, "dir name", []string{"d", "d", "long directory name", strings.Repeat("e", 120)})
	depth := pick(g, "levels", []int{4, 6, 10, 20, 60, 98, 99, 100, 101, 102, 130})
	if len(name) > 100 {
		depth = min(depth, 10)
	}
	var files []string
	dir := ""
	for i := range depth {
		dir += name + "/"
		if depth < 25 || i > 94 || g.pct("on the way", 5) {
			for j, n := 0, g.uni("files", 3); j < n; j++ {
				files = append(files, dir+pick(g, "file", []string{"a", "b.txt", "z", "zz"}))
			}
		}
		if g.pct("twig", 10) {
			files = append(files, dir+"y/twig")
		}
	}
	files = append(files, dir+"end")
	for n := range 3 {
		at := r.HeadCommit()
		tree := cloneTree(r.Commits[at].Tree)
		for _, f := range files {
			switch _, ok := tree[f]; {
			case n == 0 || ok && g.pct("edit", 20):
				put(tree, f, File{"100644", strings.Repeat(fmt.Sprintf("line %d\n", n), 1+g.uni("lines", 3))})
			case g.pct("delete", 25):
				delete(tree, f)
			}
		}
		who := Ident{"Tall", "tall@x"}
		if g.pct("other", 50) {
			who = Ident{"Short", "short@x"}
		}
		r.Commits = append(r.Commits, &Commit{Parents: []int{at}, Author: who, ATime: 1600000100 + int64(n), ATZ: "+0000", CTime: 1600000100 + int64(n), Tree: tree})
		r.anc = nil
		r.Branches["main"] = len(r.Commits) - 1
		r.Head = "main"
	}
	r.NoMailmap()
}

func elided(out string) bool {
	for _, l := range strings.Split(plain(out), "\n") {
		l = strings.TrimLeft(l, "│├└─ ")
		if i := strings.Index(l, ".."); i > 0 {
			l = l[:i]
		}
		if strings.Count(strings.TrimSuffix(l, "/"), "/") > 0 {
			return true
		}
	}
	return false
}

// worktreeDirs lists directories that exist in the work tree.
func (r *Repo) worktreeDirs() []string {
	m := map[string]bool{}
	for p := range r.Index() {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			m[d] = true
		}
	}
	return sortedKeys(m)
}

var zones = []string{
	"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "America/Sao_Paulo", "Asia/Beirut", "America/Havana",
	"Africa/Cairo", "Pacific/Kiritimati", "Asia/Tehran", "Australia/Lord_Howe", "America/Asuncion", "Europe/London", "Asia/Kathmandu",
}

func c15(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 1, Max: 14, Weird: 3, Fancy: 15, Merge: 8, Empty: 10, NoTabs: true, BigFiles: g.pct("big", 30), Recent: 15})
	if g.pct("limits", 35) {
		// spans around the limits between days, months and years
		class("span near a limit")
		span := pick(g, "span", []int64{55, 58, 59, 60, 60, 60, 61, 62, 70, 5*365 - 20, 5*365 - 1, 5 * 365, 5*365 + 3, 5*365 + 40})
		n := int64(len(r.Commits))
		start := int64(1104537600 + g.uni("start", 10*365)*86400 + g.uni("s", 86400))
		if g.pct("now", 30) {
			class("span up to now")
			start = startTime - span*86400 - int64(g.uni("off", 3)-1)*43200
			if start+span*86400 > startTime {
				span--
			}
		}
		for i, c := range r.Commits {
			if c.ATime < soonTime {
				c.ATime = start
				if n > 1 {
					c.ATime += span * 86400 * int64(i) / (n - 1)
				}
			}
		}
	}
	if g.pct("midnight", 30) {
		class("commits around midnight")
		for _, c := range r.Commits {
			if c.ATime < soonTime && c.ATime > 86400*2 {
				c.ATime = c.ATime/86400*86400 + int64(g.uni("half", 48))*1800 + int64(g.between("s", -1, 1))
			}
		}
	}
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		switch g.uni("end", 3) {
		case 0:
		case 1:
			s.Revs = []string{"HEAD"}
		case 2:
			s.Revs, s.Set = g.Revs(r)
		}
		s.Sep = true
		if g.pct("filters", 30) {
			g.Filters(r, s)
		}
		if g.pct("paths", 12) {
			s.Paths = g.Paths(r, "", 1, 2)
			s.Prepare(w, r)
		}
		s.Email = g.pct("email", 25)
		s.Merges = g.pct("merges", 20)
		v := View{Kind: "hist", Mode: pick(g, "mode", []Mode{ByCommits, ByLines, ByFiles})}
		o := g.Opts(w)
		o.TZ = pick(g, "tz", zones)
		res := w.Ask(r, s, v, o)
		rows := strings.Count(res.Out, "\n")
		filled := strings.Count(res.Out, "┤ #")
		if rows > 0 {
			switch len(strings.SplitN(res.Out, " ┤", 2)[0]) {
			case 4:
				class("yearly")
			case 8:
				class("monthly")
			default:
				class("daily")
			}
		}
		w.mark(filled > 1, "%s: %s TZ=%s prints %d rows, %d filled", summary(r), cmdline(res), o.TZ, rows, filled)
	}
}

func c16(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 1, Max: 14, Weird: 85, Fancy: 70, Merge: 10, Empty: 15, Idents: 6, BigFiles: g.pct("big", 10), Recent: 10})
	if g.pct("long", 2) {
		class("name of 70 KB or more")
		r.Commits[g.uni("at", len(r.Commits))].Author.Name = strings.Repeat("long name ", pick(g, "times", []int{7000, 30000, 120000, 450000})) + "end"
		r.NoMailmap()
	}
	if g.pct("accents", 20) {
		for _, c := range r.Commits {
			if c.Author != (Ident{}) && g.pct("accent", 40) {
				c.Author.Name = pick(g, "name", []string{"José Núñez", "Zoë", "Jürgen Groß"})
			}
		}
		r.NoMailmap()
	}
	g.latin1(r, 20)
	raw := g.pct("raw", 8)
	if raw {
		class("names that are not UTF-8")
		for _, c := range r.Commits {
			if c.Author != (Ident{}) && !c.Latin1 && g.pct("bytes", 30) {
				c.Author.Name = pick(g, "name", []string{"Jos\xe9", "\xff\xfe", "a\x80b", "caf\xc3", "\xf0\x9f\x99"})
			}
		}
		r.NoMailmap()
	}
	newline := g.pct("newline", 12)
	if newline {
		class("paths with newlines")
		names := []string{"new\nline.txt", "\nlead.txt", "trail\n", "d\n/f.txt", "mid/\nx", "\n\n", "1\t2\tx\n3\t4\ty", "a\r\nb"}
		for i := range 3 {
			tree := map[string]File{}
			for p, f := range r.Commits[r.HeadCommit()].Tree {
				tree[p] = f
			}
			for _, n := range names {
				f, ok := tree[n]
				switch {
				case !g.pct("change", 50):
				case ok && g.pct("move", 40):
					delete(tree, n)
					put(tree, n+"2", f)
				default:
					put(tree, n, File{"100644", g.lines(n[:1], 10+g.uni("lines", 10))})
				}
			}
			r.Commits = append(r.Commits, &Commit{Parents: []int{r.HeadCommit()}, Author: Ident{"Newline", "n@x"}, ATime: 1600000100 + int64(i), ATZ: "+0000", CTime: 1600000100 + int64(i), Tree: tree})
			r.anc = nil
			r.Branches["main"] = len(r.Commits) - 1
			r.Head = "main"
		}
		r.NoMailmap()
	}
	w.Install(r)
	r.classes()
	s := r.SelHead()
	s.Email = g.pct("email", 50)
	weird := 0
	for _, c := range r.Commits {
		for _, d := range c.Diffs {
			if !regexpPlain.MatchString(d.Path) {
				weird++
			}
		}
	}
	for i := 0; i < 3; i++ {
		v := g.View("cc")
		if g.pct("diff", 70) {
			v.Mode = pick(g, "mode", []Mode{ByLines, ByFiles})
		}
		res := w.Ask(r, s, v, g.Opts(w))
		w.mark(weird > 0, "%s, %d changes of odd paths: %s", summary(r), weird, cmdline(res))
	}
	if !raw && !newline && g.pct("tree", 50) && !hasDirFile(r) {
		w.Ask(r, s, View{Kind: "tree", Mode: pick(g, "mode", allModes), All: true}, g.Opts(w))
	}
	if g.pct("parse", 20) {
		args := []string{"parse"}
		if g.pct("short", 50) {
			args = append(args, "-s")
		}
		res := w.Who(g.Opts(w), args...)
		w.OK(res)
		want := fmt.Sprintf("Parsed %d commits.", len(r.Selected(s)))
		if !strings.Contains(res.Out, want+"\n") {
			w.Fail("%q expected at the end\n%s", want, res)
		}
	}
}

var regexpPlain = alnumDots

func c17(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 1, Max: 20, Weird: 3, Fancy: 80, Merge: 5, Empty: 8, Idents: 18, NoTabs: true, BigFiles: g.pct("big", 60)})
	if g.pct("long", 50) {
		// names just below, at and above the width of the column
		class("names around the column width")
		for i, c := range r.Commits {
			if c.Author.Name == "" {
				continue
			}
			width := pick(g, "w", []int{24, 25, 30, 31, 32, 33, 34, 57, 58, 59}) + g.between("off", -1, 1)
			unit := pick(g, "unit", []string{"a", "ab ", "é", "漢", "漢a", "e\u0301", "🙂"})
			name := ""
			for runewidth.StringWidth(name+unit) <= width {
				name += unit
			}
			for runewidth.StringWidth(name) < width {
				name += "."
			}
			c.Author.Name = strings.TrimSpace(name)
			_ = i
		}
		r.NoMailmap()
	}
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		s.Email = g.pct("email", 45)
		if g.pct("nothing", 5) {
			s.Authors = []string{"no such author at all"}
			s.matchA = matchAuthor
		}
		v := View{Kind: "table", Mode: pick(g, "mode", allModes), Limit: pick(g, "n", []int{-1, 0, 0, 1, 3, 15}), Plain: g.pct("plain", 50)}
		res := w.Ask(r, s, v, g.Opts(w))
		wide := false
		for _, c := range r.Commits {
			wide = wide || utf8.RuneCountInString(c.Author.Name) != len(c.Author.Name) || len(c.Author.Name) > 30
		}
		classIf(strings.Contains(res.Out, "…"), "abbreviated")
		classIf(strings.Contains(res.Out, " more..."), "rows left out")
		classIf(strings.Contains(res.Out, "\x1b[7m"), "more than 14 rows")
		w.mark(wide && res.Out != "", "%s: %s", summary(r), cmdline(res))
	}
}

var csvOddNames = []string{
	`"`, `""`, `a"b"c`, ",", ",,", "a,b", "'", "a\tb", " inner  spaces", "#x", "\\N", "é,\"ü\"", "\xff\xfe invalid", "a\x0bb", "=1+1", "name", "\u2028line", "x\u00a0y", `\.`, "\ufeffbom", "-", "\x1b[31mred",
}

func c19(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 1, Max: 14, Weird: 10, Fancy: 60, Merge: 10, Empty: 8, Idents: 8})
	for _, c := range r.Commits {
		if c.Author.Name != "" && g.pct("odd", 45) {
			c.Author.Name = strings.Trim(pick(g, "name", csvOddNames), " ")
		}
		if c.Author.Email != "" && g.pct("oddmail", 20) {
			c.Author.Email = pick(g, "mail", []string{`"a b"@x`, "a,b@x", `""`, "'@'", "\xffbad@x", "x\ty"})
		}
	}
	if g.pct("many", 3) {
		class("files by the thousand")
		at := r.HeadCommit()
		tree := cloneTree(r.Commits[at].Tree)
		for i, n := 0, pick(g, "files", []int{999, 1000, 1234, 2000}); i < n; i++ {
			put(tree, fmt.Sprintf("many/%d", i), File{"100644", strings.Repeat("l\n", 1+i%3)})
		}
		r.Commits = append(r.Commits, &Commit{Parents: []int{at}, Author: r.Commits[0].Author, ATime: 1600000100, ATZ: "+0000", CTime: 1600000100, Tree: tree})
		r.anc = nil
		r.Branches["main"] = len(r.Commits) - 1
		r.Head = "main"
	}
	r.NoMailmap()
	w.Install(r)
	r.classes()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		s.Email = g.pct("email", 60)
		s.Merges = g.pct("merges", 20)
		if g.pct("nothing", 6) {
			s.Authors = []string{"no such author at all"}
			s.matchA = matchAuthor
		}
		v := View{Kind: "table", CSV: true, Mode: pick(g, "mode", allModes), Limit: pick(g, "n", []int{-1, 0, 0, 2})}
		o := g.Opts(w)
		o.TZ = pick(g, "tz", zones)
		o.TTY = g.pct("terminal", 20)
		res := w.Ask(r, s, v, o)
		w.mark(strings.Contains(res.Out, `"`), "%s: %s TZ=%s", summary(r), cmdline(res), o.TZ)
	}
}

// refused demands that a request is turned down in an orderly way.
func (w *World) refused(res Result) {
	if res.Hang != "" {
		w.Fail("git-who does not terminate: %s\n%s", res.Hang, res)
	}
	if res.crashed() {
		w.Fail("git-who crashed\n%s", res)
	}
	if res.Code == 0 {
		w.Fail("unusable request is not refused\n%s", res)
	}
	if strings.TrimSpace(res.Err) == "" {
		w.Fail("no message on standard error\n%s", res)
	}
	out := plain(res.Out)
	if strings.Contains(out, "┌") || strings.Contains(out, "┤") || strings.Contains(out, "last commit time") || strings.Contains(out, "....") {
		w.Fail("a result is printed for a refused request\n%s", res)
	}
	if res.Out != "" && !strings.HasPrefix(res.Out, "Usage: ") {
		w.Fail("something other than usage is printed for a refused request\n%s", res)
	}
}

func init() {
	common := "a case is a generated repository with generated commands; every run is compared with a reference model of the history (diffs learned from git diff-tree). "
	reg("C01", common+"Non-trivial: more than one author is expected in the table. Distinct by repository content and commands.", c01)
	reg("C02", common+"Each command is run with and without --merges. Non-trivial: the selection contains merge commits.", c02)
	reg("C03", common+"Non-trivial: the paths select some but not all commits of the revision.", c03)
	reg("C04", common+"Non-trivial: revisions are given that select some but not all commits.", c04)
	reg("C05", common+"Non-trivial: the filters keep some but not all commits.", c05)
	reg("C06", common+"Mailmap files are generated, edited, added and removed between the runs; git check-mailmap gives the mapped identities. Non-trivial: the mailmap changes the identity of at least one commit.", c06)
	reg("C07", common+"Non-trivial: at least one selected commit is listed in the ignore file.", c07)
	reg("C08", common+"Non-trivial: more than two authors to rank.", c08)
	reg("C13", common+"Every line's author and numbers are compared; tied authors are interchangeable. Non-trivial: the tree has more than two lines.", c13)
	reg("C14", common+"Lines, order, connecting lines and depth are compared. Non-trivial: the tree has more than two lines.", c14)
	reg("C15", common+"Rows, labels, bars and authors are compared in the local time zone. Non-trivial: at least two rows have contributions.", c15)
	reg("C16", common+"Paths, names and changes are mostly odd. Non-trivial: at least one change of a path with unusual characters.", c16)
	reg("C17", common+"Every line is measured and compared with the expected text. Non-trivial: wide, combining or long names in the output.", c17)
	reg("C19", common+"Output is parsed by a CSV parser. Non-trivial: at least one field needs quoting.", c19)
	_ = time.Now
	_ = sort.Strings
}
