package harness

import (
	"crypto/sha256"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C18

var millionLines = strings.Repeat("\n", 1000000)

func c18(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := &Repo{Branches: map[string]int{"main": 0}, Tags: map[string]int{}, ATags: map[string]int{}, Head: "main"}
	now := time.Now().Unix()
	const minute, hour, day = int64(60), int64(3600), int64(86400)
	n := 1 + g.uni("commits", 4)
	counts := g.pct("counts", 35)
	hugeAt := -1
	if counts && g.pct("huge", 15) {
		hugeAt = g.uni("at", n)
	}
	for i := 0; i < n; i++ {
		c := &Commit{Tree: map[string]File{}, ATZ: "+0000", CTime: 1500000000 + int64(i)*1000}
		if i > 0 {
			c.Parents = []int{i - 1}
			c.Tree = cloneTree(r.Commits[i-1].Tree)
		}
		c.Author = Ident{fmt.Sprintf("Author %d", i), fmt.Sprintf("a%d@x", i)}
		var ago int64
		switch g.uni("unit", 9) {
		case 0:
			ago = int64(g.uni("k", 61)) * minute
		case 1:
			ago = int64(g.uni("k", 25)) * hour
		case 2:
			ago = int64(g.uni("k", 8)) * day
		case 3:
			ago = int64(g.uni("k", 6)) * 7 * day
		case 4:
			ago = int64(g.uni("k", 14)) * 30 * day
		case 5:
			ago = int64(g.uni("k", 6)) * 365 * day
		case 6:
			ago = int64(g.uni("k", 55)) * 365 * day
		case 7:
			ago = pick(g, "limit", []int64{hour, day, 7 * day, 14 * day, 30 * day, 60 * day, 365 * day, 730 * day, 2 * minute, 2 * hour, 2 * day, minute})
		case 8:
			ago = int64(g.uni("k", 1<<20)) * 97
		}
		ago += int64(g.between("off", -12, 12))
		c.ATime = min(now, now-max(0, ago))
		if c.ATime < 0 {
			c.ATime = 0
		}
		if counts {
			k := pick(g, "count", []int{0, 1, 9, 10, 99, 100, 999, 1000, 1001, 1099, 9999, 10000, 99999, 100000, 100999, 123456, 999999, 1000000, 1049000, 1051000, 1949000, 1951000, 1999999, 2000000}) + g.between("off", -1, 1)
			c.Tree[fmt.Sprintf("f%d.txt", i)] = File{"100644", strings.Repeat("\n", max(0, k-1))}
			if i == hugeAt {
				copies := pick(g, "copies", []int{1, 2, 3, 7, 9, 11, 18})
				if g.pct("hundred", 4) {
					copies = pick(g, "copies", []int{98, 99, 99, 100, 101})
				}
				class("millions of lines")
				classIf(copies > 90, "about a hundred million lines")
				for j := 0; j < copies; j++ {
					c.Tree[fmt.Sprintf("huge/%d/%d", i, j)] = File{"100644", millionLines}
				}
			}
			if i > 0 && g.pct("delete", 30) {
				delete(c.Tree, fmt.Sprintf("f%d.txt", i-1))
			}
		} else {
			put(c.Tree, pick(g, "path", plainPaths), File{"100644", g.lines(fmt.Sprint(i), 3)})
		}
		r.Commits = append(r.Commits, c)
	}
	if g.pct("files", 12) {
		// a commit with about a thousand files
		c := r.Commits[n-1]
		for i, k := 0, 998+g.uni("files", 4); i < k; i++ {
			c.Tree[fmt.Sprintf("many/%d", i)] = File{"100644", ""}
		}
		class("about a thousand files")
	}
	r.Branches["main"] = n - 1
	r.NoMailmap()
	w.Install(r)
	classIf(counts, "counts near limits")
	classIf(!counts, "ages near limits")
	for i := 0; i < 2; i++ {
		s := r.SelHead()
		s.Email = g.pct("email", 20)
		v := g.View("tttrr")
		if counts {
			v.Mode = pick(g, "mode", []Mode{ByLines, ByFiles})
		} else {
			v.Mode = pick(g, "mode", []Mode{ByCommits, ByLast, ByLast, ByFirst})
		}
		v.All = v.Kind == "tree"
		res := w.Ask(r, s, v, g.Opts(w))
		w.mark(true, "%s: %s", summary(r), cmdline(res))
	}
}

// ---------------------------------------------------------------- C20

type snapshot map[string]string

func snap(dirs ...string) snapshot {
	m := snapshot{}
	for _, d := range dirs {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			s := fmt.Sprintf("%v %d", fi.Mode(), fi.Size())
			switch {
			case fi.Mode().IsRegular():
				b, _ := os.ReadFile(p)
				s += fmt.Sprintf(" %x %d", sha256.Sum256(b), fi.ModTime().UnixNano())
			case fi.Mode()&os.ModeSymlink != 0:
				l, _ := os.Readlink(p)
				s += " -> " + l + fmt.Sprint(fi.ModTime().UnixNano())
			case fi.IsDir():
				s = fmt.Sprintf("%v %d", fi.Mode(), fi.ModTime().UnixNano())
			}
			m[p] = s
			return nil
		})
	}
	return m
}

func (a snapshot) diff(b snapshot) []string {
	var out []string
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			out = append(out, "removed "+k)
		} else if v != a[k] {
			out = append(out, "changed "+k+": "+a[k]+" => "+v)
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			out = append(out, "created "+k)
		}
	}
	return out
}

var strayCache = "/root/.cache/git-who"

// Unsettle puts the work tree into one of the states users have it in.
func (w *World) Unsettle(g G, r *Repo) {
	touch := func(p string) {
		full := filepath.Join(w.Dir, p)
		if fi, err := os.Lstat(full); err == nil && fi.Mode().IsRegular() {
			w.WriteFile(full, []byte("changed\n"))
		}
	}
	files := sortedKeys(r.Index())
	for i, k := 0, 1+g.uni("states", 3); i < k; i++ {
		switch g.uni("state", 7) {
		case 0:
			if len(files) > 0 {
				class("modified files")
				touch(pick(g, "file", files))
			}
		case 1:
			class("untracked files")
			w.WriteFile(filepath.Join(w.Dir, "untracked-"+strconv.Itoa(i)+".txt"), []byte("new\n"))
		case 2:
			class("staged files")
			w.WriteFile(filepath.Join(w.Dir, "staged.txt"), []byte("staged\n"))
			w.Git(w.Dir, nil, "add", "staged.txt")
			w.step("git -C " + w.q(w.Dir) + " add staged.txt")
		case 3:
			class("detached HEAD")
			w.Git(w.Dir, nil, "update-ref", "--no-deref", "HEAD", r.Commits[r.HeadCommit()].Hash)
			w.step("git -C " + w.q(w.Dir) + " update-ref --no-deref HEAD " + r.Commits[r.HeadCommit()].Hash)
		case 4:
			class("index out of date")
			old := time.Unix(1400000000+int64(g.uni("t", 1000)), 0)
			for _, f := range files {
				_ = os.Chtimes(filepath.Join(w.Dir, f), old, old)
			}
		case 5:
			if len(files) > 0 {
				class("deleted files")
				_ = os.RemoveAll(filepath.Join(w.Dir, pick(g, "file", files)))
			}
		case 6:
			class("merge in progress")
			w.WriteFile(filepath.Join(w.Dir, ".git", "MERGE_HEAD"), []byte(r.Commits[0].Hash+"\n"))
			w.WriteFile(filepath.Join(w.Dir, ".git", "MERGE_MSG"), []byte("merge\n"))
		}
	}
}

func c20(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, pick(g, "name", []string{"repo", "re po", "[repo]", "r{e}po*", "répo", "-repo", "re'po\"", "repo.git"}))
	defer w.Close()
	r := g.Repo(GenOpts{Min: 1, Max: 10, Weird: 20, Fancy: 15, Merge: 12, Empty: 8})
	w.Install(r)
	r.classes()
	if g.pct("mailmap", 25) {
		w.setMailmap(g, r)
	}
	if g.pct("unsettled", 80) {
		w.Unsettle(g, r)
	}
	w.WriteFile(filepath.Join(w.Home, "precious"), []byte("x"))
	w.WriteFile(filepath.Join(w.Tmp, "precious"), []byte("x"))
	w.WriteFile(filepath.Join(w.Cache, "other", "precious"), []byte("x"))
	if g.pct("stale", 50) {
		class("cache with entries of older states and other repositories")
		w.WriteFile(filepath.Join(w.Cache, "git-who", "gob", "other-1234", "811c9dc5.gobs.gz"), []byte("x"))
	}
	root := w.Dir
	if g.pct("worktree", 20) {
		class("linked worktree")
		wt := filepath.Join(w.Root, "src", "linked tree")
		w.Git(w.Dir, nil, "worktree", "add", "-q", "--detach", wt, r.Commits[r.HeadCommit()].Hash)
		w.step(fmt.Sprintf("git -C %s worktree add -q --detach %s %s", w.q(w.Dir), w.q(wt), r.Commits[r.HeadCommit()].Hash))
		if g.pct("inside", 70) {
			root = wt
		}
	}
	outside := []string{filepath.Join(w.Root, "src"), w.Home, w.Tmp, filepath.Join(w.Cache, "other"), filepath.Join(w.Cache, "git-who", "gob", "other-1234")}
	for i := 0; i < 4; i++ {
		s := r.SelHead()
		s.Sep = true
		if g.pct("revs", 30) {
			s.Revs, s.Set = g.Revs(r)
		}
		if g.pct("paths", 20) {
			s.Paths = g.Paths(r, "", 1, 2)
		}
		if g.pct("filters", 15) {
			g.Filters(r, s)
		}
		s.Email = g.pct("email", 25)
		s.Merges = g.pct("merges", 20)
		v := g.View("cttrrh")
		o := RunOpts{Procs: pick(g, "procs", []int{1, 2, 8}), NoCache: g.pct("nocache", 35), Cwd: root}
		// as users have it: git may take optional locks
		o.Env = []string{"GIT_OPTIONAL_LOCKS=1"}
		args := v.Args(s)
		bad := false
		switch {
		case g.pct("fail", 12):
			bad = true
			args = append(args, pick(g, "bad", []string{":(icase)x", ":/y"}))
			if !slices.Contains(args, "--") {
				args = append(args[:len(args)-1], "no-such-thing")
			}
		case g.pct("other", 10):
			args = pick(g, "cmd", [][]string{{"-h"}, {"--version"}, {"table", "-h"}, {"parse"}, {"dump"}, {"-v", "table", "-l"}, {"-v", "tree"}})
		case g.pct("dirfile", 100) && v.Kind == "tree" && hasDirFile(r):
			args = []string{"table", "-l"}
		}
		before := snap(outside...)
		cacheBefore := snap(w.Cache)
		_, strayBefore := os.Stat(strayCache)
		res := w.Who(o, args...)
		class("run of " + strings.SplitN(strings.TrimLeft(args[0], "-"), " ", 2)[0])
		classIf(bad, "failing run")
		classIf(o.NoCache, "caching disabled")
		if res.Hang != "" || res.crashed() {
			w.Fail("git-who crashes\n%s", res)
		}
		if d := before.diff(snap(outside...)); len(d) > 0 {
			w.Fail("files outside git-who's cache were touched: %s\n%s", strings.ReplaceAll(strings.Join(d, "\n"), w.Root, ""), res)
		}
		if _, err := os.Stat(strayCache); err == nil && strayBefore != nil {
			w.Fail("%s was created although XDG_CACHE_HOME is set\n%s", strayCache, res)
		}
		if o.NoCache {
			if d := cacheBefore.diff(snap(w.Cache)); len(d) > 0 {
				w.Fail("caching is disabled but the cache was touched: %s\n%s", strings.ReplaceAll(strings.Join(d, "\n"), w.Root, ""), res)
			}
		} else {
			perDir := map[string][]string{}
			filepath.Walk(w.Cache, func(p string, fi os.FileInfo, err error) error {
				if err != nil || fi.IsDir() {
					return nil
				}
				rel := p[len(w.Cache)+1:]
				if rel == "other/precious" || strings.Contains(rel, "other-1234") {
					return nil
				}
				if !strings.HasPrefix(rel, "git-who/") || !fi.Mode().IsRegular() {
					w.Fail("%s appeared in the cache directory\n%s", rel, res)
				}
				perDir[filepath.Dir(rel)] = append(perDir[filepath.Dir(rel)], filepath.Base(rel))
				return nil
			})
			for d, fs := range perDir {
				if len(fs) > 1 || !strings.HasSuffix(fs[0], ".gz") {
					w.Fail("more than one compressed file remains in %s: %q\n%s", d, fs, res)
				}
			}
			if !bad && res.Code == 0 && g.pct("mailmap2", 15) {
				class("cache state changed")
				w.setMailmap(g, r)
				w.WriteFile(filepath.Join(w.Home, "precious"), []byte("x"))
			}
		}
		w.mark(!bad, "%s: %s in %s", summary(r), cmdline(res), root[len(w.Root):])
	}
}

// ---------------------------------------------------------------- C21

func c21(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	kind := g.uni("place", 8)
	var r *Repo
	cwd := w.Dir
	switch kind {
	case 0:
		class("repository without commits")
		w.InitRepo(w.Dir, "main")
	case 1:
		class("not a repository")
		cwd = w.Home
	default:
		r = g.Repo(GenOpts{Min: 1, Max: 8, Weird: 10, Fancy: 10, Merge: 15, Empty: 8, NoDirFile: true, NoTabs: true})
		w.Install(r)
		if g.pct("cwd", 20) {
			if ds := r.worktreeDirs(); len(ds) > 0 {
				cwd = filepath.Join(w.Dir, pick(g, "prefix", ds))
			}
		}
	}
	view := pick(g, "view", []string{"table", "tree", "hist"})
	modes := []string{"-l", "-f", "-m", "-c"}
	if view == "hist" {
		modes = modes[:2]
	}
	goodFlags := func() []string {
		var a []string
		if g.pct("mode", 60) {
			a = append(a, pick(g, "m", modes))
		}
		if g.pct("e", 30) {
			a = append(a, "-e")
		}
		if g.pct("merges", 20) {
			a = append(a, "--merges")
		}
		if view == "table" && g.pct("csv", 30) {
			a = append(a, "--csv")
		}
		if view == "tree" && g.pct("all", 30) {
			a = append(a, "-a")
		}
		if g.pct("author", 20) {
			a = append(a, "--author", "e")
		}
		if g.pct("since", 15) {
			a = append(a, "--since", pick(g, "when", []string{"2010-01-01", "10 years ago", "yesterday"}))
		}
		return a
	}
	o := RunOpts{Cwd: cwd, Procs: pick(g, "procs", []int{1, 2, 8}), NoCache: g.pct("nocache", 50)}
	for i := 0; i < 3; i++ {
		args := []string{view}
		if view == "table" && g.pct("plain", 40) {
			args = nil
		}
		flags := goodFlags()
		var tail []string
		why := ""
		switch {
		case r == nil:
			why = "no commits to look at"
			if g.pct("rev", 30) {
				tail = []string{pick(g, "rev", []string{"HEAD", "main", "HEAD..", "-- x"})}
				tail = strings.Fields(tail[0])
			}
		default:
			switch g.uni("bad", 10) {
			case 0:
				why = "unknown revision"
				h := "0123456789abcdef0123456789abcdef01234567"
				bad := pick(g, "rev", []string{"nosuchrev", "HEAD~4000", "nosuchrev..HEAD", "HEAD..nosuchrev", "HEAD...nosuchrev", "^nosuchrev", "main^{tree}x", "HEAD^9", "refs/heads/none", "main@{99999}x", h + "^", "v99"})
				switch g.uni("where", 4) {
				case 0:
					tail = []string{bad, "--"}
				case 1:
					tail = []string{"HEAD", bad, "--"}
				case 2:
					tail = []string{bad}
				default:
					tail = []string{"--", "README.md"}
					tail = append([]string{bad}, tail...)
				}
			case 1:
				why = "unknown path"
				tail = []string{pick(g, "path", []string{"no/such/file", "nosuchfile.txt", "HEAD/x"})}
				if g.pct("rev", 50) {
					tail = append([]string{"HEAD"}, tail...)
				}
			case 2:
				why = "unsupported pathspec magic"
				tail = []string{"--", pick(g, "magic", []string{":(icase)readme.md", ":(top)src", ":/src", ":(glob)**/*.go", ":(literal)a.txt", ":(attr:foo)src", ":(icase,exclude)src", ":!/src", ":(exclude,top)x"})}
				if g.pct("more", 50) {
					tail = append(tail, pick(g, "with", []string{"src", ".", "*.go", ":!x"}))
					if g.pct("last", 60) {
						tail[1], tail[2] = tail[2], tail[1]
					}
				}
				if g.pct("rev", 40) {
					tail = append([]string{"HEAD"}, tail...)
				}
			case 3:
				why = "conflicting sort flags"
				a := g.uni("a", len(modes))
				b := (a + 1 + g.uni("b", len(modes)-1)) % len(modes)
				flags = append(flags, modes[a], modes[b])
			case 4:
				f := map[string]string{"table": "-n", "tree": "-d"}[view]
				if f == "" {
					continue
				}
				why = "negative row limit or depth"
				flags = append(flags, f, strconv.Itoa(-1-g.uni("n", 100)))
			case 5:
				why = "unknown flag"
				var f []string
				switch view {
				case "table":
					f = []string{"-d", "-a", "--depth", "-x", "--all", "--tree", "-L"}
				case "tree":
					f = []string{"-n", "--csv", "-x", "--lines", "-q"}
				default:
					f = []string{"-n", "--csv", "-a", "-d", "-m", "-c", "-x"}
				}
				flags = append(flags, pick(g, "flag", f))
				if g.pct("value", 40) {
					flags = append(flags, "3")
				}
			case 6:
				why = "malformed flag value"
				f := [][]string{{"-e=maybe"}, {"--merges=2"}, {"-l=x"}}
				switch view {
				case "table":
					f = append(f, []string{"-n", "x"}, []string{"-n", "1.5"}, []string{"-n", ""}, []string{"-n=99999999999999999999"}, []string{"-n", "3k"}, []string{"--csv=no!"})
				case "tree":
					f = append(f, []string{"-d", "x"}, []string{"-d", "deep"}, []string{"-d", "0.5"}, []string{"-a=perhaps"})
				}
				flags = append(flags, pick(g, "value", f)...)
			case 7:
				why = "missing flag value"
				f := []string{"--author", "--nauthor", "--since", "--until"}
				if view == "table" {
					f = append(f, "-n")
				}
				if view == "tree" {
					f = append(f, "-d")
				}
				flags = append(flags, pick(g, "flag", f))
			case 8:
				why = "option after a revision or path"
				f := []string{"-l", "-e", "--merges", "--author=e", "--since=2001-01-01", "--until=yesterday", "--csv", "-a", "-x", "--nosuch", "-n", "-d", "-5", "--oneline"}
				tail = []string{pick(g, "rev", []string{"HEAD", "main", r.Commits[0].Hash})}
				tail = append(tail, pick(g, "flag", f))
				if g.pct("sep", 30) {
					tail = append(tail, "--", "README.md")
				}
			case 9: // valid
				c21valid(g, w, r, view, o)
				continue
			}
		}
		args = append(args, flags...)
		args = append(args, tail...)
		res := w.Who(o, args...)
		class("refused: " + why)
		w.note("to be refused: %s", why)
		w.refused(res)
		w.mark(true, "%s: %s in %s", why, cmdline(res), cwd[len(w.Root):])
	}
	if r == nil && g.pct("help", 30) {
		c21help(g, w, o)
	}
}

func c21help(g G, w *World, o RunOpts) {
	args := pick(g, "help", [][]string{{"-h"}, {"--help"}, {"--version"}, {"-version"}, {"table", "-h"}, {"tree", "--help"}, {"hist", "-h"}})
	res := w.Who(o, args...)
	w.OK(res)
	if strings.TrimSpace(res.Out+res.Err) == "" {
		w.Fail("no help is printed\n%s", res)
	}
}

// c21valid asks for a valid but elaborate combination, in varied spelling.
func c21valid(g G, w *World, r *Repo, view string, o RunOpts) {
	if g.pct("help", 5) {
		c21help(g, w, o)
		return
	}
	s := r.SelHead()
	s.Sep = true
	if o.Cwd != w.Dir {
		s.Prefix = o.Cwd[len(w.Dir)+1:]
	}
	if g.pct("revs", 60) {
		s.Revs, s.Set = g.Revs(r)
	}
	g.Filters(r, s)
	if g.pct("nothing", 25) {
		class("no matches")
		s.Authors = []string{"nobody of that name"}
		s.matchA = matchAuthor
	}
	if g.pct("paths", 50) {
		s.Paths = g.Paths(r, s.Prefix, 1, 3)
	}
	s.Prepare(w, r)
	s.Email = g.pct("email", 50)
	s.Merges = g.pct("merges", 50)
	v := View{Kind: view, Limit: -1, Mode: pick(g, "mode", allModes)}
	if view == "hist" {
		v.Mode = pick(g, "mode", []Mode{ByCommits, ByLines, ByFiles})
	}
	if view == "table" {
		v.CSV = g.pct("csv", 40)
		v.Limit = pick(g, "limit", []int{-1, 0, 1, 2, 1000000})
		v.Plain = g.pct("plain", 40)
	}
	if view == "tree" {
		v.All = g.pct("all", 40)
		v.Depth = pick(g, "depth", []int{0, 1, 2, 3, 10})
	}
	args := v.Args(s)
	// Flags may come in any order, and what is given twice counts the last time.
	first := 0
	if len(args) > 0 && args[0] == v.Kind {
		first = 1
	}
	var flags [][]string
	for i := first; i < len(args) && strings.HasPrefix(args[i], "-") && args[i] != "--"; i++ {
		f := []string{args[i]}
		if slices.Contains([]string{"--author", "--nauthor", "--since", "--until", "-n", "-d"}, args[i]) {
			i++
			f = append(f, args[i])
		}
		flags = append(flags, f)
	}
	n := first
	for _, f := range flags {
		n += len(f)
	}
	rest := slices.Clone(args[n:])
	if g.pct("shuffle", 60) {
		class("flags in another order")
		for i := len(flags) - 1; i > 0; i-- {
			j := g.uni("swap", i+1)
			flags[i], flags[j] = flags[j], flags[i]
		}
	}
	if g.pct("twice", 30) {
		for _, f := range flags {
			if len(f) == 2 && f[0] != "--author" && f[0] != "--nauthor" {
				class("flag given twice")
				other := map[string]string{"-n": "3", "-d": "2", "--since": "@1", "--until": "@2"}[f[0]]
				flags = append([][]string{{f[0], other}}, flags...)
				break
			}
		}
	}
	args = slices.Concat(append([][]string{args[:first]}, flags...)...)
	args = append(args, rest...)
	for i, a := range args {
		if a == "--" {
			break
		}
		if i+1 < len(args) && (a == "--author" || a == "--nauthor" || a == "--since" || a == "--until" || a == "-n" || a == "-d") && g.pct("join", 50) {
			args[i] = a + "=" + args[i+1]
			args[i+1] = "\x00"
			a = args[i]
		}
		switch {
		case strings.HasPrefix(a, "--") && g.pct("dash", 40):
			args[i] = a[1:]
		case len(a) == 2 && a[0] == '-' && g.pct("dash", 30):
			args[i] = "-" + a
		}
		if (a == "-e" || a == "--merges" || a == "-l" || a == "--csv" || a == "-a") && g.pct("true", 15) {
			args[i] += "=true"
		}
	}
	args = slices.DeleteFunc(args, func(a string) bool { return a == "\x00" })
	if v.Mode != ByLines && len(args) > 0 && args[0] == view && g.pct("off", 15) {
		args = slices.Insert(args, 1, "-l=false")
	}
	res := w.Who(o, args...)
	class("accepted: " + v.String())
	w.Check(res, r, s, v)
	w.mark(true, "valid: %s", cmdline(res))
}

// ---------------------------------------------------------------- C23

func c23(t *rapid.T) {
	g := G{t}
	name := pick(g, "name", []string{"repo", "repo", "re po", "[repo]", "r{e,x}po", "*", "répo", "-repo", "re'po\"", "repo ", " repo", "%s", "日本", "a\tb", "repo.git", "{", "[", "\\x", "..x"})
	w := NewWorld(t, name)
	defer w.Close()
	classIf(name != "repo", "odd repository path")
	dirfile := g.pct("dirfile", 15)
	r := g.Repo(GenOpts{Min: 2, Max: 14, Weird: 20, Fancy: 10, Merge: 12, Empty: 8, NoDirFile: !dirfile, DirFile: dirfile, NoTabs: true})
	w.Install(r)
	r.classes()
	root := w.Dir
	if g.pct("worktree", 20) {
		class("linked worktree")
		c := g.uni("at", len(r.Commits))
		if g.pct("tip", 50) {
			c = r.HeadCommit()
		}
		root = filepath.Join(w.Root, "src", pick(g, "wt", []string{"linked", "linked tree", "[l]"}))
		w.Git(w.Dir, nil, "worktree", "add", "-q", "--detach", root, r.Commits[c].Hash)
		w.step(fmt.Sprintf("git -C %s worktree add -q --detach %s %s", w.q(w.Dir), w.q(root), r.Commits[c].Hash))
		// relative to the worktree, HEAD is another commit
		r.Head = "(worktree)"
		r.Branches[r.Head] = c
		defer delete(r.Branches, "(worktree)")
	}
	if g.pct("mailmap", 30) {
		w.WriteFile(filepath.Join(root, ".mailmap"), []byte(g.Mailmap(r)))
		d := w.Dir
		w.Dir = root
		w.ApplyMailmap(r)
		w.Dir = d
		class("repository mailmap")
	}
	var ig map[string]bool
	if g.pct("ignore", 30) {
		var data string
		data, ig = g.IgnoreFile(r)
		w.WriteFile(filepath.Join(root, ".git-blame-ignore-revs"), []byte(data))
		class("ignore file")
	}
	dirs := append([]string{""}, r.worktreeDirs()...)
	saved := w.Dir
	w.Dir = root
	defer func() { w.Dir = saved }()
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		s.Ignore = ig
		s.Sep = true
		prefix := pick(g, "prefix", dirs)
		if once := r.onceFiles(dirs); len(once) > 0 && g.pct("once", 70) {
			class("in a directory that was a file once")
			prefix = pick(g, "prefix", once)
		}
		s.Prefix = prefix
		if g.pct("revs", 15) {
			s.Revs = []string{r.Commits[0].Hash + ".."}
			s.Set = r.ancestors(r.HeadCommit())
			x := slices.Clone(s.Set)
			for j, b := range r.ancestors(0) {
				x[j] = x[j] && !b
			}
			s.Set = x
		}
		if g.pct("paths", 45) {
			s.Paths = g.Paths(r, prefix, 1, 2)
			class("paths relative to the current directory")
		}
		s.Prepare(w, r)
		s.Email = g.pct("email", 25)
		v := g.View("cctrrrh")
		o := g.Opts(w)
		o.Cwd = filepath.Join(root, prefix)
		if fi, err := os.Stat(o.Cwd); err != nil || !fi.IsDir() {
			continue
		}
		if g.pct("symlink", 25) {
			class("through a symbolic link")
			link := filepath.Join(w.Root, fmt.Sprintf("link%d", i))
			target := root
			rest := prefix
			if g.pct("deep", 50) {
				target, rest = o.Cwd, ""
			}
			must(os.Symlink(target, link))
			w.step("ln -s " + w.q(target) + " " + w.q(link))
			o.Cwd = filepath.Join(link, rest)
		}
		classIf(prefix != "", "in a subdirectory")
		res := w.Ask(r, s, v, o)
		if prefix != "" && len(s.Paths) == 0 && v.Kind != "tree" {
			// the same at the root
			top := s.clone()
			top.Prefix = ""
			o2 := o
			o2.Cwd = root
			res2 := w.Ask(r, top, v, o2)
			if res.Out != res2.Out && ageless(res.Out) != ageless(res2.Out) {
				w.Fail("output differs between %q and the root\n%s\n%s", prefix, res, res2)
			}
		}
		w.mark(prefix != "" || name != "repo" || root != saved, "%s: %s in %q", summary(r), cmdline(res), o.Cwd[len(w.Root):])
	}
}

// ---------------------------------------------------------------- C24

type csvRow struct {
	name, email              string
	commits, add, del, files int
	last, first              time.Time
}

// rows runs the table as CSV without limit.
func (w *World) rows(s *Sel, mode Mode, o RunOpts) map[string]csvRow {
	v := View{Kind: "table", CSV: true, Mode: mode, Limit: 0}
	res := w.Who(o, v.Args(s)...)
	m := map[string]csvRow{}
	for _, rec := range w.parseCSV(res, mode, s.Email) {
		var x csvRow
		x.name = rec[0]
		key := rec[0]
		rec = rec[1:]
		if s.Email {
			x.email, key = rec[0], rec[0]
			rec = rec[1:]
		}
		num := func(s string) int {
			n, err := strconv.Atoi(s)
			if err != nil {
				w.Fail("%q is not a number\n%s", s, res)
			}
			return n
		}
		x.commits = num(rec[0])
		rec = rec[1:]
		if mode.Diff() {
			x.add, x.del, x.files = num(rec[0]), num(rec[1]), num(rec[2])
			rec = rec[3:]
		}
		var err1, err2 error
		x.last, err1 = time.Parse(time.RFC3339, rec[0])
		x.first, err2 = time.Parse(time.RFC3339, rec[1])
		if err1 != nil || err2 != nil {
			w.Fail("bad time in %q\n%s", rec, res)
		}
		if _, dup := m[key]; dup {
			w.Fail("author %q is listed twice\n%s", key, res)
		}
		m[key] = x
	}
	return m
}

// addUp demands that the parts make up the whole.
func (w *World) addUp(what string, whole map[string]csvRow, parts []map[string]csvRow, exactCommits, exactFiles bool) {
	keys := map[string]bool{}
	for k := range whole {
		keys[k] = true
	}
	for _, p := range parts {
		for k := range p {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		x, ok := whole[k]
		if !ok {
			w.Fail("%s: author %q appears in a part but not in the whole", what, k)
		}
		var commits, add, del, files, maxc, maxf int
		var last, first time.Time
		for _, p := range parts {
			y, ok := p[k]
			if !ok {
				continue
			}
			commits += y.commits
			add += y.add
			del += y.del
			files += y.files
			maxc, maxf = max(maxc, y.commits), max(maxf, y.files)
			if last.IsZero() || y.last.After(last) {
				last = y.last
			}
			if first.IsZero() || y.first.Before(first) {
				first = y.first
			}
		}
		good := add == x.add && del == x.del
		if exactCommits {
			good = good && commits == x.commits && last.Equal(x.last) && first.Equal(x.first)
		} else {
			// commits that touch both parts count in both, commits without
			// changes in none
			good = good && maxc <= x.commits && !last.After(x.last) && !(first.Before(x.first) && commits > 0)
		}
		if exactFiles {
			good = good && files == x.files
		} else {
			good = good && maxf <= x.files && x.files <= files
		}
		if !good {
			w.Fail("%s: parts of author %q add up to commits %d, +%d -%d, files %d (largest part: %d commits, %d files), %v to %v; the whole is %+v", what, k, commits, add, del, files, maxc, maxf, first, last, x)
		}
	}
}

func (r *Repo) hasMerge() bool {
	for _, c := range r.Commits {
		if len(c.Parents) > 1 {
			return true
		}
	}
	return false
}

func c24(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 3, Max: 16, Weird: 12, Fancy: 20, Merge: pick(g, "merge%", []int{0, 12, 12}), Empty: 10, NoDirFile: true, NoTabs: true})
	w.Install(r)
	r.classes()
	if g.pct("mailmap", 20) {
		w.setMailmap(g, r)
	}
	s := r.SelHead()
	s.Sep = true
	if g.pct("rev", 30) {
		c := g.uni("c", len(r.Commits))
		s.Revs = []string{r.Commits[c].Hash}
	}
	s.Email = g.pct("email", 30)
	s.Merges = g.pct("merges", 30)
	o := g.Opts(w)
	whole := w.rows(s, ByLines, o)
	total := 0
	for _, x := range whole {
		total += x.commits
	}
	nt := len(whole) > 1 && total > 2
	for i := 0; i < 3; i++ {
		o := g.Opts(w)
		what := ""
		switch g.uni("relation", 7) {
		case 0: // modes agree
			m := pick(g, "mode", []Mode{ByCommits, ByFiles, ByLast, ByFirst})
			what = "mode " + strings.Join(m.Flag(), "")
			other := w.rows(s, m, o)
			if len(other) != len(whole) {
				w.Fail("modes list %d and %d authors", len(other), len(whole))
			}
			for k, x := range whole {
				y, ok := other[k]
				if !ok || x.commits != y.commits || !x.last.Equal(y.last) || !x.first.Equal(y.first) {
					w.Fail("modes disagree on author %q: %+v and %+v", k, x, y)
				}
				if m == ByFiles && (x.add != y.add || x.del != y.del || x.files != y.files) {
					w.Fail("modes disagree on changes of author %q: %+v and %+v", k, x, y)
				}
			}
		case 1: // by author
			what = "split by author"
			p := g.authorPattern(r)
			a, b := s.clone(), s.clone()
			a.Authors, b.Nauth = []string{p}, []string{p}
			w.addUp(what+" "+p, whole, []map[string]csvRow{w.rows(a, ByLines, o), w.rows(b, ByFiles, o)}, true, false)
		case 2: // by path
			what = "split by path"
			ps := g.Paths(r, "", 1, 1)
			if len(ps) == 0 || ps[0].Exclude || r.hasMerge() {
				// where there are merges git simplifies the history of a path
				continue
			}
			a, b := s.clone(), s.clone()
			a.Paths = ps
			b.Paths = []PathArg{{Arg: ":(exclude)" + ps[0].Arg, Exclude: true}}
			w.addUp(what+" "+ps[0].Arg, whole, []map[string]csvRow{w.rows(a, ByLines, o), w.rows(b, ByLines, o)}, false, true)
		case 3: // by revision
			what = "split by revision range"
			c := r.Commits[g.uni("c", len(r.Commits))].Hash
			top := "HEAD"
			if len(s.Revs) > 0 {
				top = s.Revs[0]
			}
			both, a, b := s.clone(), s.clone(), s.clone()
			both.Revs, a.Revs, b.Revs = []string{top, c}, []string{c}, []string{c + ".." + top}
			w.addUp(what+" "+c, w.rows(both, ByLines, o), []map[string]csvRow{w.rows(a, ByFiles, o), w.rows(b, ByLines, o)}, true, false)
		case 4: // by date; committer dates never run backwards here
			what = "split by date"
			at := pick(g, "commit", r.Commits).CTime
			a, b := s.clone(), s.clone()
			a.Until, b.Since = at, at+1
			w.addUp(fmt.Sprintf("%s @%d", what, at), whole, []map[string]csvRow{w.rows(a, ByLines, o), w.rows(b, ByLines, o)}, true, false)
		case 5: // the tree's top entry is the table's first row
			what = "tree against table"
			m := pick(g, "mode", allModes)
			tbl := w.Who(o, View{Kind: "table", CSV: true, Mode: m, Limit: 0}.Args(s)...)
			recs := w.parseCSV(tbl, m, s.Email)
			tree := w.Who(g.Opts(w), View{Kind: "tree", Mode: m, All: true}.Args(s)...)
			w.OK(tree)
			if tree.Out == "" || len(recs) == 0 {
				continue
			}
			line := strings.SplitN(plain(tree.Out), "\n", 2)[0]
			ok := false
			var texts []string
			all := w.rows(s, ByLines, o)
			bestVal := int64(math.MinInt64)
			val := func(x csvRow) int64 {
				switch m {
				case ByLines:
					return int64(x.add + x.del)
				case ByFiles:
					return int64(x.files)
				case ByLast:
					return x.last.Unix()
				case ByFirst:
					return -x.first.Unix()
				}
				return int64(x.commits)
			}
			for _, x := range all {
				bestVal = max(bestVal, val(x))
			}
			firstKey := recs[0][0]
			if s.Email {
				firstKey = recs[0][1]
			}
			if val(all[firstKey]) != bestVal {
				w.Fail("first row %q does not have the greatest value %d", recs[0], bestVal)
			}
			for k, x := range all {
				if val(x) != bestVal {
					continue
				}
				label := abbrev(k, 25)
				if s.Email {
					label = abbrev("<"+k+">", 25)
				}
				tl := newTally(k)
				tl.Add, tl.Del, tl.First, tl.Last = x.add, x.del, x.first.Unix(), x.last.Unix()
				for j := 0; j < x.commits; j++ {
					tl.Commits[strconv.Itoa(j)] = true
				}
				for j := 0; j < x.files; j++ {
					tl.Files[strconv.Itoa(j)] = true
				}
				for _, mt := range tl.metricTexts(tree, m) {
					texts = append(texts, label+" "+mt)
					ok = ok || strings.HasSuffix(line, label+" "+mt)
				}
			}
			if !ok {
				w.Fail("top entry of the tree is %q but the table leads with %q\n%s\n%s", line, texts, tree, tbl)
			}
		case 6: // a timeline of one author adds up to the table row
			what = "timeline against table"
			m := pick(g, "mode", []Mode{ByCommits, ByLines, ByFiles})
			p := g.authorPattern(r)
			a := s.clone()
			a.Authors = []string{p}
			rows := w.rows(a, ByLines, o)
			if len(rows) != 1 {
				class("timeline of more or less than one author")
				continue
			}
			res := w.Who(g.Opts(w), View{Kind: "hist", Mode: m}.Args(a)...)
			w.OK(res)
			sum, add, del, most := 0, 0, 0, 0
			for _, l := range strings.Split(plain(res.Out), "\n") {
				switch m {
				case ByCommits, ByFiles:
					if x := histCount.FindStringSubmatch(l); x != nil {
						n, _ := strconv.Atoi(strings.ReplaceAll(x[1], ",", ""))
						sum += n
						most = max(most, n)
					}
				case ByLines:
					if x := histLines.FindStringSubmatch(l); x != nil {
						n, _ := strconv.Atoi(strings.ReplaceAll(x[1], ",", ""))
						k, _ := strconv.Atoi(strings.ReplaceAll(x[2], ",", ""))
						add, del = add+n, del+k
					}
				}
			}
			for k, x := range rows {
				if m == ByCommits && sum != x.commits || m == ByLines && (add != x.add || del != x.del) {
					w.Fail("timeline of %q adds up to %d commits, +%d -%d, but the table says %+v\n%s", k, sum, add, del, x, res)
				}
				// A file can be changed in several periods.
				if m == ByFiles && (most > x.files || sum < x.files) {
					w.Fail("timeline of %q has periods with up to %d files and %d in all, but the table says %+v\n%s", k, most, sum, x, res)
				}
			}
		}
		class(what)
		w.mark(nt, "%s: %s", summary(r), what)
	}
}

var histCount = regexp.MustCompile(`\(([0-9,]+)\)$`)
var histLines = regexp.MustCompile(`\(([0-9,]+) / ([0-9,]+)\)$`)

// ---------------------------------------------------------------- C25

func c25(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	var r *Repo
	if g.pct("big", 10) {
		class("several batches")
		r = BigRepo(g.seed(), 1030+g.uni("n", 2200), 30)
		if g.pct("ties", 60) {
			for i, c := range r.Commits {
				if c.ATime < soonTime {
					c.ATime = 1400000000 + int64(i%3)*86400
				}
			}
		}
	} else {
		r = g.Repo(GenOpts{Min: 4, Max: 24, Weird: 8, Fancy: 20, Merge: 8, Empty: 8, Idents: 20, TimeKind: pick(g, "tk", []int{0, 5, 5, 6, 7}), NoTabs: g.pct("tabs", 50)})
		if g.pct("alike", 50) {
			class("authors with equal contributions")
			for i, c := range r.Commits {
				if c.Author != (Ident{}) && c.ATime < soonTime {
					c.Author = Ident{fmt.Sprintf("Author %c", 'A'+(i*7)%11), fmt.Sprintf("%c@x", 'a'+(i*7)%11)}
				}
			}
			r.NoMailmap()
		}
	}
	w.Install(r)
	r.classes()
	for i := 0; i < 2; i++ {
		s := r.SelHead()
		s.Sep = true
		if g.pct("revs", 20) {
			s.Revs, s.Set = g.Revs(r)
		}
		s.Email = g.pct("email", 35)
		v := g.View("ctrrrh")
		if v.Kind == "tree" && hasDirFile(r) {
			v = View{Kind: "table", Mode: ByFiles}
		}
		if v.Kind == "table" {
			v.Limit = pick(g, "limit", []int{0, 1, 3, -1})
		}
		args := v.Args(s)
		m := r.Table(s)
		ties := 0
		for j, rk := 1, ranked(m, v.Mode); j < len(rk); j++ {
			if better(rk[j-1], rk[j], v.Mode) == 0 {
				ties++
			}
		}
		var firstRes Result
		runs := 4 + g.uni("runs", 4)
		opts := []RunOpts{}
		for j := 0; j < runs; j++ {
			opts = append(opts, RunOpts{Procs: pick(g, "procs", []int{1, 2, 3, 8}), NoCache: g.pct("nocache", 40)})
		}
		for try := 0; ; try++ {
			same := true
			var other Result
			for j, o := range opts {
				res := w.Who(o, args...)
				w.OK(res)
				if j == 0 {
					firstRes = res
				} else if res.Out != firstRes.Out {
					same, other = false, res
					break
				}
			}
			if same {
				break
			}
			if try == 3 || ageless(other.Out) != ageless(firstRes.Out) {
				w.Fail("the same command prints different output\n%s\n%s", firstRes, other)
			}
			class("age turned over between runs")
		}
		class(v.String())
		classIf(ties > 0, "fully tied authors")
		w.mark(ties > 0, "%s: %s %d times, %d tied neighbours", summary(r), cmdline(firstRes), runs, ties)
	}
}

func init() {
	reg("C18", "a case is a repository whose author dates lie at drawn distances from now (around unit boundaries) or whose line and file counts lie around formatting limits; every shown number and age is compared with the definition, allowing for the time that passes during the run. Non-trivial: all cases.", c18)
	reg("C20", "a case is a repository in some state (dirty, staged, untracked, detached, linked worktree, merge in progress, odd path) with marker files around it; repository, home, temporary directory and cache are compared before and after each command, valid or not. Non-trivial: the command is a valid one.", c20)
	reg("C21", "a case asks unusable requests (unknown revision or path, unsupported magic, conflicting or unknown flags, malformed or missing values, no repository, no commits), which must fail with a message and without result, and elaborate valid ones in varied spelling, which must give the reference model's answer. Non-trivial: all; distinct by repository and command.", c21)
	reg("C23", "a case runs commands in subdirectories, through symbolic links, in linked worktrees and in repositories at odd paths; every answer is compared with the reference model and the answer at the root. Non-trivial: not simply at the root of a plainly named repository.", c23)
	reg("C24", "a case compares outputs of git-who with each other: modes of the table, both halves of a selection split by author, path, revision range or date with the whole, the tree's top entry with the table's first row, and one author's timeline with the table. Non-trivial: more than one author and more than two commits.", c24)
	reg("C25", "a case runs one command 4 to 7 times with drawn processor limits and with or without the cache; all outputs must be identical byte for byte. Non-trivial: authors fully tied in the ranking.", c25)
}
