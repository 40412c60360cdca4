package harness

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

var shimDir = os.Getenv("VERIF_SHIM")

// ---------------------------------------------------------------- big histories

// BigRepo expands a drawn seed into a history of n commits. All of its choices
// follow from the seed, so that a case stays small enough to shrink.
func BigRepo(seed int64, n int, authors int) *Repo {
	rnd := rand.New(rand.NewSource(seed))
	r := &Repo{Branches: map[string]int{}, Tags: map[string]int{}, ATags: map[string]int{}, Head: "main"}
	var ids []Ident
	for i := 0; i < authors; i++ {
		ids = append(ids, Ident{fmt.Sprintf("Author %c%d", 'A'+i%26, i), fmt.Sprintf("a%d@example.com", i%(authors-authors/4))})
	}
	at, ct := int64(1300000000), int64(1500000000)
	shared := map[string]File{}
	sizes := map[string]int{}
	for i := 0; i < n; i++ {
		c := &Commit{}
		if i > 0 {
			c.Parents = []int{i - 1}
			if i > 3 && rnd.Intn(12) == 0 {
				c.Parents = append(c.Parents, i-2-rnd.Intn(2))
			}
		}
		// The tree is kept as what changed against the first parent.
		c.Tree = map[string]File{}
		if i > 0 {
			c.Tree = r.Commits[i-1].Tree
		}
		if !c.IsMerge() && rnd.Intn(15) > 0 {
			t := make(map[string]File, len(c.Tree)+1)
			for k, v := range c.Tree {
				t[k] = v
			}
			for j := 1 + rnd.Intn(2); j > 0; j-- {
				p := fmt.Sprintf("%s/f%d.txt", []string{"src", "docs", "src/lib", "a b", "t"}[rnd.Intn(5)], rnd.Intn(6))
				switch {
				case rnd.Intn(25) == 0 && len(t) > 3:
					delete(t, p)
				case rnd.Intn(25) == 0 && len(t) > 0:
					ks := sortedKeys(t)
					k := ks[rnd.Intn(len(ks))]
					f := t[k]
					delete(t, k)
					t[fmt.Sprintf("moved/m%d.txt", rnd.Intn(8))] = f
				default:
					sizes[p]++
					t[p] = File{"100644", strings.Repeat(fmt.Sprintf("l%d\n", i), 1+rnd.Intn(3)) + strings.Repeat("common\n", rnd.Intn(5))}
				}
			}
			c.Tree = t
		}
		c.Author = ids[min(rnd.Intn(len(ids)), rnd.Intn(len(ids)))]
		at += int64(rnd.Intn(100000))
		ct += int64(rnd.Intn(3)) * 1000
		c.ATime, c.CTime, c.ATZ = at, ct, "+0000"
		if rnd.Intn(400) == 0 {
			c.ATime = futureTime + 5
		}
		if rnd.Intn(400) == 0 {
			c.Author = Ident{}
		}
		r.Commits = append(r.Commits, c)
	}
	_ = shared
	r.Branches["main"] = n - 1
	r.NoMailmap()
	return r
}

func (g G) seed() int64 {
	s := int64(0)
	for i := 0; i < 16; i++ {
		s <<= 1
		if rapid.Bool().Draw(g.t, "seed") {
			s |= 1
		}
	}
	return s
}

var procChoices = []int{1, 2, 3, 8}

func c09(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	var n int
	switch g.uni("size", 10) {
	case 0, 1, 2:
		n = 1 + g.uni("n", 40)
	case 3, 4:
		n = 1020 + g.uni("n", 10)
	case 5, 6:
		n = 2044 + g.uni("n", 10)
	case 7:
		n = 500 + g.uni("n", 2000)
	case 8:
		n = 3070 + g.uni("n", 6)
	default:
		n = 3000 + g.uni("n", 2500)
	}
	r := BigRepo(g.seed(), n, 3+g.uni("authors", 20))
	w.Install(r)
	w.big(n)
	s := r.SelHead()
	s.Email = g.pct("email", 25)
	if g.pct("merges", 20) {
		s.Merges = true
	}
	if g.pct("part", 35) {
		// choose how many commits come before: the batches end elsewhere
		k := g.uni("k", n)
		s.Revs, s.Sep = []string{r.Commits[k].Hash}, true
		s.Set = r.ancestors(k)
	} else if g.pct("since", 20) {
		s.Since = r.Commits[g.uni("k", n)].CTime
	}
	if g.pct("paths", 25) {
		s.Paths = pick(g, "paths", [][]PathArg{
			{{Arg: "src", Path: "src"}}, {{Arg: "*.txt", Suffix: ".txt"}}, {{Arg: "docs/f1.txt", Path: "docs/f1.txt"}}, {{Arg: ":!src", Path: "src", Exclude: true}},
		})
		s.Prepare(w, r)
	}
	if g.pct("ignore", 15) {
		ig := map[string]bool{}
		var b strings.Builder
		step := 1 + g.uni("step", 300)
		for i := 0; i < n; i += step {
			ig[r.Commits[i].Hash] = true
			b.WriteString(r.Commits[i].Hash + "\n")
		}
		w.WriteFile(filepath.Join(w.Dir, ".git-blame-ignore-revs"), []byte(b.String()))
		s.Ignore = ig
	}
	v := g.View("ccctrrh")
	if g.pct("diff", 60) {
		v.Mode = pick(g, "diffmode", []Mode{ByLines, ByFiles})
	}
	for i := 0; i < 3; i++ {
		o := RunOpts{Procs: pick(g, "procs", procChoices), NoCache: g.pct("nocache", 40)}
		if i == 1 && g.pct("switch", 50) {
			v = g.View("ccrh")
			v.Mode = pick(g, "diffmode", []Mode{ByLines, ByFiles})
		}
		res := w.Ask(r, s, v, o)
		sel := len(r.Selected(s))
		classIf(o.Procs == 1, "one processor")
		classIf(sel > 1024, "more than one batch")
		classIf(sel > 2048, "more than two batches")
		classIf(sel >= 1023 && sel <= 1025, "at a batch boundary")
		w.mark(sel > 1, "%d commits, %d selected: %s GOMAXPROCS=%d", n, sel, cmdline(res), o.Procs)
	}
}

func (w *World) big(n int) {
	switch {
	case n >= 1020 && n < 1030 || n >= 2044 && n < 2054 || n >= 3070 && n < 3076:
		class("history length near a multiple of 1024")
	case n > 1024:
		class("long history")
	default:
		class("short history")
	}
}

// ---------------------------------------------------------------- histories of changes

// Evolve changes the repository: new commits, amends, resets, branch switches.
func (w *World) Evolve(g G, r *Repo, o GenOpts) {
	switch g.uni("evolve", 6) {
	case 0, 1, 2: // new commits on HEAD
		class("new commits")
		for i, k := 0, 1+g.uni("new", 3); i < k; i++ {
			w.commitOn(g, r, r.HeadCommit(), o)
		}
	case 3: // amend
		class("amended")
		h := r.HeadCommit()
		old := r.Commits[h]
		c := *old
		c.Hash, c.Diffs = "", nil
		if g.pct("who", 50) {
			c.Author = g.ident(o)
		} else {
			c.ATime += 3600
		}
		c.CTime += 500
		if g.pct("content", 60) {
			c.Tree = cloneTree(c.Tree)
			put(c.Tree, pick(g, "path", plainPaths), g.content(fmt.Sprintf("amend%d", len(r.Commits)), o))
		}
		r.Commits = append(r.Commits, &c)
		r.Branches[r.Head] = len(r.Commits) - 1
	case 4: // reset
		class("reset")
		r.Branches[r.Head] = g.uni("to", len(r.Commits))
	case 5: // switch branch
		class("switched branch")
		r.Head = pick(g, "branch", sortedKeys(r.Branches))
	}
	w.Git(w.Dir, nil, "symbolic-ref", "HEAD", "refs/heads/"+r.Head)
	w.step(fmt.Sprintf("git -C %s symbolic-ref HEAD refs/heads/%s", w.q(w.Dir), r.Head))
	w.Import(r, true)
	mapped := r.Mailmap
	r.NoMailmap()
	if mapped {
		w.ApplyMailmap(r)
	}
}

// Override makes git see other parents, authors or contents for some commits
// than those recorded: the boundary of a shallow clone, grafts, replaced objects.
// It returns a function that takes all of it back.
func (w *World) Override(g G, r *Repo) func() {
	n := map[string]int{}
	for _, c := range r.Commits {
		n[c.Hash]++
	}
	var free []int
	for i, c := range r.Commits {
		if n[c.Hash] == 1 {
			free = append(free, i)
		}
	}
	saved := map[int]Commit{}
	var files, refs []string
	relearn := func() { w.relearn(r) }
	take := func() int {
		i := pick(g, "override", free)
		for tries := 0; tries < 3 && len(r.Commits[i].Parents) == 0; tries++ {
			i = pick(g, "override", free)
		}
		if _, ok := saved[i]; ok {
			return -1
		}
		saved[i] = *r.Commits[i]
		return i
	}
	var shallow, grafts string
	for j, k := 0, 1+g.uni("overrides", 2); j < k && len(free) > 0; j++ {
		i := take()
		if i < 0 {
			continue
		}
		c := r.Commits[i]
		switch g.uni("kind", 4) {
		case 0, 1:
			class("shallow")
			c.Parents = nil
			shallow += c.Hash + "\n"
		case 2:
			class("grafted")
			grafts += c.Hash
			c.Parents = c.Parents[:g.uni("parents", len(c.Parents)+1)]
			for _, p := range c.Parents {
				grafts += " " + r.Commits[p].Hash
			}
			grafts += "\n"
		case 3:
			class("replaced")
			old := string(w.Git(w.Dir, nil, "cat-file", "commit", c.Hash))
			head, rest, _ := strings.Cut(old, "\nauthor ")
			author, rest, _ := strings.Cut(rest, "\n")
			if g.pct("drop", 50) {
				head, _, _ = strings.Cut(head, "\n") // no parents
				c.Parents = nil
			}
			if !c.Latin1 && g.pct("author", 60) {
				c.Author = r.Commits[g.uni("whose", len(r.Commits))].Author
				name := c.Author.Name
				if name != "" {
					name += " "
				}
				author = fmt.Sprintf("%s<%s> %d %s", name, c.Author.Email, c.ATime, c.ATZ)
			}
			if h := r.Branches[r.Head]; r.Commits[h].Hash != c.Hash && g.pct("content", 40) {
				other := r.Commits[g.uni("tree", i+1)]
				c.Tree = other.Tree
				_, parents, has := strings.Cut(head, "\n")
				head = "tree " + strings.TrimSpace(string(w.Git(w.Dir, nil, "-c", "core.useReplaceRefs=false", "rev-parse", other.Hash+"^{tree}")))
				if has {
					head += "\n" + parents
				}
			}
			obj := head + "\nauthor " + author + "\n" + rest
			if obj == old {
				continue
			}
			id := strings.TrimSpace(string(w.Git(w.Dir, []byte(obj), "hash-object", "--literally", "-t", "commit", "-w", "--stdin")))
			w.step(fmt.Sprintf("base64 -d <<'E' | gunzip | git -C %s hash-object --literally -t commit -w --stdin\n%s\nE", w.q(w.Dir), b64gz([]byte(obj))))
			refs = append(refs, "refs/replace/"+c.Hash)
			if r.replaced == nil {
				r.replaced = map[int]Commit{}
			}
			r.replaced[i] = saved[i]
			w.sh("git -C %s update-ref refs/replace/%s %s", w.q(w.Dir), c.Hash, id)
		}
	}
	for name, data := range map[string]string{"shallow": shallow, "info/grafts": grafts} {
		if data != "" {
			f := filepath.Join(w.gitDir(), name)
			w.WriteFile(f, []byte(data))
			files = append(files, f)
		}
	}
	relearn()
	return func() {
		for _, f := range files {
			w.Remove(f)
		}
		for _, f := range refs {
			w.sh("git -C %s update-ref -d %s", w.q(w.Dir), f)
		}
		r.replaced = nil
		for i, c := range saved {
			hash := r.Commits[i].Hash
			*r.Commits[i] = c
			r.Commits[i].Hash = hash
		}
		relearn()
	}
}

// Unreplace makes git see objects as they were before they were replaced.
func (w *World) Unreplace(g G, r *Repo) func() {
	now := map[int]Commit{}
	for i, c := range r.replaced {
		now[i] = *r.Commits[i]
		hash := r.Commits[i].Hash
		*r.Commits[i] = c
		r.Commits[i].Hash = hash
	}
	over := w.over
	config := g.pct("config", 50)
	if config {
		class("replacements switched off by configuration")
		w.sh("git -C %s config core.useReplaceRefs %s", w.q(w.Dir), pick(g, "no", []string{"false", "no", "0"}))
	} else {
		class("replacements switched off by environment")
		w.over = append(slices.Clone(over), pick(g, "env", []string{"GIT_NO_REPLACE_OBJECTS=1", "GIT_NO_REPLACE_OBJECTS=", "GIT_REPLACE_REF_BASE=refs/other/"}))
	}
	w.relearn(r)
	return func() {
		if config {
			w.sh("git -C %s config --unset core.useReplaceRefs", w.q(w.Dir))
		}
		w.over = over
		for i, c := range now {
			*r.Commits[i] = c
		}
		w.relearn(r)
	}
}

// AttrTree makes git take attributes from a tree in place of the work tree.
func (w *World) AttrTree(g G, r *Repo) func() {
	tree := w.attrTree(pick(g, "tree", []string{"* -diff\n", "*.go -diff\n*.txt binary\n", "", "*.md -diff\n", "* diff\n"}))
	over := w.over
	var undo []string
	name := tree
	if g.pct("tag", 60) {
		name = "refs/tags/attributes"
		w.sh("git -C %s update-ref %s %s", w.q(w.Dir), name, tree)
		undo = append(undo, "git -C %s update-ref -d "+name)
	}
	if g.pct("config", 50) {
		class("tree of attributes by configuration")
		w.sh("git -C %s config attr.tree %s", w.q(w.Dir), name)
		undo = append(undo, "git -C %s config --unset attr.tree")
	} else {
		class("tree of attributes by environment")
		w.over = append(slices.Clone(over), "GIT_ATTR_SOURCE="+name)
	}
	w.relearn(r)
	return func() {
		w.over = over
		for _, l := range undo {
			w.sh(l, w.q(w.Dir))
		}
		w.relearn(r)
	}
}

// attrTree is a tree with nothing but attributes.
func (w *World) attrTree(text string) string {
	blob := strings.TrimSpace(string(w.Git(w.Dir, []byte(text), "hash-object", "-w", "--stdin")))
	tree := strings.TrimSpace(string(w.Git(w.Dir, []byte("100644 blob "+blob+"\t.gitattributes\n"), "mktree")))
	w.step(fmt.Sprintf("printf %%b %s | git -C %s hash-object -w --stdin; printf '100644 blob %s\t.gitattributes\n' | git -C %s mktree", w.q(strings.ReplaceAll(text, "\n", `\n`)), w.q(w.Dir), blob, w.q(w.Dir)))
	return tree
}

func (w *World) relearn(r *Repo) {
	r.anc = nil
	w.learnDiffs(r)
	mapped := r.Mailmap
	r.NoMailmap()
	if mapped {
		w.ApplyMailmap(r)
	}
	w.noteRepo(r)
}

// Attributes changes what git reports as the diffs of commits, by attributes or
// configuration. It returns a function that takes all of it back.
func (w *World) Attributes(g G, r *Repo) func() {
	return w.attributes(g, r, 1+g.uni("settings", 2), false)
}

// attributes makes k changes, with strong such as are likely to matter.
func (w *World) attributes(g G, r *Repo, k int, strong bool) func() {
	var undo []func()
	for j := 0; j < k; j++ {
		if g.pct("configuration", 35) {
			kv := pick(g, "diffconfig", [][3]string{
				{"diff.renames", "false", "--no-renames"}, {"diff.renames", "copies", "-C"}, {"diff.renames", "true", "-M"},
				{"diff.algorithm", "patience", "--diff-algorithm=patience"}, {"diff.algorithm", "histogram", "--diff-algorithm=histogram"},
				{"diff.algorithm", "minimal", "--diff-algorithm=minimal"}, {"core.bigFileThreshold", "12", ""}, {"core.bigFileThreshold", "1", ""},
				{"diff.renameLimit", "1", ""},
			})
			file := filepath.Join(w.gitDir(), "config")
			if strong && exec.Command("git", "-C", w.Dir, "config", "-f", filepath.Join(w.Home, ".gitconfig"), "--includes", "--get", kv[0]).Run() == nil {
				continue
			}
			if strong && exec.Command("git", "-C", w.Dir, "config", "--local", "--includes", "--get", kv[0]).Run() == nil {
				continue
			}
			if strong && g.pct("other file", 40) {
				file = filepath.Join(w.Home, ".gitconfig")
				if g.pct("included", 50) {
					inc := filepath.Join(w.gitDir(), "more config")
					w.sh("git config -f %s --replace-all include.path %s", w.q(file), w.q(inc))
					file = inc
					class("setting in an included file")
				} else {
					class("setting of the user")
				}
			}
			class("setting " + kv[0])
			detect, more := r.detect, r.moreDiff
			if kv[0] == "diff.renames" {
				r.detect = kv[2]
			} else if kv[2] != "" {
				r.moreDiff = append(r.moreDiff[:len(r.moreDiff):len(r.moreDiff)], kv[2])
			}
			w.sh("git config -f %s --add %s %s", w.q(file), kv[0], kv[1])
			undo = append(undo, func() {
				w.sh("git config -f %s --unset-all %s || true", w.q(file), kv[0])
				r.detect, r.moreDiff = detect, more
			})
			continue
		}
		var b strings.Builder
		paths := append(r.AllPaths(), "none")
		for i, n := 0, 1+g.uni("lines", 3); i < n; i++ {
			what := pick(g, "what", []string{"*", "*.md", "*.go", "*.txt", "*.c", "PATH", "PATH", "PATH"})
			if p := pick(g, "path", paths); what == "PATH" {
				what = filepath.Base(p)
				if strings.ContainsAny(what, " \t\"\\*?[]!#") || !printable(what) {
					what = "*.md"
				}
			}
			attr := pick(g, "attribute", []string{"-diff", "binary", "diff", "-diff", "diff=drv", "!diff"})
			if strong && i == 0 && g.pct("strong", 70) {
				what, attr = "*", pick(g, "strong", []string{"-diff", "binary"})
			}
			fmt.Fprintf(&b, "%s %s\n", what, attr)
		}
		f := ""
		where := g.uni("where", 6)
		if strong && where == 1 {
			where = 5
		}
		switch where {
		case 0, 1:
			f = filepath.Join(w.Dir, ".gitattributes")
			class("attributes in the root")
		case 2:
			f = filepath.Join(w.gitDir(), "info", "attributes")
			class("attributes in the git directory")
		case 3:
			f = filepath.Join(w.configHome(), "git", "attributes")
			class("attributes of the user")
		case 4:
			f = filepath.Join(w.Home, "myattributes")
			class("attributes of the user, configured")
			value := w.q(f)
			switch g.uni("value", 4) {
			case 0: // relative to the root of the work tree, wherever git runs
				f, value = filepath.Join(w.Dir, "attributes file"), "'attributes file'"
				class("attributes of the user, relative")
			case 1:
				value = "'~/myattributes'"
			}
			w.sh("git -C %s config core.attributesFile %s", w.q(w.Dir), value)
			undo = append(undo, func() { w.sh("git -C %s config --unset-all core.attributesFile || true", w.q(w.Dir)) })
		case 5:
			dirs := r.worktreeDirs()
			if len(dirs) == 0 {
				continue
			}
			f = filepath.Join(w.Dir, pick(g, "dir", dirs), ".gitattributes")
			class("attributes in a directory")
		}
		if g.pct("driver", 30) {
			w.sh("git -C %s config diff.drv.binary %s", w.q(w.Dir), pick(g, "binary", []string{"true", "false"}))
			undo = append(undo, func() { w.sh("git -C %s config --unset-all diff.drv.binary || true", w.q(w.Dir)) })
		}
		if _, err := os.Lstat(f); err == nil {
			continue
		}
		w.WriteFile(f, []byte(b.String()))
		tracked := strings.HasPrefix(f, w.Dir+"/") && strings.HasSuffix(f, "/.gitattributes") && (filepath.Dir(f) != w.Dir || g.pct("tracked", 50))
		if tracked {
			w.sh("git -C %s update-index --add -- %s", w.q(w.Dir), w.q(f[len(w.Dir)+1:]))
		}
		undo = append(undo, func() {
			if tracked {
				w.sh("git -C %s update-index --force-remove -- %s", w.q(w.Dir), w.q(f[len(w.Dir)+1:]))
			}
			w.Remove(f)
		})
	}
	w.relearn(r)
	return func() {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
		w.relearn(r)
	}
}

// gitDir is the directory with what all worktrees have in common.
func (w *World) gitDir() string {
	if w.common != "" {
		return w.common
	}
	return filepath.Join(w.Dir, ".git")
}

// configHome is where git looks for the files of the user.
func (w *World) configHome() string {
	for _, e := range w.over {
		if d, ok := strings.CutPrefix(e, "XDG_CONFIG_HOME="); ok && d != "" {
			return d
		}
	}
	return filepath.Join(w.Home, ".config")
}

func printable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] <= ' ' || s[i] > '~' {
			return false
		}
	}
	return true
}

func cloneTree(t map[string]File) map[string]File {
	m := make(map[string]File, len(t)+1)
	for k, v := range t {
		m[k] = v
	}
	return m
}

func (w *World) commitOn(g G, r *Repo, parent int, o GenOpts) {
	p := r.Commits[parent]
	c := &Commit{Parents: []int{parent}, Tree: cloneTree(p.Tree), ATZ: "+0000"}
	c.Author = pick(g, "author", []Ident{p.Author, r.Commits[0].Author, g.ident(o)})
	c.ATime = min(p.ATime, 1700000000) + int64(g.uni("dt", 86400*20))
	c.CTime = p.CTime + int64(g.uni("ct", 3))*1000
	label := fmt.Sprintf("n%d", len(r.Commits))
	switch {
	case g.pct("empty", 10):
	case len(c.Tree) > 0 && g.pct("rename", 20):
		q := pick(g, "file", sortedKeys(c.Tree))
		f := c.Tree[q]
		delete(c.Tree, q)
		put(c.Tree, pick(g, "path", plainPaths), f)
	case len(c.Tree) > 0 && g.pct("edit", 60):
		q := pick(g, "file", sortedKeys(c.Tree))
		c.Tree[q] = g.edit(c.Tree[q], label, o)
	default:
		put(c.Tree, pick(g, "path", plainPaths), g.content(label, o))
	}
	r.Commits = append(r.Commits, c)
	r.Branches[r.Head] = len(r.Commits) - 1
}

// settled tells whether every commit git-who looks at can be cached.
func settled(r *Repo, s *Sel) bool {
	for i, c := range r.Commits {
		if s.Set[i] && (c.ATime >= soonTime || c.Mapped == Ident{}) {
			return false
		}
	}
	return true
}

func (w *World) cacheState() map[string]string {
	m := map[string]string{}
	for _, f := range w.cacheFiles() {
		b, err := os.ReadFile(f)
		must(err)
		m[f] = string(b)
	}
	return m
}

func c10(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	o := GenOpts{Min: 2, Max: 9, Weird: 10, Fancy: 15, Merge: 15, Empty: 8, NoDirFile: true, NoTabs: true}
	r := g.Repo(o)
	w.Install(r)
	r.classes()
	igFile := filepath.Join(w.Dir, ".git-blame-ignore-revs")
	var ig map[string]bool
	steps := 3 + g.uni("steps", 4)
	warm := false
	var restore, reset func()
	for i := 0; i < steps; i++ {
		evolve := i > 0 && g.pct("evolve", 55)
		if restore != nil && (evolve || g.pct("restore", 40)) {
			restore()
			restore = nil
			class("overrides taken back")
		}
		if reset != nil && (evolve || g.pct("reset", 40)) {
			reset()
			reset = nil
			class("attributes taken back")
		}
		if evolve {
			w.Evolve(g, r, o)
		}
		if restore == nil && g.pct("override", 20) {
			restore = w.Override(g, r)
		}
		if reset == nil && g.pct("attributes", 20) {
			reset = w.Attributes(g, r)
		}
		if g.pct("mailmap", 20) {
			class("mailmap changed")
			w.setMailmap(g, r)
		}
		if g.pct("ignore", 15) {
			class("ignore file changed")
			if ig != nil && g.pct("remove", 40) {
				w.Remove(igFile)
				ig = nil
			} else {
				var data string
				data, ig = g.IgnoreFile(r)
				w.WriteFile(igFile, []byte(data))
			}
		}
		s := r.SelHead()
		s.Ignore = ig
		s.Sep = true
		if g.pct("revs", 35) {
			s.Revs, s.Set = g.Revs(r)
		}
		if g.pct("cwd", 20) {
			if ds := r.worktreeDirs(); len(ds) > 0 {
				s.Prefix = pick(g, "prefix", ds)
			}
		}
		if g.pct("filters", 20) {
			g.Filters(r, s)
		}
		if g.pct("paths", 25) {
			s.Paths = g.Paths(r, s.Prefix, 1, 2)
		}
		s.Prepare(w, r)
		s.Email = g.pct("email", 25)
		s.Merges = g.pct("merges", 20)
		v := g.View("ccctrrh")
		if v.Kind == "table" && g.pct("diff", 85) || g.pct("diff", 50) {
			v.Mode = pick(g, "diffmode", []Mode{ByLines, ByFiles})
		}
		ro := RunOpts{Procs: pick(g, "procs", []int{2, 3, 8}), TZ: pick(g, "tz", []string{"UTC", "UTC", "America/New_York", "Asia/Kathmandu"})}
		if ro.TZ != "UTC" {
			class("other time zone")
		}
		cached := w.Ask(r, s, v, ro)
		plain := ro
		plain.NoCache = true
		un := w.Ask(r, s, v, plain)
		if cached.Out != un.Out && ageless(cached.Out) == ageless(un.Out) {
			class("age turned over between runs")
		} else if cached.Out != un.Out {
			w.Fail("output with and without cache differ\n%s\n%s", cached, un)
		}
		usesCache := v.Mode.Diff() || v.Kind == "tree"
		// Merges do not count: with paths, git rev-list can name one that git log
		// --no-walk then leaves out.
		n := 0
		for _, c := range r.Selected(s) {
			if !c.IsMerge() {
				n++
			}
		}
		w.mark(warm && n > 0, "%s, step %d: %s selects %d commits", summary(r), i, cmdline(cached), n)
		if usesCache && n > 0 {
			warm = true
			if settled(r, s) {
				// All of it is cached now: asking again must not add anything.
				before := w.cacheState()
				if len(w.lastingCacheFiles()) == 0 {
					w.Fail("nothing was cached\n%s", cached)
				}
				again := w.Ask(r, s, v, ro)
				if again.Out != cached.Out && ageless(again.Out) != ageless(cached.Out) {
					w.Fail("output changes when asked again\n%s\n%s", cached, again)
				}
				after := w.cacheState()
				for f, b := range after {
					if before[f] != b {
						w.Fail("commits already in the cache were cached again: %s grew from %d to %d bytes\n%s", f[len(w.Root):], len(before[f]), len(b), again)
					}
				}
				class("asked again")
			}
		}
	}
}

var agePattern = regexp.MustCompile(`(>99 yr\. ago|[0-9]+ (min\.|hour|hr\.|day|days|week|weeks|month|mon\.|year|yr\.) ago) *`)

// ageless blanks out ages, which may change from one second to the next.
func ageless(s string) string { return agePattern.ReplaceAllString(plain(s), "AGE") }

// ---------------------------------------------------------------- damaged caches

// Damage does something to the cache directory.
func (w *World) Damage(g G) string {
	files := w.cacheFiles()
	dir := filepath.Join(w.Cache, "git-who")
	if len(files) == 0 {
		w.WriteFile(filepath.Join(dir, "gob", "repo-deadbeef", "811c9dc5.gobs.gz"), []byte("garbage"))
		return "garbage in unused place"
	}
	f := pick(g, "file", files)
	old, err := os.ReadFile(f)
	must(err)
	switch g.uni("damage", 12) {
	case 0, 1:
		n := g.uni("len", len(old))
		w.WriteFile(f, old[:n])
		return "truncated"
	case 2, 3:
		b := bytes.Clone(old)
		if len(b) == 0 {
			return "nothing"
		}
		for i, k := 0, 1+g.uni("flips", 3); i < k; i++ {
			b[g.uni("pos", len(b))] ^= byte(1 << g.uni("bit", 8))
		}
		w.WriteFile(f, b)
		return "bits flipped"
	case 4:
		w.WriteFile(f, nil)
		return "emptied"
	case 5:
		w.WriteFile(f, []byte(strings.Repeat(pick(g, "junk", []string{"garbage", "\x00", "\xff", "\x1f\x8b\x08"}), 1+g.uni("n", 300))))
		return "replaced by garbage"
	case 6, 7: // valid compression of a truncated payload
		if raw, ok := gunzip(old); ok && len(raw) > 0 {
			n := g.uni("len", len(raw))
			if g.pct("next to nothing", 30) {
				n = min(n, 1+n%5)
			}
			w.WriteFile(f, gz(raw[:n]))
			return "truncated inside"
		}
		return "nothing"
	case 8:
		w.WriteFile(f, gz([]byte(strings.Repeat(pick(g, "junk", []string{"garbage", "\x00", "\xff\xff\xff\x7f"}), 1+g.uni("n", 40)))))
		return "garbage inside"
	case 9: // the same commits twice
		if raw, ok := gunzip(old); ok {
			w.WriteFile(f, gz(append(bytes.Clone(raw), raw...)))
			return "every commit twice"
		}
		return "nothing"
	case 10: // leftovers of a crashed or older version
		d := filepath.Dir(f)
		w.WriteFile(filepath.Join(d, strings.TrimSuffix(filepath.Base(f), ".gz")), old[:g.uni("len", len(old)+1)])
		if g.pct("more", 50) {
			w.WriteFile(filepath.Join(d, "0badcafe.gobs"), []byte("left over"))
			w.WriteFile(filepath.Join(d, "0badcafe.gobs.gz"), []byte("left over"))
		}
		if g.pct("tmp", 50) {
			w.WriteFile(f+".1234.tmp", []byte("left over"))
		}
		return "leftovers"
	default: // bytes appended
		w.WriteFile(f, append(bytes.Clone(old), pick(g, "tail", []string{"x", "\x00\x00\x00\x00", "\x1f\x8b"})...))
		return "bytes appended"
	}
}

func gunzip(b []byte) ([]byte, bool) {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	var out bytes.Buffer
	if _, err := out.ReadFrom(z); err != nil {
		return nil, false
	}
	return out.Bytes(), true
}

func gz(b []byte) []byte {
	var out bytes.Buffer
	z := gzip.NewWriter(&out)
	z.Write(b)
	z.Close()
	return out.Bytes()
}

// interrupt runs git-who and kills it, either at one of its git calls or after
// some time.
func (w *World) interrupt(g G, v View, s *Sel, o RunOpts) {
	args := v.Args(s)
	if g.pct("atcall", 60) {
		class("killed at a git call")
		calls := w.shimDry(o, args)
		if len(calls) == 0 {
			return
		}
		n := g.uni("call", len(calls))
		kind := pick(g, "when", []string{"killparent", "killparentafter"})
		res := w.shimRun(o, args, n, kind, 0)
		_ = res
		w.settle()
		return
	}
	class("killed after some time")
	us := g.uni("us", 25000)
	w.step(fmt.Sprintf("# killed after %d microseconds:", us))
	w.step(w.whoLine(o, args...))
	cmd := w.whoCmd(o, args...)
	must(cmd.Start())
	time.Sleep(time.Duration(us) * time.Microsecond)
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	_ = cmd.Wait()
}

// settle waits for git processes that outlived a killed git-who.
func (w *World) settle() { time.Sleep(2 * time.Millisecond) }

func c11(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	o := GenOpts{Min: 2, Max: 10, Weird: 10, Fancy: 15, Merge: 10, Empty: 8, NoNobody: g.pct("settled", 60), NoDirFile: true, NoTabs: true}
	var r *Repo
	if g.pct("big", 8) {
		class("several batches")
		r = BigRepo(g.seed(), 1030+g.uni("n", 1100), 5)
	} else {
		r = g.Repo(o)
	}
	w.Install(r)
	r.classes()
	draw := func() (View, *Sel, RunOpts) {
		s := r.SelHead()
		s.Sep = true
		if g.pct("revs", 25) {
			s.Revs, s.Set = g.Revs(r)
		}
		if g.pct("paths", 10) {
			s.Paths = g.Paths(r, "", 1, 1)
			s.Prepare(w, r)
		}
		s.Email = g.pct("email", 20)
		v := g.View("ccctrrh")
		if v.Kind == "table" && g.pct("diff", 90) || g.pct("diff", 50) {
			v.Mode = pick(g, "diffmode", []Mode{ByLines, ByFiles})
		}
		return v, s, RunOpts{Procs: pick(g, "procs", []int{2, 4, 8})}
	}
	if g.pct("warm", 90) {
		v, s, ro := draw()
		v.Mode = ByLines
		w.Ask(r, s, v, ro)
	}
	for i := 0; i < 3; i++ {
		what := "interrupted"
		if g.pct("interrupt", 35) {
			if g.pct("cold", 50) {
				w.Remove(filepath.Join(w.Cache, "git-who"))
			}
			v, s, ro := draw()
			w.interrupt(g, v, s, ro)
		} else {
			what = w.Damage(g)
			w.note("cache: %s", what)
		}
		class("cache " + what)
		v, s, ro := draw()
		w.noteCache()
		first := w.Ask(r, s, v, ro)
		// Whatever happened, the cache works again.
		again := w.Ask(r, s, v, ro)
		if first.Out != again.Out && ageless(first.Out) != ageless(again.Out) {
			w.Fail("answer after damage is not stable\n%s\n%s", first, again)
		}
		if (v.Mode.Diff() || v.Kind == "tree") && len(r.Selected(s)) > 0 {
			if settled(r, s) {
				before := w.cacheState()
				third := w.Ask(r, s, v, ro)
				after := w.cacheState()
				lasting := w.lastingCacheFiles()
				if len(lasting) == 0 {
					w.Fail("no cache is kept after damage (%s)\n%s", what, third)
				}
				for f, b := range after {
					if before[f] != b {
						w.Fail("the cache still changes at the third identical run after damage (%s): %s\n%s", what, f[len(w.Root):], third)
					}
				}
			}
			for _, f := range w.lastingCacheFiles() {
				if filepath.Base(filepath.Dir(f)) == "repo-deadbeef" {
					continue
				}
				b, err := os.ReadFile(f)
				must(err)
				if _, ok := gunzip(b); !ok {
					w.Fail("cache file %s is still damaged after two runs (%s)", f[len(w.Root):], what)
				}
			}
		}
		w.mark(what != "nothing", "%s: %s, then %s", summary(r), what, cmdline(first))
	}
}

// noteCache keeps a copy of the cache in the replay script.
func (w *World) noteCache() {
	for _, f := range w.cacheFiles() {
		b, err := os.ReadFile(f)
		must(err)
		if len(b) < 20000 {
			w.step(fmt.Sprintf("mkdir -p %s; base64 -d <<'E' | gunzip > %s\n%s\nE", w.q(filepath.Dir(f)), w.q(f), b64gz(b)))
		}
	}
}

// ---------------------------------------------------------------- faulty git

func (w *World) shimEnv(o RunOpts, call int, kind string, at int) (RunOpts, string) {
	w.nfile++
	d := filepath.Join(w.Root, "shim"+strconv.Itoa(w.nfile))
	must(os.MkdirAll(d, 0o755))
	o.Path = shimDir
	o.Env = append(slices.Clone(o.Env), "SHIM_DIR="+d, "SHIM_GIT="+gitBin, "SHIM_CALL="+strconv.Itoa(call), "SHIM_KIND="+kind, "SHIM_AT="+strconv.Itoa(at))
	return o, d
}

// shimDry lists the git calls a run makes, without failures.
func (w *World) shimDry(o RunOpts, args []string) []string {
	cacheCopy := w.snapCache()
	so, d := w.shimEnv(o, -1, "", 0)
	w.whoQuiet(so, args...)
	w.restoreCache(cacheCopy)
	var calls []string
	for i := 0; ; i++ {
		b, err := os.ReadFile(filepath.Join(d, strconv.Itoa(i)))
		if err != nil {
			break
		}
		calls = append(calls, strings.ReplaceAll(string(b), "\x00", " "))
	}
	must(os.RemoveAll(d))
	return calls
}

func (w *World) snapCache() map[string]string { return w.cacheState() }

func (w *World) restoreCache(m map[string]string) {
	must(os.RemoveAll(filepath.Join(w.Cache, "git-who")))
	for f, b := range m {
		must(os.MkdirAll(filepath.Dir(f), 0o700))
		must(os.WriteFile(f, []byte(b), 0o644))
	}
}

// shimRun runs with one failing git call; ok tells whether the failure happened.
func (w *World) shimRun(o RunOpts, args []string, call int, kind string, at int) (res Result) {
	so, d := w.shimEnv(o, call, kind, at)
	w.step("# git call number " + strconv.Itoa(call) + " fails (" + kind + ", " + strconv.Itoa(at) + "); " + w.q(shimDir) + " is built from /verif/harness/gitshim")
	w.step("mkdir -p " + w.q(d))
	w.note("run: %s", w.whoLine(so, args...))
	w.sig.WriteString(fmt.Sprint(args, call, kind, at))
	res = w.whoQuiet(so, args...)
	if _, err := os.Stat(filepath.Join(d, "fired")); err != nil {
		res.Quiet()
	}
	if b, err := os.ReadFile(filepath.Join(d, strconv.Itoa(call))); err == nil {
		res.Faulted = strings.ReplaceAll(string(b), "\x00", " ")
	}
	return res
}

func c12(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	var r *Repo
	if g.pct("big", 6) {
		class("several batches")
		r = BigRepo(g.seed(), 1030+g.uni("n", 2500), 5)
	} else {
		r = g.Repo(GenOpts{Min: 2, Max: 10, Weird: 15, Fancy: 20, Merge: 12, Empty: 8, NoDirFile: true, NoTabs: true})
	}
	w.Install(r)
	r.classes()
	if g.pct("mailmap", 20) {
		w.setMailmap(g, r)
	}
	for i := 0; i < 2; i++ {
		s := r.SelHead()
		s.Sep = true
		if g.pct("revs", 30) {
			s.Revs, s.Set = g.Revs(r)
		}
		if g.pct("filters", 10) {
			g.Filters(r, s)
		}
		if g.pct("paths", 25) {
			s.Paths = g.Paths(r, "", 1, 2)
			s.Prepare(w, r)
		}
		s.Email = g.pct("email", 20)
		s.Merges = g.pct("merges", 20)
		v := g.View("cttrrh")
		o := RunOpts{Procs: pick(g, "procs", []int{1, 2, 4, 8}), NoCache: g.pct("nocache", 30)}
		args := v.Args(s)
		dump := false
		if g.pct("parse", 8) {
			dump = true
			args = append([]string{pick(g, "cmd", []string{"parse", "dump"})}, s.Args()...)
			for j := 0; j < len(args); j++ {
				if args[j] == "--merges" || args[j] == "-e" {
					args = slices.Delete(args, j, j+1)
					j--
				}
			}
		}
		calls := w.shimDry(o, args)
		var can []int
		for j := range calls {
			can = append(can, j)
		}
		if len(can) == 0 {
			w.Fail("git-who %q calls no git", args)
		}
		for k := 0; k < 2; k++ {
			call := pick(g, "call", can)
			if g.pct("late", 50) {
				call = can[len(can)-1]
			}
			kind := pick(g, "kind", []string{"before", "silent", "after", "afterkill", "mid", "mid", "mid", "midkill", "kill", "noisy", "noisyfail"})
			at := 0
			if strings.HasPrefix(kind, "mid") {
				at = pick(g, "size", []int{1, 40, 200, 2000, 100000})
				at = g.uni("at", at)
			}
			so, code := o, 0
			if kind == "silent" || g.pct("code", 40) {
				code = pick(g, "exit", []int{1, 1, 2, 3, 126, 127, 128, 129, 130, 141, 143, 255})
				so.Env = append(slices.Clone(o.Env), "SHIM_EXIT="+strconv.Itoa(code))
			}
			if kind == "silent" || g.pct("quiet", 30) {
				so.Env = append(slices.Clone(so.Env), "SHIM_QUIET=1")
			}
			res := w.shimRun(so, args, call, kind, at)
			if res.unfired {
				class("fault did not happen")
				continue
			}
			st.Runs++
			class("fault " + kind)
			if strings.HasPrefix(res.Faulted, "config ") && code == 1 && kind != "noisy" && !strings.HasSuffix(kind, "kill") {
				// exit status 1 of git config means that nothing is configured
				class("configuration not set")
				continue
			}
			class("failing git " + strings.SplitN(res.Faulted, " ", 2)[0])
			what := fmt.Sprintf("failure of call %d (%s, %s %d, status %d)", call, res.Faulted, kind, at, code)
			if res.Hang != "" {
				w.Fail("git-who does not terminate after %s: %s\n%s", what, res.Hang, res)
			}
			if res.crashed() {
				w.Fail("git-who crashes after %s\n%s", what, res)
			}
			if kind == "noisy" {
				// Much on standard error, but no failure.
				if !dump {
					w.Check(res, r, s, v)
				}
				continue
			}
			if res.Code == 0 {
				w.Fail("git-who ignores %s\n%s", what, res)
			}
			if strings.TrimSpace(res.Err) == "" {
				w.Fail("no message on standard error after %s\n%s", what, res)
			}
			if !dump && strings.TrimSpace(plain(res.Out)) != "" && !progressOnly(res.Out) {
				w.Fail("a result is printed in spite of %s\n%s", what, res)
			}
			w.mark(true, "%s: %s with %s", summary(r), "git-who "+strings.Join(args, " "), what)
		}
		if !dump {
			// Nothing is left behind that falsifies later runs.
			w.noteCache()
			w.Ask(r, s, v, RunOpts{Procs: o.Procs})
			s2 := r.SelHead()
			w.Ask(r, s2, View{Kind: "table", CSV: true, Mode: ByLines}, RunOpts{})
		}
	}
}

// progressOnly: the progress display is not a result.
func progressOnly(out string) bool {
	return strings.Contains(out, "% (") && !strings.Contains(out, "┌") && !strings.Contains(out, "┤") && !strings.Contains(out, "....")
}

// ---------------------------------------------------------------- simultaneous runs

func c22(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	var r *Repo
	if g.pct("big", 12) {
		class("several batches")
		r = BigRepo(g.seed(), 1030+g.uni("n", 1500), 6)
	} else {
		r = g.Repo(GenOpts{Min: 3, Max: 14, Weird: 10, Fancy: 15, Merge: 10, Empty: 8, NoNobody: g.pct("settled", 70), NoDirFile: true, NoTabs: true})
	}
	w.Install(r)
	r.classes()
	state := g.uni("state", 4)
	switch state {
	case 0:
		class("starting with empty cache")
	case 1:
		class("starting with warm cache")
		w.Ask(r, r.SelHead(), View{Kind: "table", CSV: true, Mode: ByLines}, RunOpts{})
	case 2:
		class("starting with outdated cache")
		k := g.uni("k", len(r.Commits))
		s := r.SelHead()
		s.Revs, s.Set, s.Sep = []string{r.Commits[k].Hash}, r.ancestors(k), true
		w.Ask(r, s, View{Kind: "table", CSV: true, Mode: ByLines}, RunOpts{})
	case 3:
		class("starting with damaged cache")
		w.Ask(r, r.SelHead(), View{Kind: "table", CSV: true, Mode: ByLines}, RunOpts{})
		w.Damage(g)
	}
	type job struct {
		v     View
		s     *Sel
		o     RunOpts
		delay time.Duration
		res   Result
	}
	var jobs []*job
	n := 2 + g.uni("jobs", 5)
	for i := 0; i < n; i++ {
		s := r.SelHead()
		s.Sep = true
		if g.pct("revs", 40) {
			s.Revs, s.Set = g.Revs(r)
		}
		if g.pct("paths", 15) {
			s.Paths = g.Paths(r, "", 1, 1)
			s.Prepare(w, r)
		}
		v := g.View("ccrrh")
		if v.Kind != "tree" || g.pct("diff", 30) {
			v.Mode = pick(g, "mode", []Mode{ByLines, ByFiles})
		}
		jobs = append(jobs, &job{v: v, s: s, o: RunOpts{Procs: pick(g, "procs", []int{2, 4, 8})}, delay: time.Duration(g.uni("delay", 8)*g.uni("us", 1500)) * time.Microsecond})
	}
	w.noteCache()
	planted := map[string]string{}
	for _, f := range w.lastingCacheFiles() {
		b, err := os.ReadFile(f)
		must(err)
		planted[f] = string(b)
	}
	cacheUsed := false
	for _, j := range jobs {
		cacheUsed = cacheUsed || len(r.Selected(j.s)) > 0
	}
	w.step("# started at the same time (with the given delays):")
	for _, j := range jobs {
		w.step(fmt.Sprintf("{ sleep %f; %s; } &", j.delay.Seconds(), w.whoLine(j.o, j.v.Args(j.s)...)))
		w.sig.WriteString(w.whoLine(j.o, j.v.Args(j.s)...))
	}
	w.step("wait")
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(j.delay)
			j.res = w.whoQuiet(j.o, j.v.Args(j.s)...)
		}()
	}
	wg.Wait()
	st.Runs += len(jobs)
	for _, j := range jobs {
		class(j.v.String())
		w.Check(j.res, r, j.s, j.v)
	}
	// A usable cache is left: complete files, right answers, no growth.
	v := View{Kind: "table", CSV: true, Mode: ByLines}
	for _, f := range w.lastingCacheFiles() {
		b, err := os.ReadFile(f)
		must(err)
		if !cacheUsed && planted[f] == string(b) {
			continue // no run had any commits to look for
		}
		if _, ok := gunzip(b); !ok && !strings.Contains(f, "repo-deadbeef") {
			w.Fail("cache file %s is damaged after simultaneous runs", f[len(w.Root):])
		}
	}
	s := r.SelHead()
	w.Ask(r, s, v, RunOpts{})
	before := w.cacheState()
	w.Ask(r, s, v, RunOpts{})
	after := w.cacheState()
	if settled(r, s) {
		for f, b := range after {
			if before[f] != b && !strings.HasSuffix(f, ".tmp") {
				w.Fail("the cache still changes after simultaneous runs: %s", f[len(w.Root):])
			}
		}
		for f := range after {
			if strings.HasSuffix(f, ".tmp") && !strings.Contains(f, ".1234.") {
				w.Fail("temporary file %s is left behind", f[len(w.Root):])
			}
		}
		if len(w.lastingCacheFiles()) == 0 && len(r.Selected(s)) > 0 {
			w.Fail("no cache is left after simultaneous runs")
		}
	}
	w.mark(true, "%s: %d runs at once, cache state %d", summary(r), n, state)
}

func init() {
	reg("C09", "a case is a history expanded from a drawn seed (from 1 to 5,500 commits, often just around a multiple of 1024), asked with different GOMAXPROCS and cache states; every answer is compared with the reference model. Non-trivial: more than one commit is selected.", c09)
	reg("C10", "a case is a sequence of repository changes (commits, amends, resets, branch switches, mailmap and ignore file edits) and git-who runs; every run is made with and without the cache, both are compared with each other and with the reference model, and a repeated run must leave the cache file as it is. Non-trivial: the cache was filled by an earlier step and commits are selected.", c10)
	reg("C11", "a case damages the cache (truncation, bit flips, garbage, valid compression of truncated or doubled content, leftovers) or kills git-who at a git call or after a random time, then runs git-who three times: answers must equal the reference model, the cache must be kept and settle. Non-trivial: the cache was damaged or a run killed.", c11)
	reg("C12", "a case puts a shim for git on PATH that makes one drawn call fail (error before, during or after its output, with no, some or very much text on standard error, or death by SIGKILL), expects a non-zero exit with message and without result, then runs again without faults against the reference model. Non-trivial: the fault was injected; distinct by repository, command, call and kind.", c12)
	reg("C22", "a case starts 2 to 6 git-who processes at the same time (with drawn delays) on one repository and cache that is empty, warm, outdated or damaged; every answer must equal the reference model and the cache left behind must be complete and stable. Non-trivial: all cases; distinct by repository and commands.", c22)
}
