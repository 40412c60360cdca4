package harness

import (
	"fmt"
	"path"
	"regexp"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- primitives

// G draws structured values. Every random choice goes through rapid, so cases
// shrink and replay.
type G struct{ t *rapid.T }

// uni draws uniformly from [0, n).
func (g G) uni(label string, n int) int {
	if n <= 1 {
		return 0
	}
	bits := 0
	for 1<<bits < n {
		bits++
	}
	bits += 4
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if rapid.Bool().Draw(g.t, label) {
			v |= 1
		}
	}
	return v * n >> bits
}

func (g G) between(label string, lo, hi int) int { return lo + g.uni(label, hi-lo+1) }

// pct is true in about p of 100 draws and shrinks towards false.
func (g G) pct(label string, p int) bool {
	v := 0
	for i := 0; i < 7; i++ {
		v <<= 1
		if rapid.Bool().Draw(g.t, label) {
			v |= 1
		}
	}
	return v*100 >= (100-p)*128
}

func pick[T any](g G, label string, xs []T) T { return xs[g.uni(label, len(xs))] }

// subset draws k distinct elements in order of xs.
func subset[T any](g G, label string, xs []T, k int) []T {
	idx := map[int]bool{}
	for i := 0; i < k && len(idx) < len(xs); i++ {
		idx[g.uni(label, len(xs))] = true
	}
	var out []T
	for i, x := range xs {
		if idx[i] {
			out = append(out, x)
		}
	}
	return out
}

// ---------------------------------------------------------------- pools

var plainNames = []string{"Alice", "Bob", "Carol Danvers", "Dave", "Eve Adams", "alice", "Al", "Zoe"}
var fancyNames = []string{
	"Doe, John", `Jack "The Hat" O'Neil`, "Иван Петров", "田中太郎", "🙂 Smile", "José Núñez",
	"e\u0301le\u0301onore", "نور", "x", "Very Long Author Name That Does Not Fit In Any Column At All, Really",
	"山田山田山田山田山田山田山田山田山田山田山田山田山田", "a;b|c", "100%", "-l", "=cmd()", "back\\slash", "👩‍👩‍👧 family",
	"#comment", "tab\there", "trailing.", "$HOME `x`", "Mr. NULL", "Ａ全角", "ﬁ ligature", "0", "commit", "name",
}
var plainEmails = []string{"alice@example.com", "bob@example.com", "carol@corp.io", "d@x.org", "shared@team.dev", "ALICE@EXAMPLE.COM"}
var fancyEmails = []string{
	"", "no-at-sign", "comma,in@mail", `quote"d@mail`, "юзер@почта.рф", "a+b@x", "very.long.email.address.that.goes.on.and.on@some.subdomain.example.com",
	"space in@mail", "x@y;z", "'@'", "1234+bot[bot]@users.noreply.github.com",
}
var plainPaths = []string{
	"README.md", "main.go", "a.txt", "b.txt", "src/a.go", "src/b.go", "src/lib/x.c", "src/lib/y.c", "src/lib/deep/er/f.go",
	"docs/guide.md", "docs/api/index.md", "docs/api/v2/index.md", "test/a_test.go", "z/only/one/file.txt", "Makefile",
}
var weirdPaths = []string{
	"with space.txt", "tab\tname.txt", `quo"te.go`, "{a => b}.txt", "a => b", "dir/{x => y}/f.go", "-dash.txt", "-rf/x.go", "--", "é/ü.txt", "日本/語.md",
	"0123456789abcdef0123456789abcdef01234567", "d/89abcdef0123456789abcdef0123456789abcdef", "st*r.txt", "[x]y.md", "qu?stion.go",
	"back\\slash.txt", ":colon.txt", "!bang.md", "%H.txt", "%x00", "$(x).go", "#hash", "..dots.txt", "1\t2\tfake.txt", "-\t-\tbin",
	"sp .txt", " lead/ing", ".hidden", "a/b/c/d/e/f/g/h.txt", "'single'.go", "HEAD.txt", "HEAD", "main", "^--", "ﬁ.txt", "e\u0301.txt", "\xff\xfe.bin", "\x01ctl.txt",
	"refs/heads/x.go", "...", "~tilde", "a:b.txt", "\u2026.txt", "[z].txt", "{p,q}.go", "x[!a]/f.md", "src/[weird]/f.go", "CON", "fatal: error.txt", "commit deadbeef",
}

var branchNames = []string{"dev", "feature/login", "rel-1.0", "topic_x", "хвост", "v2", "a@b", "deadbeef"}
var tagNames = []string{"v1.0", "v1.1-rc", "release/2020", "t", "cafe"}

// ---------------------------------------------------------------- repository

type GenOpts struct {
	Min, Max    int  // number of commits
	Weird       int  // percent of weird paths
	Fancy       int  // percent of fancy names
	Merge       int  // percent of commits that merge
	Empty       int  // percent of commits that change nothing
	NoNobody    bool // no commits without author or in the future
	NoDirFile   bool // no path is a file at one time and a directory at another
	DirFile     bool // many such paths
	Idents      int  // at most this many authors
	NoTabs      bool // no zero width characters in names
	NoEmptyName bool
	NoSymlinks  bool
	TimeKind    int // 0 = drawn, else 1+kind
	Recent      int // percent of repositories that were changed up to now
	BigFiles    bool
	Linear      bool
}

func (g G) ident(o GenOpts) Ident {
	var id Ident
	if g.pct("fancy", o.Fancy) {
		id.Name = pick(g, "name", fancyNames)
	} else {
		id.Name = pick(g, "name", plainNames)
	}
	if g.pct("fancy", o.Fancy/2) {
		id.Email = pick(g, "email", fancyEmails)
	} else {
		id.Email = pick(g, "email", plainEmails)
	}
	if o.NoTabs && strings.ContainsAny(id.Name, "\t") {
		id.Name = "no tab"
	}
	return id
}

func (g G) lines(label string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "%s line %d\n", label, i)
	}
	return b.String()
}

// conflict tells whether p cannot be in a tree together with q.
func conflict(p, q string) bool {
	return strings.HasPrefix(p, q+"/") || strings.HasPrefix(q, p+"/")
}

func put(tree map[string]File, p string, f File) {
	for q := range tree {
		if conflict(p, q) {
			delete(tree, q)
		}
	}
	tree[p] = f
}

type pathGen struct {
	g    G
	o    GenOpts
	used map[string]bool // every path ever used
}

func (pg *pathGen) fresh() string {
	for try := 0; ; try++ {
		var p string
		if pg.g.pct("weird", pg.o.Weird) {
			p = pick(pg.g, "path", weirdPaths)
			if pg.g.pct("sub", 20) {
				p = pick(pg.g, "dir", []string{"src/", "docs/", "sp ace/", "-d/", "[g]/"}) + p
			}
		} else {
			p = pick(pg.g, "path", plainPaths)
			dirfile := 4
			if pg.o.DirFile {
				dirfile = 25
			}
			if pg.g.pct("dirfile", dirfile) {
				p = path.Dir(p)
				if p == "." {
					p = "dir"
				}
			}
		}
		if pg.o.NoDirFile && try < 5 {
			bad := false
			for q := range pg.used {
				if conflict(p, q) {
					bad = true
				}
			}
			if bad {
				continue
			}
		} else if pg.o.NoDirFile {
			p = fmt.Sprintf("n%d.txt", len(pg.used))
		}
		pg.used[p] = true
		return p
	}
}

func (g G) content(label string, o GenOpts) File {
	switch {
	case g.pct("binary", 6):
		return File{"100644", "\x00\x01bin" + label}
	case g.pct("link", 4) && !o.NoSymlinks:
		return File{"120000", "target-" + label}
	case g.pct("exec", 6):
		return File{"100755", g.lines(label, g.uni("n", 8))}
	case g.pct("gitlink", 2) && !o.NoSymlinks:
		return File{"160000", hexHash(label)[:40]}
	case o.BigFiles && g.pct("big", 25):
		return File{"100644", strings.Repeat(label+"\n", pick(g, "n", []int{998, 999, 1000, 1001, 1234, 9999, 10000, 123456}))}
	case g.pct("nonl", 8):
		return File{"100644", g.lines(label, g.uni("n", 6)) + "no newline"}
	}
	return File{"100644", g.lines(label, g.uni("n", 12))}
}

func (g G) edit(f File, label string, o GenOpts) File {
	if f.Mode == "120000" || f.Mode == "160000" || strings.Contains(f.Data, "\x00") {
		return g.content(label, o)
	}
	ls := strings.SplitAfter(f.Data, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	switch g.uni("edit", 6) {
	case 0: // prepend
		f.Data = g.lines(label, 1+g.uni("n", 4)) + f.Data
	case 1: // append
		if len(ls) > 0 && !strings.HasSuffix(f.Data, "\n") {
			f.Data += "\n"
		}
		f.Data += g.lines(label, 1+g.uni("n", 4))
	case 2: // remove some
		k := g.uni("at", len(ls)+1)
		f.Data = strings.Join(ls[k:], "")
	case 3: // replace one
		if len(ls) > 0 {
			ls[g.uni("at", len(ls))] = label + "\n"
		}
		f.Data = strings.Join(ls, "")
	case 4: // mode only
		if f.Mode == "100644" {
			f.Mode = "100755"
		} else {
			f.Mode = "100644"
		}
	case 5:
		return g.content(label, o)
	}
	return f
}

// Repo draws a repository.
func (g G) Repo(o GenOpts) *Repo {
	if o.Idents == 0 {
		o.Idents = 5
	}
	n := g.between("commits", o.Min, o.Max)
	r := &Repo{Branches: map[string]int{}, Tags: map[string]int{}, ATags: map[string]int{}, Head: "main"}
	// authors
	var ids []Ident
	for i, k := 0, 1+g.uni("idents", o.Idents); i < k; i++ {
		ids = append(ids, g.ident(o))
	}
	if len(ids) > 1 && g.pct("share", 40) { // same name, other address, or the reverse
		if g.pct("which", 50) {
			ids[len(ids)-1].Name = ids[0].Name
		} else {
			ids[len(ids)-1].Email = ids[0].Email
		}
	}
	if !o.NoEmptyName && g.pct("noname", 6) {
		ids[len(ids)-1].Name = ""
		if ids[len(ids)-1].Email == "" {
			ids[len(ids)-1].Email = "nameless@x"
		}
	}
	// times
	kind := o.TimeKind - 1
	if kind < 0 {
		kind = g.uni("timekind", 7)
	}
	recent := g.pct("recent", o.Recent)
	base := int64(1104537600) + int64(g.uni("base", 18*365))*86400 + int64(g.uni("sec", 86400))
	at := base
	ct := int64(1500000000)
	pg := &pathGen{g: g, o: o, used: map[string]bool{}}
	for i := 0; i < n; i++ {
		c := &Commit{}
		// parents
		switch {
		case i == 0:
		case o.Linear:
			c.Parents = []int{i - 1}
		case i >= 2 && g.pct("merge", o.Merge):
			k := 2
			if g.pct("octopus", 10) {
				k = 3 + g.uni("k", 2)
			}
			seen := map[int]bool{}
			for j := 0; j < k; j++ {
				p := i - 1 - g.uni("parent", min(i, 5))
				if j == 0 && g.pct("tip", 60) {
					p = i - 1
				}
				if !seen[p] {
					seen[p] = true
					c.Parents = append(c.Parents, p)
				}
			}
		case g.pct("fork", 25):
			c.Parents = []int{g.uni("parent", i)}
		case g.pct("root", 3):
		default:
			c.Parents = []int{i - 1}
		}
		// tree
		c.Tree = map[string]File{}
		if len(c.Parents) > 0 {
			for p, f := range r.Commits[c.Parents[0]].Tree {
				c.Tree[p] = f
			}
		}
		for _, p := range c.Parents[min(1, len(c.Parents)):] {
			for _, q := range sortedKeys(r.Commits[p].Tree) {
				ok := true
				for x := range c.Tree {
					ok = ok && x != q && !conflict(x, q)
				}
				if ok {
					c.Tree[q] = r.Commits[p].Tree[q]
				}
			}
		}
		ops := 0
		switch {
		case c.IsMerge():
			if g.pct("evil", 30) {
				ops = 1
			}
		case !g.pct("empty", o.Empty):
			ops = 1 + g.uni("ops", 3)
		}
		for j := 0; j < ops; j++ {
			label := fmt.Sprintf("c%d.%d", i, j)
			have := sortedKeys(c.Tree)
			op := g.uni("op", 10)
			switch {
			case len(have) == 0 || op < 3:
				put(c.Tree, pg.fresh(), g.content(label, o))
			case op < 7:
				p := pick(g, "file", have)
				c.Tree[p] = g.edit(c.Tree[p], label, o)
			case op < 8:
				delete(c.Tree, pick(g, "file", have))
			default: // rename
				p := pick(g, "file", have)
				f := c.Tree[p]
				delete(c.Tree, p)
				if g.pct("edit", 40) {
					f = g.edit(f, label, o)
				}
				put(c.Tree, pg.fresh(), f)
			}
		}
		// who and when
		c.Author = pick(g, "author", ids)
		switch kind {
		case 0:
			at += int64(g.uni("dt", 7200))
		case 1:
			at += int64(g.uni("dt", 5*86400))
		case 2:
			at += int64(g.uni("dt", 90*86400))
		case 3:
			at = base + int64(g.uni("dt", 6*365))*86400 + int64(g.uni("s", 86400))
		case 4: // all the same
		case 5:
			at += int64(g.uni("dt", 3)) * 86400
		case 6:
			at += int64(g.uni("dt", 40))
		}
		at = min(at, 1735689600)
		c.ATime = at
		if recent {
			c.ATime = startTime - int64(g.uni("days", 40))*86400 - int64(g.uni("s", 86400))
		}
		if g.pct("ancient", 1) {
			c.ATime = int64(g.uni("s", 2)) * int64(g.uni("s", 100000))
		}
		if !o.NoNobody {
			if g.pct("future", 3) {
				c.ATime = futureTime + int64(g.uni("s", 1000))
				if g.pct("soon", 50) {
					c.ATime = soonTime + int64(g.uni("s", pick(g, "within", []int{60, 86400})))
				}
			}
			if g.pct("nobody", 3) {
				c.Author = Ident{}
			}
		}
		c.ATZ = pick(g, "tz", []string{"+0000", "+0200", "-0800", "+0530", "+1400", "-1200"})
		ct += int64(g.uni("ct", 4)) * 1000
		c.CTime = ct
		r.Commits = append(r.Commits, c)
	}
	if n > 0 {
		h := n - 1
		if !o.Linear && g.pct("head", 20) {
			h = n - 1 - g.uni("head", min(n, 3))
		}
		r.Branches["main"] = h
		for i, k := 0, g.uni("branches", 4); i < k; i++ {
			r.Branches[pick(g, "branch", branchNames)] = g.uni("at", n)
		}
		for i, k := 0, g.uni("tags", 3); i < k; i++ {
			name := pick(g, "tag", tagNames)
			delete(r.Tags, name)
			delete(r.ATags, name)
			if g.pct("annotated", 50) {
				r.ATags[name] = g.uni("at", n)
			} else {
				r.Tags[name] = g.uni("at", n)
			}
		}
	}
	r.NoMailmap()
	return r
}

// AllPaths lists every path that any reachable commit has or changed.
func (r *Repo) AllPaths() []string {
	m := map[string]bool{}
	for _, c := range r.Commits {
		for p := range c.Tree {
			m[p] = true
		}
	}
	return sortedKeys(m)
}

func (r *Repo) AllDirs() []string {
	m := map[string]bool{}
	for _, p := range r.AllPaths() {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			m[d] = true
		}
	}
	return sortedKeys(m)
}

// onceFiles lists the directories that were a file in some commit.
func (r *Repo) onceFiles(dirs []string) (out []string) {
	for _, d := range dirs {
		for _, c := range r.Commits {
			if _, ok := c.Tree[d]; ok {
				out = append(out, d)
				break
			}
		}
	}
	return out
}

func (r *Repo) classes() {
	merges, renames, empty, future, nobody, bin, roots := 0, 0, 0, 0, 0, 0, 0
	for _, c := range r.Commits {
		if c.IsMerge() {
			merges++
		} else if len(c.Diffs) == 0 {
			empty++
		}
		if len(c.Parents) == 0 {
			roots++
		}
		if c.ATime >= soonTime {
			future++
		}
		if c.Author == (Ident{}) {
			nobody++
		}
		for _, d := range c.Diffs {
			if d.From != "" {
				renames++
			}
			if d.Binary {
				bin++
			}
		}
	}
	classIf(merges > 0, "repo with merges")
	classIf(renames > 0, "repo with renames")
	classIf(empty > 0, "repo with empty commits")
	classIf(future > 0, "repo with future commits")
	classIf(nobody > 0, "repo with anonymous commits")
	classIf(bin > 0, "repo with binary files")
	classIf(roots > 1, "repo with several roots")
}

// ---------------------------------------------------------------- revisions

// rev draws an expression that names one commit.
func (g G) rev(r *Repo) (string, int) {
	c := g.uni("rev", len(r.Commits))
	var base string
	switch g.uni("revkind", 7) {
	case 0:
		return "HEAD", r.HeadCommit()
	case 1:
		b := pick(g, "branch", sortedKeys(r.Branches))
		base, c = b, r.Branches[b]
		if g.pct("full", 20) {
			base = "refs/heads/" + b
		}
	case 2:
		if len(r.Tags) > 0 {
			b := pick(g, "tag", sortedKeys(r.Tags))
			base, c = b, r.Tags[b]
		} else {
			base = r.Commits[c].Hash
		}
	case 3:
		if len(r.ATags) > 0 {
			b := pick(g, "tag", sortedKeys(r.ATags))
			base, c = b, r.ATags[b]
			if g.pct("peel", 30) {
				base += "^{}"
				return base, c
			}
			if g.pct("peel", 30) {
				return base + "^{commit}", c
			}
		} else {
			base = r.Commits[c].Hash
		}
	case 4:
		base = r.Commits[c].Hash
		if g.pct("upper", 10) {
			base = strings.ToUpper(base)
		}
	case 5:
		base = r.Commits[c].Hash[:12]
	default:
		base, c = "HEAD", r.HeadCommit()
		if g.pct("at", 30) {
			base = "@"
		}
	}
	switch g.uni("suffix", 4) {
	case 0: // ~k
		k := 0
		for len(r.Commits[c].Parents) > 0 && k < 4 && g.pct("more", 60) {
			c = r.Commits[c].Parents[0]
			k++
		}
		if k > 0 {
			base += fmt.Sprintf("~%d", k)
		}
	case 1: // ^n
		if ps := r.Commits[c].Parents; len(ps) > 0 {
			k := g.uni("parent", len(ps))
			c = ps[k]
			if k == 0 && g.pct("short", 50) {
				base += "^"
			} else {
				base += fmt.Sprintf("^%d", k+1)
			}
		}
	}
	return base, c
}

// Revs draws revision arguments and the set of commits they mean.
func (g G) Revs(r *Repo) ([]string, []bool) { return g.revs(r, false) }

// revs draws revisions, with flags also such as --all and --not.
func (g G) revs(r *Repo, flags bool) ([]string, []bool) {
	pos := make([]bool, len(r.Commits))
	neg := make([]bool, len(r.Commits))
	or := func(a, b []bool) {
		for i := range a {
			a[i] = a[i] || b[i]
		}
	}
	if len(r.Commits) == 0 || g.pct("norev", 15) {
		if len(r.Commits) > 0 {
			or(pos, r.ancestors(r.HeadCommit()))
		}
		return nil, pos
	}
	var args []string
	sym := make([]bool, len(r.Commits)) // excluded by a symmetric difference
	not := false
	exclude := ""
	for i, k := 0, 1+g.uni("revs", 3); i < k; i++ {
		if i > 0 && flags && g.pct("flag", 60) {
			if g.pct("not", 40) {
				class("--not")
				args = append(args, "--not")
				pos, neg = neg, pos
				not = !not
				continue
			}
			if g.pct("exclude", 30) {
				class("--exclude")
				exclude = pick(g, "exclude", sortedKeys(r.Branches))
				exclude = exclude[:g.uni("part", len(exclude))]
				if !utf8.ValidString(exclude) {
					exclude = ""
				}
				exclude += "*"
			}
			flag, names := g.refFlag(r, exclude)
			if exclude != "" {
				if flag == "--all" || strings.HasPrefix(flag, "--glob") {
					exclude = "refs/heads/" + exclude
				}
				args = append(args, "--exclude="+exclude)
			}
			class(strings.SplitN(flag, "=", 2)[0])
			args = append(args, flag)
			for _, c := range names {
				or(pos, r.ancestors(c))
			}
			exclude = ""
			continue
		}
		switch g.uni("form", 6) {
		case 5:
			a, c := g.rev(r)
			if strings.Contains(a, "^{") {
				a = r.Commits[c].Hash
			}
			ps := r.Commits[c].Parents
			switch g.uni("special", 4) {
			case 0: // all parents, perhaps none
				args = append(args, a+"^@")
				for _, p := range ps {
					or(pos, r.ancestors(p))
				}
			case 1: // just the commit
				args = append(args, a+"^!")
				or(pos, r.ancestors(c))
				for _, p := range ps {
					or(neg, r.ancestors(p))
				}
			case 2: // all but one parent
				if len(ps) == 0 {
					args = append(args, a+"^{tree}") // no commit at all
					break
				}
				k := g.uni("but", len(ps))
				form := fmt.Sprintf("^-%d", k+1)
				if k == 0 && g.pct("shorter", 50) {
					form = "^-"
				}
				args = append(args, a+form)
				or(pos, r.ancestors(c))
				or(neg, r.ancestors(ps[k]))
			case 3:
				args = append(args, a+"^{tree}")
			}
		case 0, 1:
			a, c := g.rev(r)
			args = append(args, a)
			or(pos, r.ancestors(c))
		case 2:
			a, c := g.rev(r)
			b, d := g.rev(r)
			if strings.Contains(a, "^{") || strings.Contains(b, "^{") {
				a, b = r.Commits[c].Hash, r.Commits[d].Hash
			}
			switch g.uni("open", 6) {
			case 0:
				a, c = "", r.HeadCommit()
			case 1:
				b, d = "", r.HeadCommit()
			}
			args = append(args, a+".."+b)
			or(neg, r.ancestors(c))
			or(pos, r.ancestors(d))
		case 3:
			_, c := g.rev(r)
			_, d := g.rev(r)
			args = append(args, r.Commits[c].Hash[:16]+"..."+r.Commits[d].Hash)
			x, y := r.ancestors(c), r.ancestors(d)
			or(pos, x)
			or(pos, y)
			for i := range sym {
				if not {
					neg[i] = neg[i] || x[i] && y[i]
				} else {
					sym[i] = sym[i] || x[i] && y[i]
				}
			}
		case 4:
			a, c := g.rev(r)
			args = append(args, "^"+a)
			or(neg, r.ancestors(c))
		}
	}
	if not {
		pos, neg = neg, pos
	}
	for i := range pos {
		pos[i] = pos[i] && !neg[i] && !sym[i]
	}
	return args, pos
}

// refFlag draws a flag that stands for several refs, and the commits of those
// refs except the branches that match the exclusion.
func (g G) refFlag(r *Repo, exclude string) (string, []int) {
	var branches, tags []int
	heads := func(pattern string) (cs []int) {
		for _, b := range sortedKeys(r.Branches) {
			if (pattern == "" || wildmatch(pattern, b, true, false)) && (exclude == "" || !wildmatch(exclude, b, true, false)) {
				cs = append(cs, r.Branches[b])
			}
		}
		return cs
	}
	branches = heads("")
	for _, m := range []map[string]int{r.Tags, r.ATags} {
		for _, t := range sortedKeys(m) {
			tags = append(tags, m[t])
		}
	}
	switch g.uni("refs", 7) {
	case 0:
		return "--all", append(branches, tags...)
	case 1:
		return "--branches", branches
	case 2:
		if exclude == "" {
			return "--tags", tags
		}
		return "--branches", branches
	case 3:
		return "--remotes", nil
	case 4:
		return "--glob=heads", branches
	case 5:
		if exclude == "" {
			return "--glob=refs/tags/*", tags
		}
		return "--glob=refs/heads/*", branches
	}
	b := pick(g, "branch", sortedKeys(r.Branches))
	cut := g.uni("part", len(b))
	for cut > 0 && !utf8.ValidString(b[:cut]) {
		cut--
	}
	return "--branches=" + b[:cut] + "*", heads(b[:cut] + "*")
}

// ---------------------------------------------------------------- paths

func relTo(prefix, p string) string {
	if prefix == "" {
		if p == "" {
			return "."
		}
		return p
	}
	pre := strings.Split(prefix, "/")
	var to []string
	if p != "" {
		to = strings.Split(p, "/")
	}
	i := 0
	for i < len(pre) && i < len(to) && pre[i] == to[i] {
		i++
	}
	var out []string
	for range pre[i:] {
		out = append(out, "..")
	}
	out = append(out, to[i:]...)
	if len(out) == 0 {
		return "."
	}
	return strings.Join(out, "/")
}

var alnumStart = regexp.MustCompile(`^[A-Za-z0-9]`)

// Paths draws pathspecs, relative to prefix.
func (g G) Paths(r *Repo, prefix string, lo, hi int) []PathArg {
	files, dirs := r.AllPaths(), r.AllDirs()
	var out []PathArg
	for i, k := 0, g.between("paths", lo, hi); i < k; i++ {
		var p PathArg
		switch g.uni("pathkind", 9) {
		case 0, 1, 2:
			if len(files) == 0 {
				continue
			}
			p.Path = pick(g, "file", files)
			if g.pct("file slash", []int{8, 30}[min(i, 1)]) {
				p.DirOnly = true // matches no file
			}
		case 3, 4:
			if len(dirs) == 0 {
				continue
			}
			p.Path = pick(g, "dir", dirs)
			if g.pct("slash", 40) {
				p.DirOnly = true
			}
		case 5, 8:
			p.Under = g.above(prefix)
			p.Glob = g.glob(files, p.Under)
			if p.Glob == "" {
				continue
			}
		case 6:
			p.Suffix = pick(g, "suffix", []string{".go", ".txt", ".md", "t", ".c", "index.md", "e"})
			p.Under = g.above(prefix)
		case 7:
			switch g.uni("special", 3) {
			case 0: // everything below the root
			case 1: // the current directory
				p.Path = prefix
			case 2:
				p.Path = pick(g, "gone", []string{"no/such/file.txt", "nothing", "src/none"})
			}
		}
		if p.wild() {
			p.Arg = p.pattern()
			if p.Under != prefix {
				p.Arg = relTo(prefix, p.Under) + "/" + p.Arg
			} else if g.pct("dot", 10) {
				p.Arg = "./" + p.Arg
			}
		} else {
			p.Arg = relTo(prefix, p.Path)
			if p.DirOnly {
				p.Arg += "/"
			} else if g.pct("dot", 10) && p.Arg != "." && !strings.HasPrefix(p.Arg, ":") {
				p.Arg = "./" + p.Arg
			}
			if p.Path != "" && (p.Arg == "." || p.Arg == ".." || strings.HasSuffix(p.Arg, "/..")) {
				p.DirOnly = true
			}
			if strings.HasPrefix(p.Path, ":") || strings.HasPrefix(p.Arg, ":") {
				continue // can only be given with magic that is not supported
			}
		}
		if g.pct("exclude", 25) {
			p.Exclude = true
			long := !alnumStart.MatchString(p.Arg)
			switch g.uni("magic", 4) {
			case 0:
				long = true
			case 1:
				if !long {
					p.Arg = ":!" + p.Arg
				}
			case 2:
				if !long {
					p.Arg = ":^" + p.Arg
				}
			case 3:
				if !long {
					p.Arg = ":!:" + p.Arg
				}
			}
			if long {
				p.Arg = ":(exclude)" + p.Arg
			}
		}
		out = append(out, p)
	}
	// git 2.43 ls-files reads beyond the end of an exclusion that is shorter
	// than the directory the other paths have in common: what it lists then is
	// arbitrary.
	if len(out) > 0 && !out[0].Exclude {
		full := func(p PathArg) string {
			if p.wild() {
				return path.Join(p.Under, p.pattern())
			}
			return p.Path
		}
		common := strings.LastIndex(full(out[0]), "/") + 1
		if out[0].DirOnly {
			common = len(full(out[0])) + 1
		}
		out = slices.DeleteFunc(out, func(p PathArg) bool {
			return p.Exclude && len(full(p)) < common
		})
	}
	return out
}

// above draws a directory or one it is in.
func (g G) above(dir string) string {
	for dir != "" && g.pct("above", 20) {
		dir = strings.TrimPrefix(path.Dir("/"+dir), "/")
	}
	return dir
}

// glob draws a pattern that matches one of the files below a directory, by
// putting wildcards into its path. Only patterns whose meaning is not in doubt
// for any of the files: git-who's asterisks stand for slashes at the beginning
// and at the end and after a leading asterisk, but not elsewhere.
func (g G) glob(files []string, prefix string) string {
	var below []string
	for _, f := range files {
		if prefix == "" {
			below = append(below, f)
		} else if strings.HasPrefix(f, prefix+"/") {
			below = append(below, f[len(prefix)+1:])
		}
	}
	if len(below) == 0 {
		return ""
	}
	name := pick(g, "globbed", below)
	if !plainName.MatchString(name) {
		return ""
	}
	wildcards := g.between("wildcards", 0, 3)
	if wildcards == 0 && len(name) > 4 {
		// The usual forms
		from := g.uni("from", len(name)-2)
		to := from + 1 + g.uni("to", min(len(name)-from-1, 6))
		if isASCII(name) {
			switch g.uni("form", 4) {
			case 0, 1:
				name = "*" + name[from:to] + "*"
			case 2:
				name = "*" + name[from:to] + "*" + name[len(name)-1-g.uni("end", len(name)-to):]
			case 3:
				name = name[:to] + "*"
			}
		}
	}
	for i := 0; i < wildcards && len(name) > 0; i++ {
		from := g.uni("from", len(name))
		to := from + 1
		what := pick(g, "wildcard", []string{"*", "*", "*", "*", "?", "[]", "[!]", "\\", "**"})
		switch what {
		case "*", "**":
			to = from + g.uni("to", min(len(name)-from+1, 8))
			switch g.uni("where", 4) {
			case 0:
				from = 0
			case 1:
				to = len(name)
			}
		case "[]":
			what = "[" + pick(g, "set", []string{name[from:to], "x" + name[from:to], "a-z", "0-9a-f", "!q"}) + "]"
		case "[!]":
			what = pick(g, "set", []string{"[!z]", "[^a-c]", "[!0-9]"})
		case "\\":
			what += name[from:to]
		}
		if strings.ContainsAny(name[from:to], "*?[]\\") || from > 0 && name[from-1] == '\\' || strings.LastIndexByte(name[:from], '[') > strings.LastIndexByte(name[:from], ']') || what[0] != '*' && strings.Contains(name[from:to], "/") {
			continue
		}
		if from < len(name) && !utf8.RuneStart(name[from]) || to < len(name) && !utf8.RuneStart(name[to]) {
			continue
		}
		name = name[:from] + what + name[to:]
	}
	if !strings.ContainsAny(name, "*?[\\") || name[0] == ':' || name[0] == '/' || strings.Contains(name, "//") || strings.Contains(strings.TrimLeft(name, "*"), "**") || !balanced.MatchString(name) || path.Clean(name) != name {
		return ""
	}
	for _, f := range below {
		if wildmatch(name, f, true, false) != wildmatch(name, f, false, false) || wildmatch(name, f, false, false) != wildmatch(name, f, false, true) {
			return ""
		}
	}
	return name
}

func isASCII(s string) bool {
	return !strings.ContainsFunc(s, func(r rune) bool { return r >= utf8.RuneSelf })
}

var plainName = regexp.MustCompile(`^[^-:*?\[\]\\\r\n][^*?\[\]\\\r\n]*$`)
var balanced = regexp.MustCompile(`^([^\[\]]|\[[^/\[\]]+\])*$`)

// unambiguous tells whether all paths may be given without "--".
func (w *World) unambiguous(r *Repo, s *Sel) bool {
	idx := r.Index()
	for _, p := range s.Paths {
		if p.Exclude || p.wild() || !alnumStart.MatchString(p.Arg) || p.DirOnly {
			return false
		}
		ok := idx[p.Path]
		for q := range idx {
			ok = ok || strings.HasPrefix(q, p.Path+"/")
		}
		if !ok {
			return false
		}
		// must not look like a revision
		if _, b := r.Branches[p.Arg]; b || isHexLike(p.Arg) || strings.Contains(p.Arg, "..") || strings.ContainsAny(p.Arg, "~^:@") || strings.HasPrefix(p.Arg, "HEAD") || strings.HasPrefix(p.Arg, "refs/") {
			return false
		}
		if r.Tags[p.Arg] != 0 || r.ATags[p.Arg] != 0 {
			return false
		}
	}
	for _, a := range s.Revs {
		if idx[a] || idx[strings.SplitN(a, "/", 2)[0]] {
			return false
		}
	}
	return true
}

func isHexLike(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
			return false
		}
	}
	return len(s) >= 4
}

// ---------------------------------------------------------------- filters

func (g G) authorPattern(r *Repo) string {
	var words []string
	seen := map[string]bool{}
	for _, c := range r.Commits {
		for _, s := range []string{c.Mapped.Name, c.Mapped.Email, c.Author.Name, c.Author.Email} {
			for _, w := range regexp.MustCompile(`[A-Za-z0-9]+`).FindAllString(s, -1) {
				if !seen[w] {
					seen[w] = true
					words = append(words, w)
				}
			}
		}
	}
	sort.Strings(words)
	if len(words) == 0 {
		return "Alice"
	}
	w := pick(g, "word", words)
	switch g.uni("pattern", 7) {
	case 0: // part of a word
		i := g.uni("from", len(w))
		return w[i:min(len(w), i+1+g.uni("len", 3))]
	case 1:
		return "^" + w
	case 2:
		return "<" + w
	case 3:
		return w[:1] + ".*" + pick(g, "word", words)
	case 4:
		return pick(g, "odd", []string{"@", "@example.com>", "nobodyhere", "e", ">$", ",", ", "})
	case 5:
		return w + pick(g, "comma", []string{",", ", "}) + pick(g, "word", words)
	}
	return w
}

// matchAuthor is how git matches the author against a pattern made by
// authorPattern: anywhere in "Name <email>".
func matchAuthor(pattern, ident string) bool {
	re, ok := reCache[pattern]
	if !ok {
		re = regexp.MustCompile("(?s)" + pattern)
		reCache[pattern] = re
	}
	return re.MatchString(ident)
}

var reCache = map[string]*regexp.Regexp{}

func (g G) Filters(r *Repo, s *Sel) {
	if g.pct("author", 50) {
		for i, k := 0, 1+g.uni("n", 2); i < k; i++ {
			s.Authors = append(s.Authors, g.authorPattern(r))
		}
	}
	if g.pct("nauthor", 45) {
		for i, k := 0, 1+g.uni("n", 2); i < k; i++ {
			s.Nauth = append(s.Nauth, g.authorPattern(r))
		}
	}
	t := func() int64 {
		c := pick(g, "commit", r.Commits)
		return c.CTime + int64(g.between("off", -1, 1))*pick(g, "by", []int64{1, 500})
	}
	if g.pct("since", 35) {
		s.Since = t()
	}
	if g.pct("until", 35) {
		s.Until = t()
	}
	if g.pct("date form", 50) {
		s.DateAs = 1 + g.uni("form", 5)
	}
	s.matchA = matchAuthor
}

// ---------------------------------------------------------------- mailmap

// Mailmap draws a mailmap file about the identities of the repository.
func (g G) Mailmap(r *Repo) string {
	var ids []Ident
	seen := map[Ident]bool{}
	for _, c := range r.Commits {
		if !seen[c.Author] && c.Author.Name != "" && c.Author.Email != "" {
			seen[c.Author] = true
			ids = append(ids, c.Author)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].String() < ids[j].String() })
	var b strings.Builder
	if len(ids) == 0 {
		return "# nothing\n"
	}
	proper := func() string { return pick(g, "proper", []string{"Proper Name", "Alice", "Bob", "Ünïcode", "Zed Z"}) }
	pmail := func() string {
		return pick(g, "pmail", []string{"proper@mail.org", "alice@example.com", "shared@team.dev"})
	}
	for i, k := 0, 1+g.uni("entries", 4); i < k; i++ {
		id := pick(g, "ident", ids)
		switch g.uni("mm", 6) {
		case 0:
			fmt.Fprintf(&b, "%s <%s>\n", proper(), id.Email)
		case 1:
			fmt.Fprintf(&b, "<%s> <%s>\n", pmail(), id.Email)
		case 2:
			fmt.Fprintf(&b, "%s <%s> <%s>\n", proper(), pmail(), id.Email)
		case 3:
			fmt.Fprintf(&b, "%s <%s> %s <%s>\n", proper(), pmail(), id.Name, id.Email)
		case 4: // merge into another existing identity
			o := pick(g, "other", ids)
			fmt.Fprintf(&b, "%s <%s> <%s>\n", o.Name, o.Email, id.Email)
		case 5:
			b.WriteString("# a comment\n\n")
		}
	}
	return b.String()
}

var alnumDots = regexp.MustCompile(`^[A-Za-z0-9./_]+$`)
