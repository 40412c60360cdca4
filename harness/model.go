package harness

import (
	"bytes"
	"compress/zlib"
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Ident is what a commit records about a person.
type Ident struct{ Name, Email string }

func (i Ident) String() string {
	if i.Name == "" {
		return "<" + i.Email + ">"
	}
	return i.Name + " <" + i.Email + ">"
}

type File struct {
	Mode string
	Data string
}

type Diff struct {
	Path     string
	Add, Del int
	From     string // for renames
	Binary   bool
}

type Commit struct {
	Parents []int
	Signed  bool
	Author  Ident
	ATime   int64
	ATZ     string
	CTime   int64
	Tree    map[string]File
	Hash    string
	Diffs   []Diff // what git reports for the commit against its first parent; empty for merges
	Mapped  Ident  // identity after mailmap
	Latin1  bool   // recorded in ISO-8859-1
}

func (c *Commit) IsMerge() bool { return len(c.Parents) > 1 }

// Repo is the model of a repository: the harness generates it and knows all
// about it before git-who ever sees it.
type Repo struct {
	replaced map[int]Commit // as recorded, commits that git replaces
	Commits  []*Commit
	Branches map[string]int // name -> commit
	Tags     map[string]int // lightweight
	ATags    map[string]int // annotated
	Head     string         // branch
	anc      [][]bool
	Mailmap  bool // identities have been mapped
	extra    map[string]string
	detect   string // how git detects renames, -M if empty
	moreDiff []string
}

const futureTime = 4102444800 // 2100-01-01, always skipped

var startTime = time.Now().Unix()

// soonTime is later than any run of the current case, which takes seconds;
// commits from then on are skipped too.
var soonTime = startTime + 1800

func quotePath(p string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 0x20 || c >= 0x7f:
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func toLatin1(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

// Stream renders the whole repository as a git fast-import stream.
func (r *Repo) Stream() []byte {
	var b bytes.Buffer
	for i, c := range r.Commits {
		b.WriteString("reset refs/verif/tmp\n")
		if len(c.Parents) > 0 {
			// so that the commit below is not a child of the previous one
			fmt.Fprintf(&b, "from :%d\n\n", c.Parents[0]+1)
		}
		b.WriteString("commit refs/verif/tmp\n")
		fmt.Fprintf(&b, "mark :%d\n", i+1)
		if c.Latin1 {
			fmt.Fprintf(&b, "author %s <%s> %d %s\n", toLatin1(c.Author.Name), toLatin1(c.Author.Email), c.ATime, c.ATZ)
		} else if c.Author.Name == "" {
			fmt.Fprintf(&b, "author <%s> %d %s\n", c.Author.Email, c.ATime, c.ATZ)
		} else {
			fmt.Fprintf(&b, "author %s <%s> %d %s\n", c.Author.Name, c.Author.Email, c.ATime, c.ATZ)
		}
		fmt.Fprintf(&b, "committer Committer <committer@verif> %d +0000\n", c.CTime)
		if c.Latin1 {
			b.WriteString("encoding ISO-8859-1\n")
		}
		msg := fmt.Sprintf("c%d", i)
		fmt.Fprintf(&b, "data %d\n%s\n", len(msg), msg)
		var base map[string]File
		if len(c.Parents) > 0 {
			fmt.Fprintf(&b, "from :%d\n", c.Parents[0]+1)
			base = r.Commits[c.Parents[0]].Tree
		}
		for _, p := range c.Parents[min(1, len(c.Parents)):] {
			fmt.Fprintf(&b, "merge :%d\n", p+1)
		}
		for _, p := range sortedKeys(base) {
			if _, ok := c.Tree[p]; !ok {
				fmt.Fprintf(&b, "D %s\n", quotePath(p))
			}
		}
		for _, p := range sortedKeys(c.Tree) {
			f := c.Tree[p]
			if old, ok := base[p]; ok && old == f {
				continue
			}
			if f.Mode == "160000" {
				fmt.Fprintf(&b, "M %s %s %s\n", f.Mode, f.Data, quotePath(p))
				continue
			}
			fmt.Fprintf(&b, "M %s inline %s\ndata %d\n%s\n", f.Mode, quotePath(p), len(f.Data), f.Data)
		}
		b.WriteString("\n")
	}
	for _, n := range sortedKeys(r.Branches) {
		fmt.Fprintf(&b, "reset refs/heads/%s\nfrom :%d\n\n", n, r.Branches[n]+1)
	}
	for _, n := range sortedKeys(r.Tags) {
		fmt.Fprintf(&b, "reset refs/tags/%s\nfrom :%d\n\n", n, r.Tags[n]+1)
	}
	for _, n := range sortedKeys(r.ATags) {
		fmt.Fprintf(&b, "tag %s\nfrom :%d\ntagger T <t@verif> 1400000000 +0000\ndata 1\nt\n", n, r.ATags[n]+1)
	}
	b.WriteString("reset refs/verif/tmp\nfrom 0000000000000000000000000000000000000000\n\n")
	return b.Bytes()
}

// InitRepo writes an empty repository without starting a process.
func (w *World) InitRepo(dir, head string) {
	g := filepath.Join(dir, ".git")
	for _, d := range []string{"objects", "refs/heads", "refs/tags", "info"} {
		must(os.MkdirAll(filepath.Join(g, d), 0o755))
	}
	must(os.WriteFile(filepath.Join(g, "HEAD"), []byte("ref: refs/heads/"+head+"\n"), 0o644))
	must(os.WriteFile(filepath.Join(g, "config"), []byte("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n\tfsync = none\n\tlogallrefupdates = false\n[gc]\n\tauto = 0\n"), 0o644))
	w.step(fmt.Sprintf("git init -q %s; git -C %s symbolic-ref HEAD refs/heads/%s", w.q(dir), w.q(dir), head))
}

// Install creates the repository on disk, checks it out, and learns the truth
// about each commit (hash, diff) from git plumbing.
func (w *World) Install(r *Repo) {
	w.InitRepo(w.Dir, r.Head)
	w.Import(r, true)
}

// Import (re)loads the whole model into the existing repository.
func (w *World) Import(r *Repo, checkout bool) {
	// No commit may turn from future to past while the check runs.
	now := time.Now().Unix()
	for _, c := range r.Commits {
		if c.ATime > now && c.ATime < soonTime {
			c.ATime -= 86400
		}
	}
	stream := r.Stream()
	w.sig.Write(stream)
	marks := filepath.Join(w.Tmp, "marks")
	w.Git(w.Dir, stream, "fast-import", "--quiet", "--force", "--export-marks="+marks)
	w.step(fmt.Sprintf("base64 -d <<'E' | gunzip | git -C %s fast-import --quiet --force\n%s\nE", w.q(w.Dir), b64gz(stream)))
	b, err := os.ReadFile(marks)
	must(err)
	must(os.Remove(marks))
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		if l == "" {
			continue
		}
		f := strings.Fields(l)
		m, err := strconv.Atoi(f[0][1:])
		must(err)
		if m-1 < len(r.Commits) {
			r.Commits[m-1].Hash = f[1]
		}
	}
	w.sign(r)
	r.anc = nil
	w.learnDiffs(r)
	if checkout {
		w.Checkout()
	}
	w.noteRepo(r)
}

// sign rewrites the history so that some commits carry signatures (which are
// nonsense, but that is for gpg to say).
func (w *World) sign(r *Repo) {
	signs := false
	for _, c := range r.Commits {
		signs = signs || c.Signed
	}
	if !signs || len(r.ATags) > 0 {
		return
	}
	var in bytes.Buffer
	for _, c := range r.Commits {
		fmt.Fprintln(&in, c.Hash)
	}
	raw := w.Git(w.Dir, in.Bytes(), "cat-file", "--batch")
	renamed := map[string]string{}
	var refs, step strings.Builder
	for _, c := range r.Commits {
		head, rest, _ := bytes.Cut(raw, []byte("\n"))
		n, err := strconv.Atoi(string(head[bytes.LastIndexByte(head, ' ')+1:]))
		must(err)
		body := string(rest[:n])
		raw = rest[n+1:]
		headers, msg, _ := strings.Cut(body, "\n\n")
		for old, h := range renamed {
			headers = strings.ReplaceAll(headers, "parent "+old, "parent "+h)
		}
		if c.Signed {
			headers += "\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n nonsense\n -----END PGP SIGNATURE-----"
		}
		body = headers + "\n\n" + msg
		obj := fmt.Sprintf("commit %d\x00%s", len(body), body)
		h := fmt.Sprintf("%x", sha1.Sum([]byte(obj)))
		if h != c.Hash {
			renamed[c.Hash] = h
			var z bytes.Buffer
			zw := zlib.NewWriter(&z)
			_, err := zw.Write([]byte(obj))
			must(err)
			must(zw.Close())
			d := filepath.Join(w.Dir, ".git", "objects", h[:2])
			must(os.MkdirAll(d, 0o755))
			must(os.WriteFile(filepath.Join(d, h[2:]), z.Bytes(), 0o444))
			fmt.Fprintf(&step, "base64 -d <<'E' | gunzip | git -C %s hash-object -t commit -w --stdin >/dev/null\n%s\nE\n", w.q(w.Dir), b64gz([]byte(body)))
			c.Hash = h
		}
	}
	for _, n := range sortedKeys(r.Branches) {
		fmt.Fprintf(&refs, "update refs/heads/%s %s\n", n, r.Commits[r.Branches[n]].Hash)
	}
	for _, n := range sortedKeys(r.Tags) {
		fmt.Fprintf(&refs, "update refs/tags/%s %s\n", n, r.Commits[r.Tags[n]].Hash)
	}
	w.Git(w.Dir, []byte(refs.String()), "update-ref", "--stdin")
	fmt.Fprintf(&step, "git -C %s update-ref --stdin <<'E'\n%sE", w.q(w.Dir), refs.String())
	w.step(step.String())
	class("signed commits")
}

// Checkout makes index and work tree agree with HEAD.
func (w *World) Checkout() {
	w.Git(w.Dir, nil, "reset", "--hard", "-q")
	w.step(fmt.Sprintf("git -C %s reset --hard -q", w.q(w.Dir)))
}

func (w *World) noteRepo(r *Repo) {
	if len(r.Commits) > 60 {
		w.note("%d commits", len(r.Commits))
		return
	}
	for i, c := range r.Commits {
		var d []string
		for _, x := range c.Diffs {
			s := fmt.Sprintf("%q+%d-%d", x.Path, x.Add, x.Del)
			if x.From != "" {
				s += fmt.Sprintf("(from %q)", x.From)
			}
			d = append(d, s)
		}
		w.note("commit %d %s parents %v author %q date %d committed %d: %s", i, c.Hash, c.Parents, c.Author.String(), c.ATime, c.CTime, strings.Join(d, " "))
	}
	w.note("branches %v tags %v %v head %s", r.Branches, r.Tags, r.ATags, r.Head)
}

func isHex40(s string) bool {
	if len(s) != 40 {
		return false
	}
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
			return false
		}
	}
	return true
}

// learnDiffs asks git plumbing (diff-tree, not log) for the numstat of every
// commit against its first parent.
func (w *World) learnDiffs(r *Repo) {
	var in bytes.Buffer
	byHash := map[string][]*Commit{}
	for _, c := range r.Commits {
		c.Diffs = nil
		if byHash[c.Hash] == nil && !c.IsMerge() {
			fmt.Fprintln(&in, c.Hash)
		}
		byHash[c.Hash] = append(byHash[c.Hash], c)
	}
	args := []string{"diff-tree", "--stdin", "-r", "-z", "-M", "--root", "--numstat"}
	if r.detect != "" {
		args[4] = r.detect
	}
	// Unlike git log, git diff-tree would also take attributes from the index.
	over := w.over
	w.over = append(slices.Clone(over), "GIT_INDEX_FILE="+filepath.Join(w.Root, "no index"))
	out := w.Git(w.Dir, in.Bytes(), append(args, r.moreDiff...)...)
	w.over = over
	toks := strings.Split(string(out), "\x00")
	var cur []*Commit
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if t == "" && i == len(toks)-1 {
			break
		}
		if isHex40(t) {
			cur = byHash[t]
			continue
		}
		f := strings.SplitN(t, "\t", 3)
		if len(f) != 3 || cur == nil {
			infra("unexpected diff-tree output %q", t)
		}
		var d Diff
		if f[0] == "-" {
			d.Binary = true
		} else {
			d.Add, _ = strconv.Atoi(f[0])
			d.Del, _ = strconv.Atoi(f[1])
		}
		d.Path = f[2]
		if f[2] == "" {
			d.From, d.Path = toks[i+1], toks[i+2]
			i += 2
		}
		for _, c := range cur {
			c.Diffs = append(c.Diffs, d)
		}
	}
}

// ancestors[i][j]: j is reachable from i.
func (r *Repo) ancestors(i int) []bool {
	if r.anc == nil {
		r.anc = make([][]bool, len(r.Commits))
	}
	if r.anc[i] == nil {
		s := make([]bool, len(r.Commits))
		stack := []int{i}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if s[x] {
				continue
			}
			s[x] = true
			stack = append(stack, r.Commits[x].Parents...)
		}
		r.anc[i] = s
	}
	return r.anc[i]
}

func (r *Repo) HeadCommit() int { return r.Branches[r.Head] }

// Index returns the paths tracked at HEAD.
func (r *Repo) Index() map[string]bool {
	m := map[string]bool{}
	for p := range r.Commits[r.HeadCommit()].Tree {
		m[p] = true
	}
	return m
}

// ApplyMailmap lets git map every identity.
func (w *World) ApplyMailmap(r *Repo) {
	var in bytes.Buffer
	ids := map[Ident]Ident{}
	var order []Ident
	for _, c := range r.Commits {
		if _, ok := ids[c.Author]; !ok {
			ids[c.Author] = c.Author
			if c.Author == (Ident{}) {
				continue
			}
			order = append(order, c.Author)
			fmt.Fprintf(&in, "%s\n", c.Author)
		}
	}
	if len(order) == 0 {
		r.NoMailmap()
		return
	}
	out := strings.Split(strings.TrimSuffix(string(w.Git(w.Dir, in.Bytes(), "check-mailmap", "--stdin")), "\n"), "\n")
	if len(out) != len(order) {
		infra("check-mailmap gave %d lines for %d", len(out), len(order))
	}
	for i, l := range out {
		j := strings.LastIndex(l, "<")
		ids[order[i]] = Ident{strings.TrimSpace(l[:j]), strings.TrimSuffix(l[j+1:], ">")}
	}
	for _, c := range r.Commits {
		c.Mapped = ids[c.Author]
	}
	r.Mailmap = true
}

func (r *Repo) NoMailmap() {
	for _, c := range r.Commits {
		c.Mapped = c.Author
	}
	r.Mailmap = false
}

// ---------------------------------------------------------------- selection

// Sel is a request: which commits, which changes, how to tell authors apart.
type Sel struct {
	Revs    []string // as given to git-who
	Set     []bool   // commits meant by Revs
	Sep     bool     // give "--" even without paths
	Bare    bool     // do not give "--" even with paths
	Paths   []PathArg
	Prefix  string // directory git-who runs in, relative to the root, "" or "a/b"
	Authors []string
	Nauth   []string
	Since   int64 // 0 = none
	Until   int64
	DateAs  int            // how dates are written
	Loc     *time.Location // where dates are written without a zone
	Merges  bool
	Email   bool
	Ignore  map[string]bool
	matchA  func(pattern, ident string) bool
	gitSet  map[string]bool // commits git selects for the paths
	listed  map[string]bool // with excluding paths: the tracked files git lists
}

// PathArg is one pathspec and its meaning.
type PathArg struct {
	Arg     string // as given
	Exclude bool
	Path    string // root-relative path for literals ("" = everything)
	DirOnly bool   // given with trailing slash
	Suffix  string // for *suffix patterns
	Glob    string // for other patterns
	Under   string // root-relative directory a pattern is limited to
}

// pattern is the pattern without what leads to the directory it is for.
func (p PathArg) pattern() string {
	if p.Suffix != "" {
		return "*" + p.Suffix
	}
	return p.Glob
}

func (p PathArg) wild() bool { return p.Suffix != "" || p.Glob != "" }

func (p PathArg) Match(path string) bool {
	if p.Suffix != "" {
		if p.Under != "" && !strings.HasPrefix(path, p.Under+"/") {
			return false
		}
		return strings.HasSuffix(path, p.Suffix)
	}
	if p.Glob != "" {
		if p.Under != "" {
			if !strings.HasPrefix(path, p.Under+"/") {
				return false
			}
			path = path[len(p.Under)+1:]
		}
		// A name that happens to look like the pattern, or a directory.
		return path == p.Glob || strings.HasPrefix(path, strings.TrimSuffix(p.Glob, "/")+"/") || wildmatch(p.Glob, path, true, false)
	}
	if p.Path == "" || strings.HasPrefix(path, p.Path+"/") {
		return true
	}
	return path == p.Path && !p.DirOnly
}

// wildmatch is git's matching of a pathspec with the whole of a path: every
// wildcard stands for bytes of any kind. With cross false only leading and
// trailing asterisks stand for slashes; with runes true a question mark or
// bracket stands for a character rather than a byte.
func wildmatch(pat, s string, cross, runes bool) bool {
	slash := cross || strings.HasPrefix(pat, "*")
	for len(pat) > 0 {
		switch c := pat[0]; c {
		case '*':
			pat = strings.TrimLeft(pat, "*")
			for i := 0; i <= len(s); i++ {
				if i > 0 && s[i-1] == '/' && !slash && pat != "" {
					return false
				}
				if wildmatch(pat, s[i:], slash, runes) {
					return true
				}
			}
			return false
		case '?', '[':
			if s == "" || s[0] == '/' && !slash {
				return false
			}
			n := 1
			ch := rune(s[0])
			if runes {
				ch, n = utf8.DecodeRuneInString(s)
			}
			if c == '?' {
				pat, s = pat[1:], s[n:]
				continue
			}
			end := strings.IndexByte(pat[2:], ']') + 2
			set := pat[1:end]
			neg := set[0] == '!' || set[0] == '^'
			if neg {
				set = set[1:]
			}
			in := false
			for rs := []rune(set); len(rs) > 0; {
				if len(rs) >= 3 && rs[1] == '-' {
					in = in || rs[0] <= ch && ch <= rs[2]
					rs = rs[3:]
				} else {
					in = in || rs[0] == ch
					rs = rs[1:]
				}
			}
			if in == neg {
				return false
			}
			pat, s = pat[end+1:], s[n:]
		case '\\':
			pat = pat[1:]
			fallthrough
		default:
			if pat == "" || s == "" || s[0] != pat[0] {
				return false
			}
			pat, s = pat[1:], s[1:]
		}
	}
	return s == ""
}

func (s *Sel) PathOK(path string) bool {
	inc, any := false, false
	for _, p := range s.Paths {
		if p.Exclude {
			if p.Match(path) {
				return false
			}
			continue
		}
		any = true
		if p.Match(path) {
			inc = true
		}
	}
	return inc || !any
}

// Args are the revision and path arguments for git-who.
func (s *Sel) Args() []string {
	var a []string
	if s.Since != 0 {
		a = append(a, "--since", s.date(s.Since))
	}
	if s.Until != 0 {
		a = append(a, "--until", s.date(s.Until))
	}
	for _, x := range s.Authors {
		a = append(a, "--author", x)
	}
	for _, x := range s.Nauth {
		a = append(a, "--nauthor", x)
	}
	if s.Merges {
		a = append(a, "--merges")
	}
	if s.Email {
		a = append(a, "-e")
	}
	a = append(a, s.Revs...)
	if (len(s.Paths) > 0 || s.Sep) && !s.Bare {
		a = append(a, "--")
	}
	for _, p := range s.Paths {
		a = append(a, p.Arg)
	}
	return a
}

// date spells a time in one of the ways git reads as that very second.
func (s *Sel) date(n int64) string {
	zone := time.FixedZone("", []int{0, 19800, -28800}[n&3%3])
	t := time.Unix(n, 0)
	if n >= 1e8 && n < 4e9 {
		switch s.DateAs {
		case 1:
			return t.UTC().Format("2006-01-02T15:04:05Z")
		case 2:
			return t.In(zone).Format("2006-01-02 15:04:05 -0700")
		case 3:
			return t.In(zone).Format("Mon, 2 Jan 2006 15:04:05 -0700")
		case 4:
			return t.In(zone).Format("2006-01-02T15:04:05-07:00")
		case 5:
			return fmt.Sprintf("%d %s", n, t.In(zone).Format("-0700"))
		case 6:
			return t.In(s.Loc).Format("2006-01-02 15:04:05")
		}
	}
	return fmt.Sprintf("@%d", n)
}

// Prepare asks git which commits the paths select (history simplification is
// git's business, the property only says "selects like git").
func (s *Sel) Prepare(w *World, r *Repo) {
	s.gitSet, s.listed = nil, nil
	if len(s.Paths) == 0 {
		return
	}
	for _, p := range s.Paths {
		if p.Exclude && s.listed == nil {
			// git 2.43 ls-files leaves out everything when an exclusion is
			// shorter than the directory all other paths have in common.
			s.listed = map[string]bool{}
			args := []string{"ls-files", "-z", "--full-name", "--"}
			for _, p := range s.Paths {
				args = append(args, p.Arg)
			}
			for _, f := range strings.Split(string(w.Git(filepath.Join(w.Dir, s.Prefix), nil, args...)), "\x00") {
				s.listed[f] = true
			}
		}
	}
	var in bytes.Buffer
	args := []string{"rev-list"}
	revs := s.Revs
	if len(revs) == 0 {
		revs = []string{"HEAD"}
	}
	if s.Since != 0 {
		args = append(args, fmt.Sprintf("--since=@%d", s.Since))
	}
	if s.Until != 0 {
		args = append(args, fmt.Sprintf("--until=@%d", s.Until))
	}
	args = append(args, revs...)
	args = append(args, "--")
	for _, p := range s.Paths {
		args = append(args, p.Arg)
	}
	s.gitSet = map[string]bool{}
	out := w.Git(filepath.Join(w.Dir, s.Prefix), in.Bytes(), args...)
	for _, l := range strings.Fields(string(out)) {
		s.gitSet[l] = true
	}
	// For excluded merges and paths, what git selects depends on the order of
	// the revisions: git 2.43 lists excluded commits then.
	if len(s.Revs) > 1 || strings.Contains(strings.Join(s.Revs, " "), "..") {
		hashes := strings.Fields(string(w.Git(w.Dir, nil, append(append([]string{"rev-parse"}, s.Revs...), "--")...)))
		hashes = slices.DeleteFunc(hashes, func(h string) bool { return h == "--" })
		i := slices.Index(args, "--") - len(revs)
		args = append(append(slices.Clone(args[:i]), hashes...), args[i+len(revs):]...)
		other := strings.Fields(string(out))
		if len(hashes) > 0 { // the parents of roots are none
			other = strings.Fields(string(w.Git(filepath.Join(w.Dir, s.Prefix), nil, args...)))
		}
		slices.Sort(other)
		mine := strings.Fields(string(out))
		slices.Sort(mine)
		if !slices.Equal(mine, other) {
			class("git selects by the order of revisions")
			w.T.Skip("git selects by the order of revisions")
		}
		in := map[string]bool{}
		for i, c := range r.Commits {
			in[c.Hash] = in[c.Hash] || s.Set[i]
		}
		for h := range s.gitSet {
			if !in[h] {
				class("git selects excluded commits")
				w.T.Skip("git selects excluded commits")
			}
		}
	}
}

// Selected lists the commits git-who has to look at: reachable, selected by
// paths, filters, not ignored, with an author and not in the future. Merges
// are included; counting them is the caller's business.
func (r *Repo) Selected(s *Sel) []*Commit {
	var out []*Commit
	seen := map[string]bool{}
	for i, c := range r.Commits {
		if !s.Set[i] || seen[c.Hash] {
			continue
		}
		seen[c.Hash] = true
		if s.gitSet != nil && !s.gitSet[c.Hash] {
			continue
		}
		if s.Ignore[c.Hash] {
			continue
		}
		if s.Since != 0 && c.CTime < s.Since || s.Until != 0 && c.CTime > s.Until {
			continue
		}
		id := c.Mapped.Name + " <" + c.Mapped.Email + ">"
		if len(s.Authors) > 0 {
			ok := false
			for _, a := range s.Authors {
				ok = ok || s.matchA(a, id)
			}
			if !ok {
				continue
			}
		}
		bad := false
		for _, a := range s.Nauth {
			bad = bad || s.matchA(a, id)
		}
		if bad {
			continue
		}
		if c.Mapped.Name == "" && c.Mapped.Email == "" {
			continue
		}
		if c.ATime >= soonTime {
			continue
		}
		out = append(out, c)
	}
	return out
}

// All selects everything reachable from HEAD.
func (r *Repo) SelHead() *Sel {
	return &Sel{Set: r.ancestors(r.HeadCommit()), matchA: plainMatch}
}

func plainMatch(pattern, ident string) bool { return strings.Contains(ident, pattern) }

// ---------------------------------------------------------------- tallies

type Tally struct {
	Key         string
	Names       map[string]bool
	Email       string
	Commits     map[string]bool
	Add, Del    int
	Files       map[string]bool
	First, Last int64
}

func newTally(key string) *Tally {
	return &Tally{Key: key, Names: map[string]bool{}, Commits: map[string]bool{}, Files: map[string]bool{}, First: 1 << 62, Last: -1 << 62}
}

func (t *Tally) addCommit(c *Commit) {
	t.Names[c.Mapped.Name] = true
	t.Email = c.Mapped.Email
	t.Commits[c.Hash] = true
	t.First = min(t.First, c.ATime)
	t.Last = max(t.Last, c.ATime)
}

func (t *Tally) addDiff(c *Commit, d Diff) {
	if c.IsMerge() {
		return
	}
	t.Add += d.Add
	t.Del += d.Del
	t.Files[d.Path] = true
}

// Name gives one displayable name.
func (t *Tally) Name() string {
	ks := sortedKeys(t.Names)
	for _, k := range ks {
		if k != "" {
			return k
		}
	}
	return ks[0]
}

type Mode byte

const (
	ByCommits Mode = 0
	ByLines   Mode = 'l'
	ByFiles   Mode = 'f'
	ByLast    Mode = 'm'
	ByFirst   Mode = 'c'
)

var allModes = []Mode{ByCommits, ByLines, ByFiles, ByLast, ByFirst}

func (m Mode) Flag() []string {
	if m == 0 {
		return nil
	}
	return []string{"-" + string(rune(m))}
}

func (m Mode) Diff() bool { return m == ByLines || m == ByFiles }

func (t *Tally) Metric(m Mode) int64 {
	switch m {
	case ByLines:
		return int64(t.Add + t.Del)
	case ByFiles:
		return int64(len(t.Files))
	case ByLast:
		return t.Last
	case ByFirst:
		return -t.First
	}
	return int64(len(t.Commits))
}

// cmpTally orders tallies best first: metric, then later last commit.
func better(a, b *Tally, m Mode) int {
	x, y := a.Metric(m), b.Metric(m)
	if x != y {
		if x > y {
			return -1
		}
		return 1
	}
	if a.Last != b.Last {
		if a.Last > b.Last {
			return -1
		}
		return 1
	}
	return 0
}

func (s *Sel) key(c *Commit) string {
	if s.Email {
		return c.Mapped.Email
	}
	return c.Mapped.Name
}

// Table is the expected content of the table view.
func (r *Repo) Table(s *Sel) map[string]*Tally {
	m := map[string]*Tally{}
	for _, c := range r.Selected(s) {
		if c.IsMerge() && !s.Merges {
			continue
		}
		k := s.key(c)
		t := m[k]
		if t == nil {
			t = newTally(k)
			m[k] = t
		}
		t.addCommit(c)
		for _, d := range c.Diffs {
			if s.PathOK(d.Path) {
				t.addDiff(c, d)
			}
		}
	}
	return m
}

func ranked(m map[string]*Tally, mode Mode) []*Tally {
	var ts []*Tally
	for _, k := range sortedKeys(m) {
		ts = append(ts, m[k])
	}
	sort.SliceStable(ts, func(i, j int) bool { return better(ts[i], ts[j], mode) < 0 })
	return ts
}
