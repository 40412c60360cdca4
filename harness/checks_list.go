package harness

import (
	"fmt"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"time"

	"pgregory.net/rapid"
)

func init() {
	reg("C35", "a case is a generated repository of which generated selections (revisions, paths, filters, ignored commits, mailmap) are listed with the commands parse and dump; each listed commit, its author, date and kind, and each of its file changes with its line counts are compared with a reference model of the history. Non-trivial: several commits with changes are listed, with a merge, a rename, a binary file or an empty commit among them.", c35)
}

var parsedHead = regexp.MustCompile(`^\{ hash:([0-9a-f]{4,64}) author:`)

func c35(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	newlines := g.pct("newlines", 8)
	o := GenOpts{Min: 1, Max: 12, Weird: 30, Fancy: 25, Merge: 20, Empty: 12, NoDirFile: true, NoTabs: true, NoNobody: newlines || g.pct("somebody", 60)}
	r := g.Repo(o)
	g.latin1(r, 15)
	if newlines {
		class("paths with newlines")
		for i, n := 0, 1+g.uni("commits", 2); i < n; i++ {
			at := r.HeadCommit()
			tree := cloneTree(r.Commits[at].Tree)
			put(tree, pick(g, "name", []string{"a\nb", "a\nb\nc", "\nlead", "trail\n\n", "d\n/\nf"}), File{"100644", strings.Repeat("l\n", 1+i)})
			r.Commits = append(r.Commits, &Commit{Parents: []int{at}, Author: Ident{"New Line", "nl@x"}, ATime: 1600000100 + int64(i), ATZ: "+0000", CTime: 1600000100 + int64(i), Tree: tree})
			r.anc = nil
			r.Branches["main"] = len(r.Commits) - 1
			r.Head = "main"
		}
		r.NoMailmap()
	}
	w.Install(r)
	r.classes()
	if g.pct("mailmap", 30) {
		w.setMailmap(g, r)
	}
	var ig map[string]bool
	if g.pct("ignore", 25) {
		var data string
		data, ig = g.IgnoreFile(r)
		w.WriteFile(filepath.Join(w.Dir, ".git-blame-ignore-revs"), []byte(data))
	}
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		s.Sep = true
		s.Ignore = ig
		if g.pct("revs", 50) {
			s.Revs, s.Set = g.Revs(r)
		}
		if g.pct("cwd", 20) {
			if ds := r.worktreeDirs(); len(ds) > 0 {
				s.Prefix = pick(g, "prefix", ds)
			}
		}
		if g.pct("filters", 25) {
			g.Filters(r, s)
		}
		if !newlines && g.pct("paths", 25) {
			s.Paths = g.Paths(r, s.Prefix, 1, 2)
		}
		s.Prepare(w, r)
		ro := RunOpts{Cwd: filepath.Join(w.Dir, s.Prefix), Procs: pick(g, "procs", []int{1, 4}), TZ: pick(g, "tz", []string{"UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Kiritimati"})}
		short := g.pct("short", 25)
		verb := "parse"
		if newlines || g.pct("dump", 35) && settled(r, s) { // parse prints paths as they are
			verb = "dump"
			s.Ignore = nil
		}
		args := []string{verb}
		if short {
			args = append(args, "-s")
		}
		sel := r.Selected(s)
		res := w.Who(ro, append(args, s.Args()...)...)
		w.OK(res)
		var got []string
		if verb == "parse" {
			got = w.parsed(r, res)
		} else {
			got = w.dumped(r, res, len(s.Paths) > 0)
		}
		loc, err := time.LoadLocation(ro.TZ)
		must(err)
		var want []string
		special, changed := false, 0
		for _, c := range sel {
			var b strings.Builder
			if verb == "parse" {
				fmt.Fprintf(&b, "%s author:%s <%s> date:%s merge:%v", c.Hash, c.Mapped.Name, c.Mapped.Email, time.Unix(c.ATime, 0).In(loc).Format("Jan 2, 2006"), c.IsMerge())
			} else {
				var ps []string
				for _, p := range c.Parents {
					ps = append(ps, r.Commits[p].Hash)
				}
				fmt.Fprintf(&b, "%s parents %v author:%s <%s> date:%d", c.Hash, ps, c.Mapped.Name, c.Mapped.Email, c.ATime)
			}
			var ds []string
			for _, d := range c.Diffs {
				if short || c.IsMerge() || len(s.Paths) > 0 && (verb == "dump" || !s.PathOK(d.Path)) {
					continue
				}
				p := d.Path
				if verb == "dump" {
					p = strings.ReplaceAll(p, "\n", `\n`)
				}
				ds = append(ds, fmt.Sprintf("%q +%d -%d", p, d.Add, d.Del))
				special = special || d.From != "" || d.Binary
			}
			slices.Sort(ds)
			special = special || c.IsMerge() || len(ds) == 0
			if len(ds) > 0 || short {
				changed++
			}
			want = append(want, b.String()+"\n  "+strings.Join(ds, "\n  "))
		}
		slices.Sort(got)
		slices.Sort(want)
		for j := 0; j < len(got) || j < len(want); j++ {
			switch {
			case j >= len(got) || j < len(want) && want[j] < got[j]:
				w.Fail("missing or wrong in the list, or not what is listed for it:\n%s\n%s", want[j], res)
			case j >= len(want) || got[j] < want[j]:
				w.Fail("listed, but not expected so:\n%s\n%s", got[j], res)
			}
		}
		class(verb)
		classIf(short, verb+" -s")
		classIf(len(s.Paths) > 0, verb+" of paths")
		w.mark(changed > 1 && special, "%s: %s lists %d commits", summary(r), cmdline(res), len(sel))
	}
}

// full finds the commit an abbreviated hash stands for.
func (w *World) full(r *Repo, short string, res Result) string {
	found := ""
	for _, c := range r.Commits {
		if strings.HasPrefix(c.Hash, short) && c.Hash != found {
			if found != "" {
				w.Fail("%s may be one of two commits\n%s", short, res)
			}
			found = c.Hash
		}
	}
	if found == "" {
		w.Fail("%s is no commit\n%s", short, res)
	}
	return found
}

func (w *World) parsed(r *Repo, res Result) []string {
	var out, ds []string
	head := ""
	n := 0
	rest, end, ok := cutLast(res.Out, "Parsed ")
	if !ok {
		w.Fail("does not say how many commits were parsed\n%s", res)
	}
	for _, l := range strings.Split(rest, "\n") {
		switch {
		case l == "":
			if head != "" {
				slices.Sort(ds)
				out = append(out, head+"\n  "+strings.Join(ds, "\n  "))
			}
			head, ds = "", nil
		case head == "":
			m := parsedHead.FindStringSubmatch(l)
			if m == nil || !strings.HasSuffix(l, " }") {
				w.Fail("line is not understood: %q\n%s", l, res)
			}
			n++
			head = w.full(r, m[1], res) + " author:" + strings.TrimSuffix(l[len(m[0]):], " }")
		default:
			var add, del int
			l, ok := strings.CutPrefix(l, `  { path:"`)
			p, nums, ok2 := cutLast(l, `" added:`)
			if _, err := fmt.Sscanf(nums, "%d removed:%d }", &add, &del); !ok || !ok2 || err != nil {
				w.Fail("line is not understood: %q\n%s", l, res)
			}
			ds = append(ds, fmt.Sprintf("%q +%d -%d", p, add, del))
		}
	}
	if head != "" {
		w.Fail("list ends in the middle of a commit\n%s", res)
	}
	if want := fmt.Sprintf("%d commits.\n", n); end != want {
		w.Fail("lists %d commits and says %q\n%s", n, end, res)
	}
	return out
}

func cutLast(s, sep string) (string, string, bool) {
	i := strings.LastIndex(s, sep)
	if i < 0 {
		return s, "", false
	}
	return s[:i], s[i+len(sep):], true
}

func (w *World) dumped(r *Repo, res Result, noDiffs bool) []string {
	lines := strings.Split(strings.TrimSuffix(res.Out, "\n"), "\n")
	if strings.Trim(res.Out, "\n") == "" {
		lines = nil
	}
	i := 0
	next := func() string {
		if i >= len(lines) {
			w.Fail("output ends too early\n%s", res)
		}
		i++
		return lines[i-1]
	}
	var out []string
	for i < len(lines) {
		hash := next()
		if len(hash) != 40 || w.full(r, hash, res) != hash || w.full(r, next(), res) != hash {
			w.Fail("%q is no commit, or not abbreviated as itself\n%s", hash, res)
		}
		var ps []string
		for _, p := range strings.Fields(next()) {
			ps = append(ps, w.full(r, p, res))
		}
		head := fmt.Sprintf("%s parents %v author:%s <%s> date:%s", hash, ps, next(), next(), next())
		var ds []string
		for i < len(lines) && lines[i] != "" && strings.Contains(lines[i], "\t") {
			f := strings.SplitN(next(), "\t", 3)
			if len(f) != 3 {
				w.Fail("line is not understood: %q\n%s", lines[i-1], res)
			}
			if f[2] == "" {
				next()
				f[2] = next()
			}
			for j := range 2 {
				if f[j] == "-" {
					f[j] = "0"
				}
			}
			ds = append(ds, fmt.Sprintf("%q +%s -%s", f[2], f[0], f[1]))
		}
		if i < len(lines) && lines[i] == "" {
			i++
		}
		if noDiffs {
			ds = nil
		}
		slices.Sort(ds)
		out = append(out, head+"\n  "+strings.Join(ds, "\n  "))
	}
	return out
}
