package harness

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"pgregory.net/rapid"
)

func init() {
	common := "a case is a generated repository with generated commands; every run is compared with a reference model of the history (diffs learned from git diff-tree). "
	reg("C26", common+"Each run gets drawn git settings and variables. Non-trivial: at least one of them is set.", c26)
	reg("C27", common+"Between runs the repository is stored in drawn other ways. Non-trivial: at least one change of storage came before the run.", c27)
	reg("C28", common+"Standard output is a pseudo-terminal. Non-trivial: progress was shown, or the history is small.", c28)
}

// ---------------------------------------------------------------- C26

// Settings that change how git presents commits or where it gets help, but not
// what the commits contain.
var display = [][2]string{
	{"log.showRoot", "false"}, {"diff.relative", "true"}, {"log.follow", "true"}, {"i18n.logOutputEncoding", "ISO-8859-1"},
	{"i18n.logOutputEncoding", "UTF-16"}, {"i18n.commitEncoding", "ISO-8859-1"}, {"log.showSignature", "true"}, {"log.showSignature", "true"}, {"color.ui", "always"}, {"color.diff", "always"},
	{"log.date", "iso"}, {"log.date", "relative"}, {"log.date", "format:%Y"}, {"log.decorate", "full"}, {"format.pretty", "oneline"},
	{"format.pretty", "fuller"}, {"core.quotePath", "false"}, {"core.quotePath", "true"}, {"diff.noprefix", "true"},
	{"diff.mnemonicPrefix", "true"}, {"log.showSignature", "true"}, {"log.diffMerges", "first-parent"}, {"log.diffMerges", "combined"},
	{"log.diffMerges", "separate"}, {"log.mailmap", "false"}, {"log.mailmap", "true"}, {"column.ui", "always"}, {"core.abbrev", "40"},
	{"core.abbrev", "no"}, {"core.abbrev", "4"}, {"log.abbrevCommit", "true"}, {"core.pager", "false"}, {"pager.log", "true"},
	{"pager.config", "true"}, {"diff.context", "0"}, {"diff.interHunkContext", "9"}, {"diff.wordRegex", "."}, {"diff.external", "false"},
	{"diff.submodule", "log"}, {"diff.submodule", "diff"}, {"diff.statGraphWidth", "1"}, {"diff.dirstat", "files"}, {"notes.displayRef", "*"},
	{"log.excludeDecoration", "*"}, {"blame.ignoreRevsFile", "/nonexistent"}, {"diff.colorMoved", "zebra"}, {"log.graphColors", "red"},
	{"alias.log", "!false"}, {"alias.ls-files", "!false"}, {"alias.rev-list", "!false"}, {"diff.wsErrorHighlight", "all"}, {"core.commentChar", "@"},
	{"user.name", "Somebody Else"}, {"user.email", "else@x"}, {"core.untrackedCache", "true"}, {"status.short", "true"}, {"core.warnAmbiguousRefs", "false"},
	{"diff.suppressBlankEmpty", "true"}, {"log.initialDecorationSet", "all"}, {"diff.trustExitCode", "true"}, {"grep.fullName", "true"},
	{"diff.tool", "none"}, {"core.editor", "false"}, {"pack.threads", "1"}, {"core.logAllRefUpdates", "true"}, {"merge.renames", "false"},
	{"status.renames", "false"}, {"diff.statNameWidth", "3"}, {"submodule.recurse", "true"}, {"core.checkStat", "minimal"},
	{"push.default", "nothing"}, {"gpg.program", "false"}, {"help.autoCorrect", "immediate"}, {"diff.orderFile", "ORDER"},
}

var displayEnv = []string{
	"GIT_PAGER=false", "PAGER=false", "LC_ALL=C.UTF-8", "LANG=de_DE.UTF-8", "NO_COLOR=1", "TERM=dumb", "TERM=xterm-256color", "COLUMNS=20", "LINES=3",
	"GIT_EXTERNAL_DIFF=false", "GIT_DIFF_OPTS=-u0", "GIT_NOTES_REF=refs/notes/x", "GIT_FLUSH=1", "GIT_FLUSH=0", "GIT_EDITOR=false",
	"GIT_AUTHOR_NAME=Nobody", "GIT_AUTHOR_EMAIL=nobody@x", "GIT_COMMITTER_NAME=Nobody", "GIT_AUTHOR_DATE=2001-01-01T00:00:00Z",
	"CLICOLOR_FORCE=1", "GIT_TRACE=1", "GIT_TRACE_SETUP=1", "GIT_TRACE_PERFORMANCE=1", "GIT_MERGE_VERBOSITY=5", "LESS=F", "GIT_PROTOCOL=version=0",
	"GIT_COLUMNS=10", "CI=true", "GIT_NO_LAZY_FETCH=1", "GIT_ATTR_NOSYSTEM=1", "GIT_DISCOVERY_ACROSS_FILESYSTEM=1", "GIT_PAGER_IN_USE=1",
}

// latin1 makes commits whose author can be written in ISO-8859-1 be so.
func (g G) latin1(r *Repo, pct int) {
	n := 0
	for _, c := range r.Commits {
		ok, special := true, false
		for _, x := range c.Author.Name + c.Author.Email {
			ok = ok && x < 256
			special = special || x >= 0xa0
		}
		if ok && special && g.pct("latin1", pct) {
			c.Latin1 = true
			n++
		}
	}
	classIf(n > 0, "commits in another encoding")
}

func c26(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 2, Max: 10, Weird: 10, Fancy: 35, Merge: 10, Empty: 8, NoDirFile: true, NoTabs: true})
	if g.pct("accents", 50) {
		n := pick(g, "name", []string{"José Núñez", "Zoë", "Ångström Ö", "Jürgen Groß"})
		for _, c := range r.Commits {
			if c.Author != (Ident{}) && g.pct("accent", 40) {
				c.Author.Name = n
			}
		}
		r.NoMailmap()
	}
	g.latin1(r, 30)
	if g.pct("signed", 50) {
		for _, c := range r.Commits {
			c.Signed = g.pct("sign", 50)
		}
	}
	w.Install(r)
	r.classes()
	gpg := filepath.Join(w.Home, "gpg")
	w.WriteFile(gpg, []byte("#!/bin/sh\ncat >/dev/null\necho 'gpg: Signature made long ago' >&2\nexit 1\n"))
	must(os.Chmod(gpg, 0o755))
	w.step("chmod +x " + w.q(gpg))
	var ig map[string]bool
	if g.pct("ignore", 25) {
		var data string
		data, ig = g.IgnoreFile(r)
		w.WriteFile(filepath.Join(w.Dir, ".git-blame-ignore-revs"), []byte(data))
		class("ignore file")
	}
	mapped := g.pct("mailmap", 30)
	if mapped {
		w.WriteFile(filepath.Join(w.Dir, ".mailmap"), []byte(g.Mailmap(r)))
		w.ApplyMailmap(r)
	}
	dirs := append([]string{""}, r.worktreeDirs()...)
	files := sortedKeys(r.Index())
	for i := 0; i < 3; i++ {
		o := g.Opts(w)
		var names []string
		if i == 0 || g.pct("set", 80) {
			var set [][2]string
			for j, k := 0, 1+g.uni("settings", 5); j < k; j++ {
				kv := display[0]
				if g.pct("risky", 40) {
					kv = pick(g, "setting", display[:9])
				} else {
					kv = pick(g, "setting", display)
				}
				if mapped && g.pct("mailmap off", 25) {
					kv = [2]string{"log.mailmap", "false"}
				}
				if kv[1] == "ORDER" {
					kv[1] = filepath.Join(w.Home, "order")
					w.WriteFile(kv[1], []byte("*.txt\n*.md\n"))
				}
				if kv[0] == "log.showSignature" && g.pct("gpg", 80) {
					set = append(set, [2]string{"gpg.program", gpg})
				}
				set = append(set, kv)
				names = append(names, kv[0]+"="+kv[1])
				class("setting " + kv[0])
			}
			switch g.uni("where", 3) {
			case 0: // the user's configuration
				var b strings.Builder
				for _, kv := range set {
					j := strings.Index(kv[0], ".")
					fmt.Fprintf(&b, "[%s]\n\t%s = \"%s\"\n", kv[0][:j], kv[0][j+1:], kv[1])
				}
				f := filepath.Join(w.Home, fmt.Sprintf("config%d", i))
				w.WriteFile(f, []byte(b.String()))
				o.Env = append(o.Env, "GIT_CONFIG_GLOBAL="+f)
			default: // the environment
				o.Env = append(o.Env, fmt.Sprintf("GIT_CONFIG_COUNT=%d", len(set)))
				for j, kv := range set {
					o.Env = append(o.Env, fmt.Sprintf("GIT_CONFIG_KEY_%d=%s", j, kv[0]), fmt.Sprintf("GIT_CONFIG_VALUE_%d=%s", j, kv[1]))
				}
			}
		}
		if g.pct("env", 40) {
			for j, k := 0, 1+g.uni("vars", 3); j < k; j++ {
				e := pick(g, "var", displayEnv)
				o.Env = append(o.Env, e)
				names = append(names, e)
				class("variable " + strings.SplitN(e, "=", 2)[0])
			}
		}
		s := r.SelHead()
		s.Ignore = ig
		s.Sep = true
		if g.pct("sub", 35) {
			s.Prefix = pick(g, "prefix", dirs)
		}
		o.Cwd = filepath.Join(w.Dir, s.Prefix)
		if fi, err := os.Stat(o.Cwd); err != nil || !fi.IsDir() {
			continue
		}
		if len(files) > 0 && g.pct("one", 25) {
			p := pick(g, "file", files)
			if !strings.HasPrefix(p, ":") {
				class("a single file")
				s.Paths = []PathArg{{Path: p, Arg: relTo(s.Prefix, p)}}
			}
		} else if g.pct("paths", 15) {
			s.Paths = g.Paths(r, s.Prefix, 1, 2)
		}
		s.Prepare(w, r)
		if g.pct("filters", 15) || mapped && g.pct("filter mapped", 40) {
			g.Filters(r, s)
		}
		s.Email = g.pct("email", 25)
		v := g.View("cctrh")
		v.Debug = g.pct("debug", 10)
		classIf(v.Debug, "-v")
		res := w.Ask(r, s, v, o)
		w.mark(len(names) > 0, "%s: %s with %s", summary(r), cmdline(res), strings.Join(names, " "))
	}
}

// ---------------------------------------------------------------- C27

func c27(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	r := g.Repo(GenOpts{Min: 3, Max: 14, Weird: 10, Fancy: 10, Merge: 15, Empty: 8, NoDirFile: true, NoTabs: true})
	w.Install(r)
	r.classes()
	run := func(dir string, args ...string) {
		if _, err := w.gitTry(dir, nil, args...); err != nil {
			class("form impossible") // in combination with an earlier one
		}
		var q []string
		for _, a := range args {
			q = append(q, w.q(a))
		}
		w.step("git -C " + w.q(dir) + " " + strings.Join(q, " "))
	}
	saved := w.Dir
	defer func() { w.Dir = saved }()
	var did []string
	forms := []string{"repack", "commit-graph", "multi-pack-index", "pack-refs", "detached", "dirty", "git dir elsewhere", "clone", "sparse", "index v4", "split index", "lock", "GIT_DIR", "bitmap", "unrelated refs", "stash", "index flags", "conflict", "intent to add", "untracked cache", "moved", "cruft", "linked worktree", "submodule", "other object directory"}
	var env []string
	for i := 0; i < 4; i++ {
		for j, k := 0, g.uni("forms", 3)+min(i, 1); j < k; j++ {
			f := pick(g, "form", forms)
			switch f {
			case "repack":
				run(w.Dir, "repack", "-Adq")
			case "bitmap":
				run(w.Dir, "repack", "-Adqb")
			case "commit-graph":
				args := []string{"commit-graph", "write", "--reachable", "--no-progress"}
				if g.pct("bloom", 70) {
					args = append(args, "--changed-paths")
				}
				run(w.Dir, args...)
			case "multi-pack-index":
				run(w.Dir, "repack", "-q")
				run(w.Dir, "multi-pack-index", "write", "--no-progress")
			case "pack-refs":
				run(w.Dir, "pack-refs", "--all")
			case "detached":
				run(w.Dir, "checkout", "-q", "--detach")
			case "dirty":
				if fs := sortedKeys(r.Index()); len(fs) > 0 {
					p := filepath.Join(w.Dir, pick(g, "file", fs))
					if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() {
						if g.pct("delete", 40) {
							w.Remove(p)
						} else {
							w.WriteFile(p, []byte("changed in the work tree\n"))
						}
					}
				}
				w.WriteFile(filepath.Join(w.Dir, "untracked.new"), []byte("x\n"))
			case "git dir elsewhere":
				gd := filepath.Join(w.Dir, ".git")
				if fi, err := os.Lstat(gd); err != nil || !fi.IsDir() {
					continue
				}
				to := filepath.Join(w.Root, fmt.Sprintf("gitdir%d%d", i, j))
				must(os.Rename(gd, to))
				w.step(fmt.Sprintf("mv %s %s", w.q(gd), w.q(to)))
				if g.pct("symlink", 30) {
					must(os.Symlink(to, gd))
					w.step(fmt.Sprintf("ln -s %s %s", w.q(to), w.q(gd)))
				} else {
					w.WriteFile(gd, []byte("gitdir: "+to+"\n"))
				}
			case "clone":
				to := filepath.Join(w.Root, fmt.Sprintf("clone%d%d", i, j))
				mode := pick(g, "how", []string{"-s", "-l", "--no-local"})
				run(w.Root, "clone", "-q", mode, w.Dir, to)
				w.Dir = to
				env = nil
			case "sparse":
				if ds := r.worktreeDirs(); len(ds) > 0 {
					d := pick(g, "dir", ds)
					if strings.ContainsAny(d, "\\*?[]\"\t{}!# ") || strings.HasPrefix(d, "-") || strings.HasPrefix(d, ":") {
						continue
					}
					run(w.Dir, "sparse-checkout", "set", pick(g, "cone", []string{"--cone", "--no-cone"}), pick(g, "sparse", []string{"--sparse-index", "--no-sparse-index"}), "--", d)
				}
			case "index flags":
				if fs := sortedKeys(r.Index()); len(fs) > 0 {
					run(w.Dir, "update-index", pick(g, "flag", []string{"--assume-unchanged", "--skip-worktree", "--chmod=+x", "--fsmonitor-valid"}), "--", pick(g, "file", fs))
				}
			case "conflict":
				// as in the middle of a merge
				if fs := sortedKeys(r.Index()); len(fs) > 0 {
					f := pick(g, "file", fs)
					if strings.ContainsAny(f, "\"\t\n\\") {
						continue
					}
					blob := strings.TrimSpace(string(w.Git(w.Dir, []byte("a side of the conflict\n"), "hash-object", "-w", "--stdin")))
					var in strings.Builder
					fmt.Fprintf(&in, "0 %s\t%s\n", strings.Repeat("0", 40), f)
					for _, stage := range pick(g, "stages", [][]int{{1, 2, 3}, {2, 3}, {1, 2}, {3}}) {
						fmt.Fprintf(&in, "100644 %s %d\t%s\n", blob, stage, f)
					}
					if _, err := w.gitTry(w.Dir, []byte(in.String()), "update-index", "--index-info"); err != nil {
						class("form impossible")
					}
					w.step(fmt.Sprintf("echo a side of the conflict | git -C %s hash-object -w --stdin; printf %%s %s | git -C %s update-index --index-info", w.q(w.Dir), w.q(in.String()), w.q(w.Dir)))
				}
			case "intent to add":
				w.WriteFile(filepath.Join(w.Dir, "intended.new"), []byte("x\n"))
				run(w.Dir, "add", "-N", "intended.new")
			case "untracked cache":
				run(w.Dir, "update-index", "--force-untracked-cache")
				run(w.Dir, "-c", "feature.manyFiles=true", "status", "--porcelain")
			case "moved":
				if fi, err := os.Lstat(filepath.Join(w.Dir, ".git")); err != nil || !fi.IsDir() {
					continue
				}
				to := filepath.Join(w.Root, fmt.Sprintf("moved%d%d", i, j), pick(g, "name", []string{"repo", "other", "a b"}))
				must(os.MkdirAll(filepath.Dir(to), 0o755))
				must(os.Rename(w.Dir, to))
				w.step(fmt.Sprintf("mkdir -p %s; mv %s %s", w.q(filepath.Dir(to)), w.q(w.Dir), w.q(to)))
				w.Dir = to
				env = nil
			case "cruft":
				run(w.Dir, "repack", "-q", "--cruft", "-d")
				run(w.Dir, "prune-packed", "-q")
			case "linked worktree":
				to := filepath.Join(w.Root, fmt.Sprintf("linked%d%d", i, j))
				run(w.Dir, "worktree", "add", "-q", "--detach", to, "HEAD")
				if _, err := os.Stat(filepath.Join(to, ".git")); err == nil {
					w.Dir = to
					env = nil
				}
			case "submodule":
				super := filepath.Join(w.Root, fmt.Sprintf("super%d%d", i, j))
				run(w.Root, "init", "-q", super)
				run(super, "-c", "protocol.file.allow=always", "submodule", "--quiet", "add", w.Dir, "lib/sub")
				to := filepath.Join(super, "lib/sub")
				if _, err := os.Stat(filepath.Join(to, ".git")); err == nil {
					w.Dir = to
					env = nil
				}
			case "other object directory":
				gd := filepath.Join(w.Dir, ".git", "objects")
				if fi, err := os.Lstat(gd); err != nil || !fi.IsDir() || len(env) > 0 {
					continue
				}
				if _, err := os.Stat(filepath.Join(gd, "info", "alternates")); err == nil {
					continue // is relative to it
				}
				to := filepath.Join(w.Root, fmt.Sprintf("objects%d%d", i, j))
				must(os.Rename(gd, to))
				must(os.MkdirAll(gd, 0o755))
				w.step(fmt.Sprintf("mv %s %s; mkdir %s", w.q(gd), w.q(to), w.q(gd)))
				w.WriteFile(filepath.Join(gd, "info", "alternates"), []byte(to+"\n"))
			case "index v4":
				run(w.Dir, "update-index", "--index-version", "4")
			case "split index":
				run(w.Dir, "update-index", "--split-index")
			case "lock":
				gd := strings.TrimSpace(string(w.Git(w.Dir, nil, "rev-parse", "--absolute-git-dir")))
				w.WriteFile(filepath.Join(gd, pick(g, "lock", []string{"packed-refs.lock", "HEAD.lock"})), nil)
				class("form lock")
				did = append(did, f)
				// nothing that writes works from now on
				forms = []string{"dirty", "GIT_DIR"}
				continue
			case "GIT_DIR":
				env = []string{"GIT_DIR=" + filepath.Join(w.Dir, ".git")}
				if g.pct("worktree", 50) {
					env = append(env, "GIT_WORK_TREE="+w.Dir)
				}
			case "unrelated refs":
				tree := strings.TrimSpace(string(w.Git(w.Dir, nil, "rev-parse", "HEAD^{tree}")))
				h := strings.TrimSpace(string(w.Git(w.Dir, nil, "-c", "user.name=Stranger", "-c", "user.email=s@x", "commit-tree", "-m", "unrelated", tree)))
				w.step(fmt.Sprintf("H=$(git -C %s -c user.name=Stranger -c user.email=s@x commit-tree -m unrelated %s); git -C %s update-ref refs/remotes/o/x $H", w.q(w.Dir), tree, w.q(w.Dir)))
				w.Git(w.Dir, nil, "update-ref", "refs/remotes/o/x", h)
			case "stash":
				w.Git(w.Dir, nil, "-c", "user.name=S", "-c", "user.email=s@x", "notes", "add", "-f", "-m", "a note", "HEAD")
				w.step(fmt.Sprintf("git -C %s -c user.name=S -c user.email=s@x notes add -f -m 'a note' HEAD", w.q(w.Dir)))
			}
			class("form " + f)
			did = append(did, f)
		}
		s := r.SelHead()
		s.Sep = true
		switch g.uni("revs", 4) {
		case 0:
			s.Revs = []string{"HEAD"}
		case 1:
			if c := r.Commits[r.HeadCommit()]; len(c.Parents) > 0 {
				k := c.Parents[0]
				s.Revs = []string{r.Commits[k].Hash + "..HEAD"}
				set := append([]bool{}, s.Set...)
				for j, b := range r.ancestors(k) {
					set[j] = set[j] && !b
				}
				s.Set = set
			}
		}
		dirs := append([]string{""}, r.worktreeDirs()...)
		o := g.Opts(w)
		if len(env) == 0 && g.pct("sub", 25) {
			s.Prefix = pick(g, "prefix", dirs)
		}
		o.Cwd = filepath.Join(w.Dir, s.Prefix)
		if fi, err := os.Stat(o.Cwd); err != nil || !fi.IsDir() {
			continue
		}
		if g.pct("paths", 30) {
			s.Paths = g.Paths(r, s.Prefix, 1, 2)
		}
		s.Prepare(w, r)
		if g.pct("filters", 15) {
			g.Filters(r, s)
		}
		s.Email = g.pct("email", 25)
		o.Env = append(o.Env, env...)
		res := w.Ask(r, s, g.View("cctrrh"), o)
		w.mark(len(did) > 0, "%s: %s after %s", summary(r), cmdline(res), strings.Join(did, ", "))
	}
}

// ---------------------------------------------------------------- C28

var progressText = regexp.MustCompile(`^ {0,2}(\d+)% \((.*)/(.*) commits\)$`)

// screen interprets what was sent to a terminal: what is left on it, and every
// text that was taken back.
func screen(raw string) (left string, erased []string, bad string) {
	var done strings.Builder
	var line []rune
	col := 0
	for i := 0; i < len(raw); {
		if raw[i] == 0x1b {
			m := csi.FindString(raw[i:])
			if m == "" {
				return "", nil, fmt.Sprintf("unknown escape sequence %q", raw[i:min(len(raw), i+10)])
			}
			switch m[len(m)-1] {
			case 'm':
			case 'K':
				erased = append(erased, string(line))
				if m == "\x1b[2K" {
					for j := range line {
						line[j] = ' '
					}
					line = line[:min(col, len(line))]
				} else {
					return "", nil, fmt.Sprintf("unexpected sequence %q", m)
				}
			default:
				return "", nil, fmt.Sprintf("unexpected sequence %q", m)
			}
			i += len(m)
			continue
		}
		r, n := utf8.DecodeRuneInString(raw[i:])
		i += n
		switch r {
		case '\n':
			done.WriteString(string(line) + "\n")
			line, col = nil, 0
		case '\r':
			col = 0
			blank := true
			for _, x := range line {
				blank = blank && x == ' '
			}
			if blank {
				line = nil
			}
		default:
			for len(line) < col {
				line = append(line, ' ')
			}
			if col < len(line) {
				line[col] = r
			} else {
				line = append(line, r)
			}
			col++
		}
	}
	done.WriteString(string(line))
	return done.String(), erased, ""
}

var csi = regexp.MustCompile(`^\x1b\[[0-9;?]*[A-Za-z]`)

// WhoTTY runs git-who with its standard output on a terminal.
func (w *World) WhoTTY(o RunOpts, args ...string) Result {
	line := w.whoLine(o, args...)
	w.step("# with standard output on a terminal:")
	w.step(line)
	w.sig.WriteString("tty" + line)
	m, s, err := openPTY()
	if err != nil {
		infra("pty: %v", err)
	}
	defer m.Close()
	cmd := w.whoCmd(o, args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = s, &errb
	r := Result{Args: args, Opts: o, Start: time.Now()}
	if err := cmd.Start(); err != nil {
		infra("start git-who: %v", err)
	}
	s.Close()
	read := make(chan bool)
	go func() {
		io.Copy(&out, m) // ends with EIO when nobody has the terminal open
		close(read)
	}()
	pid := cmd.Process.Pid
	setLimit(pid, 0, cpuLimit)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(10 * time.Second):
		err, r.Hang = waitOrHang(pid, done)
	}
	r.End = time.Now()
	if r.Hang == "" {
		<-read
	}
	r.Out, r.Err = out.String(), errb.String()
	if err != nil {
		r.Code = 1
	}
	stMu.Lock()
	st.Runs++
	stMu.Unlock()
	return r
}

func openPTY() (m, s *os.File, err error) {
	m, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(f *os.File, req uintptr, p unsafe.Pointer) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
			return e
		}
		return nil
	}
	var lock, n int32
	if err = ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&lock)); err == nil {
		err = ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n))
	}
	if err == nil {
		s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	var t syscall.Termios
	if err = ioctl(s, syscall.TCGETS, unsafe.Pointer(&t)); err == nil {
		t.Oflag &^= syscall.OPOST // no CR before LF
		t.Lflag &^= syscall.ECHO
		err = ioctl(s, syscall.TCSETS, unsafe.Pointer(&t))
	}
	ws := [4]uint16{50, 100, 0, 0}
	if err == nil {
		err = ioctl(s, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
	}
	return m, s, err
}

func c28(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	var r *Repo
	n := 0
	if g.pct("small", 40) {
		r = g.Repo(GenOpts{Min: 1, Max: 12, Weird: 15, Fancy: 20, Merge: 10, Empty: 8, NoDirFile: true, NoTabs: true})
	} else {
		n = pick(g, "size", []int{2040, 2048, 2050, 3072, 3073, 4096, 4100, 5000})
		r = BigRepo(g.seed(), n, 3+g.uni("authors", 10))
	}
	w.Install(r)
	for i := 0; i < 2; i++ {
		s := r.SelHead()
		s.Sep = true
		if n > 0 && g.pct("part", 30) {
			k := n - 1 - g.uni("k", n/2)
			s.Revs, s.Set = []string{r.Commits[k].Hash}, r.ancestors(k)
		}
		s.Email = g.pct("email", 25)
		v := g.View("tttcrh")
		if g.pct("diff", 70) {
			v.Mode = pick(g, "mode", []Mode{ByLines, ByFiles})
		}
		o := RunOpts{Procs: pick(g, "procs", []int{1, 2, 2, 3}), NoCache: g.pct("nocache", 60)}
		raw := w.WhoTTY(o, v.Args(s)...)
		w.OK(raw)
		left, erased, bad := screen(raw.Out)
		if bad != "" {
			w.Fail("terminal output is not understood: %s\n%s", bad, raw)
		}
		last, count := -1, 0
		for _, e := range erased {
			e = strings.TrimRight(e, " ")
			if e == "" {
				continue
			}
			m := progressText.FindStringSubmatch(e)
			if m == nil {
				w.Fail("text was taken back that is no progress: %q\n%s", e, raw)
			}
			p, _ := strconv.Atoi(m[1])
			if p < last || p > 100 {
				w.Fail("progress goes from %d%% to %d%%\n%s", last, p, raw)
			}
			a, b := uncomma(m[2]), uncomma(m[3])
			if a < 0 || b < 0 || a > b {
				w.Fail("progress shows %q of %q commits\n%s", m[2], m[3], raw)
			}
			last = p
			count++
		}
		if count > 0 {
			class("progress shown")
			if last != 100 {
				w.Fail("progress ends at %d%%\n%s", last, raw)
			}
		}
		res := raw
		res.Out = left
		w.Check(res, r, s, v)
		o.TTY = g.pct("other terminals", 60)
		classIf(o.TTY, "standard error on a terminal, output not")
		piped := w.Ask(r, s, v, o)
		if x := plain(piped.Out); x != left && ageless(x) != ageless(left) {
			w.Fail("on a terminal there is something else left than in a pipe\n%s\n%s\non the screen:\n%s", raw, piped, left)
		}
		w.mark(count > 0 || n == 0, "%d commits: %s on a terminal, %d progress texts, GOMAXPROCS=%d", len(r.Commits), cmdline(res), count, o.Procs)
	}
}

func uncomma(s string) int {
	n, err := strconv.Atoi(strings.ReplaceAll(s, ",", ""))
	if err != nil {
		return -1
	}
	return n
}
