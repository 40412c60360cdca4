package harness

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	reg("C30", "a case is a generated repository with generated commands, git-who being started in drawn other ways (by git, with git's own options, through aliases, with a git directory given, from a hook's environment, with odd standard input or file modes); every run is compared with a reference model of the history (diffs learned from git diff-tree). Non-trivial: git-who was not simply started in the directory of the repository.", c30)
}

func gitExecPath() string {
	out, err := exec.Command(gitBin, "--exec-path").Output()
	must(err)
	return strings.TrimSpace(string(out))
}

// Paths that mean the same whatever git is told about pathspecs.
var plainPath = regexp.MustCompile(`^[A-Za-z0-9_./][A-Za-z0-9_./ -]*$`)

func c30(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, pick(g, "name", []string{"repo", "repo", "re po"}))
	defer w.Close()
	r := g.Repo(GenOpts{Min: 2, Max: 10, Weird: 8, Fancy: 10, Merge: 12, Empty: 8, NoDirFile: true, NoTabs: true})
	w.Install(r)
	r.classes()
	if g.pct("mailmap", 35) {
		w.WriteFile(filepath.Join(w.Dir, ".mailmap"), []byte(g.Mailmap(r)))
		w.ApplyMailmap(r)
		class("repository mailmap")
	}
	var ig map[string]bool
	if g.pct("ignore", 35) {
		var data string
		data, ig = g.IgnoreFile(r)
		w.WriteFile(filepath.Join(w.Dir, ".git-blame-ignore-revs"), []byte(data))
		class("ignore file")
	}
	// git finds git-who in the PATH.
	bin := filepath.Join(w.Root, "bin")
	must(os.Mkdir(bin, 0o755))
	must(os.Symlink(whoBin, filepath.Join(bin, "git-who")))
	w.step(fmt.Sprintf(`mkdir %s; ln -s "$(realpath "$GIT_WHO")" %s/git-who`, w.q(bin), w.q(bin)))
	nested := g.pct("nested", 15)
	if nested {
		// The repository lies in the work tree of another one, whose files are
		// none of its business.
		class("inside another repository")
		outer := filepath.Dir(w.Dir)
		w.InitRepo(outer, "main")
		var mm, ign strings.Builder
		for _, c := range r.Commits {
			fmt.Fprintf(&mm, "Outer <outer@x> <%s>\n", c.Author.Email)
			fmt.Fprintf(&ign, "%s\n", c.Hash)
		}
		w.WriteFile(filepath.Join(outer, ".mailmap"), []byte(mm.String()))
		w.WriteFile(filepath.Join(outer, ".git-blame-ignore-revs"), []byte(ign.String()))
		w.WriteFile(filepath.Join(outer, ".gitattributes"), []byte("* -diff\n"))
		w.sh("git -C %s add -A .mailmap .git-blame-ignore-revs .gitattributes", w.q(outer))
	}
	gitDir := filepath.Join(w.Dir, ".git")
	lost := false
	if g.pct("core.worktree", 10) {
		class("core.worktree")
		to := filepath.Join(w.Root, "elsewhere.git")
		w.sh("mv %s %s; git --git-dir=%s config core.worktree %s; echo gitdir: %s > %s", w.q(gitDir), w.q(to), w.q(to), w.q(w.Dir), w.q(to), w.q(gitDir))
		gitDir = to
		if g.pct("nothing leads there", 50) {
			// As some keep the history of their home directory
			class("work tree that does not know its repository")
			lost = true
		}
	}
	dirs := append([]string{""}, r.worktreeDirs()...)
	for i := 0; i < 4; i++ {
		s := r.SelHead()
		s.Ignore = ig
		s.Sep = true
		s.Prefix = pick(g, "prefix", dirs)
		if g.pct("root", 50) {
			s.Prefix = ""
		}
		top := filepath.Join(w.Dir, s.Prefix)
		if fi, err := os.Stat(top); err != nil || !fi.IsDir() {
			continue
		}
		if g.pct("revs", 20) {
			s.Revs, s.Set = g.Revs(r)
		}
		if g.pct("paths", 40) {
			s.Paths = g.Paths(r, s.Prefix, 1, 2)
		}
		s.Prepare(w, r)
		s.Email = g.pct("email", 25)
		s.Merges = g.pct("merges", 15)
		o := g.Opts(w)
		o.Path = bin
		o.Cwd = top
		plain := true
		for _, p := range s.Paths {
			plain = plain && !p.Exclude && !p.wild() && plainPath.MatchString(p.Arg)
		}
		var how []string
		saw := func(f string) { how = append(how, f); class(f) }
		// Options git is given before the command.
		var opts []string
		for j, k := 0, g.uni("options", 3); j < k; j++ {
			switch g.uni("option", 9) {
			case 0:
				opts = append(opts, "--no-pager")
			case 1:
				opts = append(opts, "-p")
			case 2:
				kv := pick(g, "setting", display)
				if kv[1] == "ORDER" {
					continue
				}
				opts = append(opts, "-c", kv[0]+"="+kv[1])
			case 3:
				opts = append(opts, "--no-optional-locks")
			case 4:
				opts = append(opts, "--namespace=other")
			case 5, 6:
				if !plain {
					continue
				}
				plain = false // one of these only
				opts = append(opts, pick(g, "pathspecs", []string{"--literal-pathspecs", "--noglob-pathspecs", "--glob-pathspecs"}))
			case 7:
				opts = append(opts, "--config-env=color.ui=TERM")
				o.Env = append(o.Env, "TERM=always")
			case 8:
				opts = append(opts, "--no-replace-objects")
			}
			saw("git option " + strings.SplitN(opts[len(opts)-1], "=", 2)[0])
		}
		restore := false
		elsewhere := []string{w.Root, w.Home, "/", gitDir, filepath.Dir(w.Dir)}
		start := g.uni("start", 10)
		if lost {
			start = 4 + g.uni("start", 2)
		}
		switch start {
		case 0:
			if len(opts) > 0 {
				o.Cmd = append(append([]string{"git"}, opts...), "who")
			}
		case 1, 2:
			saw("git who")
			o.Cmd = append(append([]string{"git"}, opts...), "who")
		case 3:
			saw("git -C")
			o.Cwd = pick(g, "elsewhere", elsewhere)
			dir := top
			if o.Cwd == "/" && g.pct("relative", 50) {
				dir = dir[1:]
			} else if o.Cwd == filepath.Dir(w.Dir) && g.pct("relative", 50) {
				dir = filepath.Join(filepath.Base(w.Dir), s.Prefix)
			}
			o.Cmd = append(append([]string{"git", "-C", dir}, opts...), "who")
		case 4:
			saw("git --git-dir")
			gd := gitDir
			wt := w.Dir
			if s.Prefix == "" && g.pct("relative", 60) {
				gd, wt = ".git", "."
				if gitDir != filepath.Join(w.Dir, ".git") {
					gd = filepath.Join("..", "..", "elsewhere.git")
				}
			} else if s.Prefix != "" && g.pct("relative", 30) {
				wt = strings.TrimSuffix(strings.Repeat("../", strings.Count(s.Prefix, "/")+1), "/")
			}
			args := []string{"git", "--git-dir=" + gd, "--work-tree=" + wt}
			if s.Prefix == "" && g.pct("no work tree", 40) {
				args = args[:2]
			}
			o.Cmd = append(append(args, opts...), "who")
		case 5:
			saw("environment of a hook")
			o.Env = append(o.Env, "GIT_DIR="+gitDir, "GIT_INDEX_FILE="+filepath.Join(gitDir, "index"), "GIT_PREFIX=", "GIT_EXEC_PATH="+gitExecPath(), "GIT_REFLOG_ACTION=x", "GIT_EDITOR=:", "GIT_AUTHOR_DATE=@1 +0000")
			if s.Prefix != "" || g.pct("worktree", 30) {
				o.Env = append(o.Env, "GIT_WORK_TREE="+w.Dir)
			} else if gitDir == filepath.Join(w.Dir, ".git") {
				o.Env[len(o.Env)-7] = "GIT_DIR=.git"
			}
			if g.pct("other index", 30) {
				// As during git commit <paths>
				class("other index file")
				index := filepath.Join(w.Root, "index")
				w.sh("cp %s %s", w.q(filepath.Join(gitDir, "index")), w.q(index))
				w.sh("git --git-dir=%s read-tree --empty", w.q(gitDir))
				o.Env = append(o.Env, "GIT_INDEX_FILE="+index)
				restore = true
			}
		case 6:
			saw("alias")
			how := pick(g, "alias", []string{"who", "who", "!git-who", "!git who"})
			if how[0] == '!' && s.Prefix != "" {
				how = "who" // would run at the root
			}
			o.Cmd = append(append([]string{"git", "-c", "alias.contributors=" + how}, opts...), "contributors")
		case 7:
			saw("other limits of the process")
			o.Wrap = []string{"sh", "-c", pick(g, "limit", []string{"umask 777; ", "umask 077; ", "ulimit -n 64; ", "ulimit -c 0; ", "cd .; unset PWD; ", "unset HOME; "}) + `exec "$0" "$@"`}
		case 8:
			saw("standard input closed")
			o.Wrap = []string{"sh", "-c", pick(g, "closed", []string{`exec "$0" "$@" <&-`, `exec "$0" "$@" 2>&-`, `exec "$0" "$@" <&- 2>&-`})}
		case 9:
			saw("under another name")
			o.Cmd = []string{filepath.Join(w.Root, pick(g, "as", []string{"who", "git who", "x"}))}
			if _, err := os.Lstat(o.Cmd[0]); err != nil {
				must(os.Symlink(whoBin, o.Cmd[0]))
				w.step(fmt.Sprintf(`ln -s "$(realpath "$GIT_WHO")" %s`, w.q(o.Cmd[0])))
			}
		}
		if g.pct("ceiling", 10) {
			saw("GIT_CEILING_DIRECTORIES")
			o.Env = append(o.Env, "GIT_CEILING_DIRECTORIES="+filepath.Dir(w.Dir))
		}
		// Standard input belongs to whoever started git-who.
		if len(o.Wrap) == 0 && g.pct("stdin", 40) {
			f := filepath.Join(w.Root, "stdin")
			w.WriteFile(f, []byte(strings.Repeat(r.Commits[0].Hash+"\n", 2000)))
			h, err := os.Open(f)
			must(err)
			o.Stdin = h
			saw("data on standard input")
		}
		v := g.View("cctrrh")
		if lost {
			w.sh("mv %s %s", w.q(filepath.Join(w.Dir, ".git")), w.q(filepath.Join(w.Root, "link")))
		}
		res := w.Ask(r, s, v, o)
		if lost {
			w.sh("mv %s %s", w.q(filepath.Join(w.Root, "link")), w.q(filepath.Join(w.Dir, ".git")))
		}
		if restore {
			w.sh("cp %s %s", w.q(filepath.Join(w.Root, "index")), w.q(filepath.Join(gitDir, "index")))
		}
		if o.Stdin != nil {
			at, err := o.Stdin.Seek(0, io.SeekCurrent)
			must(err)
			o.Stdin.Close()
			if at != 0 {
				w.Fail("%d bytes of standard input are gone\n%s", at, res)
			}
		}
		w.mark(len(how) > 0 || nested, "%s: %s, %s in %q", summary(r), cmdline(res), strings.Join(how, ", "), s.Prefix)
	}
}
