package harness

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// View is one way of asking git-who.
type View struct {
	Kind  string // table, tree, hist
	Mode  Mode
	CSV   bool
	All   bool
	Depth int
	Limit int  // -n; -1 means not given
	Plain bool // leave out the optional word "table"
	Debug bool // -v
}

func (v View) Args(s *Sel) []string {
	var a []string
	if v.Debug {
		a = append(a, v.debug())
	}
	if v.Kind != "table" || !v.Plain {
		a = append(a, v.Kind)
	}
	a = append(a, v.Mode.Flag()...)
	if v.CSV {
		a = append(a, "--csv")
	}
	if v.All {
		a = append(a, "-a")
	}
	if v.Depth != 0 {
		a = append(a, "-d", strconv.Itoa(v.Depth))
	}
	if v.Kind == "table" && v.Limit >= 0 {
		a = append(a, "-n", strconv.Itoa(v.Limit))
	}
	return append(a, s.Args()...)
}

// debug picks one of the spellings of the flag.
func (v View) debug() string {
	return []string{"-v", "--v"}[(len(v.Kind)+int(v.Mode))%2]
}

func (v View) String() string {
	return strings.TrimSpace(v.Kind + " " + strings.Join(v.Mode.Flag(), ""))
}

// View draws a view. kinds is a string of t (table), c (csv), r (tree), h (hist).
func (g G) View(kinds string) View {
	v := View{Limit: 0}
	switch kinds[g.uni("view", len(kinds))] {
	case 't':
		v.Kind = "table"
	case 'c':
		v.Kind, v.CSV = "table", true
	case 'r':
		v.Kind = "tree"
	case 'h':
		v.Kind = "hist"
	}
	switch v.Kind {
	case "hist":
		v.Mode = pick(g, "mode", []Mode{ByCommits, ByLines, ByFiles})
	default:
		v.Mode = pick(g, "mode", allModes)
	}
	if v.Kind == "tree" {
		v.All = g.pct("all", 30)
		if g.pct("deep", 20) {
			v.Depth = 1 + g.uni("depth", 4)
		}
	}
	if v.Kind == "table" {
		v.Plain = g.pct("plain", 40)
	}
	return v
}

// Opts draws how to run.
func (g G) Opts(w *World) RunOpts {
	return RunOpts{
		Procs:   pick(g, "procs", []int{1, 2, 4, 8}),
		NoCache: g.pct("nocache", 40),
	}
}

// Check validates a result against the model.
func (w *World) Check(res Result, r *Repo, s *Sel, v View) {
	switch {
	case v.Kind == "tree":
		w.checkTree(res, r, s, v.Mode, v.All, v.Depth)
	case v.Kind == "hist":
		w.checkHist(res, r, s, v.Mode)
	default:
		limit := v.Limit
		if limit < 0 {
			limit = 10
		}
		if v.CSV {
			w.checkCSV(res, r.Table(s), v.Mode, s.Email, limit)
		} else {
			w.checkTable(res, r.Table(s), v.Mode, s.Email, limit)
		}
	}
}

// Ask runs a view and checks it.
func (w *World) Ask(r *Repo, s *Sel, v View, o RunOpts) Result {
	if s.Prefix != "" && o.Cwd == "" {
		o.Cwd = filepath.Join(w.Dir, s.Prefix)
	}
	res := w.Who(o, v.Args(s)...)
	class(v.String())
	classIf(o.Procs == 1, "serial run")
	classIf(o.NoCache, "run without cache")
	w.Check(res, r, s, v)
	return res
}

// cacheFiles lists regular files below git-who's cache directory.
func (w *World) cacheFiles() []string {
	var out []string
	filepath.Walk(filepath.Join(w.Cache, "git-who"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			out = append(out, p)
		}
		return nil
	})
	return out
}

// lastingCacheFiles leaves out files other processes might still be using.
func (w *World) lastingCacheFiles() []string {
	var out []string
	for _, f := range w.cacheFiles() {
		if !strings.HasSuffix(f, ".tmp") {
			out = append(out, f)
		}
	}
	return out
}

func (s *Sel) clone() *Sel {
	c := *s
	return &c
}
