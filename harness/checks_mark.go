package harness

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

func init() {
	reg("C32", "a case is a generated repository with generated commands for tables, trees and timelines; the emphasis (dim, inverted, green, red) of every character printed is compared with what a reference model of the history says it has to mean, after the text itself was compared with that model. Non-trivial: something is emphasized that has a meaning (rows of a long table, deleted paths, repeated authors, added and removed lines).", c32)
}

// cell is a printed character and its emphasis.
type cell struct {
	r        rune
	dim, inv bool
	color    byte // 0, 'g' or 'r'
}

var sgr = regexp.MustCompile("^\x1b\\[([0-9;]*)m")

// cells reads output with escape sequences; problem is what is wrong with them.
func cells(out string) (lines [][]cell, problem string) {
	for n, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		var row []cell
		var at cell
		for i := 0; i < len(l); {
			if l[i] == 0x1b {
				m := sgr.FindStringSubmatch(l[i:])
				if m == nil {
					return nil, fmt.Sprintf("line %d has an unknown escape sequence", n+1)
				}
				for _, p := range strings.Split(m[1], ";") {
					switch p {
					case "", "0":
						at = cell{}
					case "2":
						at.dim = true
					case "22":
						at.dim = false
					case "7":
						at.inv = true
					case "27":
						at.inv = false
					case "32":
						at.color = 'g'
					case "31":
						at.color = 'r'
					case "39":
						at.color = 0
					default:
						return nil, fmt.Sprintf("line %d has unknown emphasis %q", n+1, m[0])
					}
				}
				i += len(m[0])
				continue
			}
			var size int
			at.r, size = utf8.DecodeRuneInString(l[i:])
			row = append(row, at)
			i += size
			at.r = 0
		}
		if at != (cell{}) {
			return nil, fmt.Sprintf("line %d does not end its emphasis", n+1)
		}
		lines = append(lines, row)
	}
	return lines, ""
}

func text(row []cell) string {
	var b strings.Builder
	for _, c := range row {
		b.WriteRune(c.r)
	}
	return b.String()
}

// every tells whether f is true of all characters but blanks.
func every(row []cell, f func(cell) bool) bool {
	for _, c := range row {
		if c.r != ' ' && !f(c) {
			return false
		}
	}
	return true
}

func some(row []cell, f func(cell) bool) bool { return !every(row, func(c cell) bool { return !f(c) }) }

func isDim(c cell) bool     { return c.dim }
func isInv(c cell) bool     { return c.inv }
func isColored(c cell) bool { return c.color != 0 }
func isPlain(c cell) bool   { return !c.dim && !c.inv && c.color == 0 }

var amounts = regexp.MustCompile(`([0-9,.m>]+) / +([0-9,.m>]+)\)?│?$`)

// checkAmounts: added lines are green, removed ones red and nothing else has a
// color.
func checkAmounts(row []cell, want bool) string {
	if !want {
		if some(row, isColored) {
			return "has colors"
		}
		return ""
	}
	// All characters there are of one byte, but for the border.
	t := text(row)
	m := amounts.FindStringSubmatch(t)
	if m == nil {
		return "has no amounts"
	}
	end := len(row)
	for end > 0 && (row[end-1].r == '│' || row[end-1].r == ')') {
		end--
	}
	red := row[end-len(m[2]) : end]
	green := end
	for i := end - 1; i > 0; i-- {
		if row[i].r == '/' {
			green = i - 1
			break
		}
	}
	added := row[green-len(m[1]) : green]
	if !every(red, func(c cell) bool { return c.color == 'r' }) {
		return "does not show removed lines in red"
	}
	if !every(added, func(c cell) bool { return c.color == 'g' }) {
		return "does not show added lines in green"
	}
	if some(row[:green-len(m[1])], isColored) || some(row[green:end-len(m[2])], isColored) || some(row[end:], isColored) {
		return "has colors elsewhere"
	}
	return ""
}

var metricEnd = regexp.MustCompile(` \([^()]*\)$`)

func (w *World) checkMarks(res Result, r *Repo, s *Sel, v View) (meaning bool) {
	if res.Out == "" {
		return false
	}
	lines, problem := cells(res.Out)
	fail := func(i int, format string, a ...any) {
		w.Fail("line %d, %q, %s\n%s", i+1, text(lines[i]), fmt.Sprintf(format, a...), res)
	}
	if problem != "" {
		w.Fail("%s\n%s", problem, res)
	}
	switch v.Kind {
	case "table":
		n := len(r.Table(s))
		shown := n
		if v.Limit > 0 {
			shown = min(n, v.Limit)
		} else if v.Limit < 0 {
			shown = min(n, 10)
		}
		for i, row := range lines {
			if i < 3 || i >= 3+shown {
				if !every(row, isPlain) {
					fail(i, "is not a row, but has emphasis")
				}
				continue
			}
			if some(row, isDim) {
				fail(i, "is dim")
			}
			if shown > 14 && i%2 == 0 {
				meaning = true
				if !every(row[1:len(row)-1], isInv) {
					fail(i, "is not inverted")
				}
			} else if some(row, isInv) {
				fail(i, "is inverted")
			}
			if p := checkAmounts(row, v.Mode.Diff()); p != "" {
				fail(i, "%s", p)
			}
			meaning = meaning || v.Mode.Diff()
		}
	case "tree":
		depth := v.Depth
		if depth == 0 {
			depth = 100
		}
		want := r.Tree(s).lines(".", 0, depth, v.All, nil, -1, nil)
		for i, row := range lines {
			e := want[i]
			size := len([]rune(e.prefix))
			name, rest := row[e.indent:size], row[size:]
			if !every(row[:e.indent], isPlain) {
				fail(i, "has emphasized branches")
			}
			if some(row, isInv) {
				fail(i, "is inverted")
			}
			if e.n.present && some(name, isDim) {
				fail(i, "shows a path as deleted")
			}
			if !e.n.present && !every(name, isDim) {
				fail(i, "shows a path as existing")
			}
			meaning = meaning || !e.n.present
			if len(rest) == 0 {
				if some(row, isColored) {
					fail(i, "is colored")
				}
				continue
			}
			dots := 0
			for dots < len(rest) && rest[dots].r == '.' {
				dots++
			}
			if !every(rest[:min(4, dots)], isDim) {
				fail(i, "does not have dim dots")
			}
			for k, c := range rest[dots:] {
				// A name may begin with dots.
				if c.r != ' ' && c.dim != e.leaf {
					fail(i, "has wrong emphasis in its author and amount, character %d", k)
				}
			}
			if p := checkAmounts(row, v.Mode == ByLines); p != "" {
				fail(i, "%s", p)
			}
			meaning = meaning || e.leaf || v.Mode == ByLines
		}
	case "hist":
		short := map[string]map[string]bool{}
		for _, c := range r.Selected(s) {
			t := newTally(s.key(c))
			t.addCommit(c)
			l := t.label(s.Email)
			if short[l] == nil {
				short[l] = map[string]bool{}
			}
			short[l][t.Key] = true
		}
		last := "no one" + "\x00"
		for i, row := range lines {
			t := text(row)
			at := strings.Index(t, " ┤ ")
			k := len([]rune(t[:at])) + 3
			if !every(row[:k], isPlain) {
				fail(i, "has an emphasized period")
			}
			if strings.TrimSpace(t[at:]) == "┤" {
				continue
			}
			bar, rest := row[k:k+36], row[k+36:]
			if some(row, isInv) {
				fail(i, "is inverted")
			}
			if some(bar, isColored) || !every(bar, func(c cell) bool { return c.dim == (c.r == '-') }) {
				fail(i, "has a bar with wrong emphasis")
			}
			label := strings.TrimPrefix(metricEnd.ReplaceAllString(text(rest), ""), "  ")
			switch {
			case label == last && len(short[label]) != 1:
				// Several people look alike.
			case label == last && !every(rest, isDim):
				fail(i, "does not fade the same author")
			case label != last && some(rest, isDim):
				fail(i, "fades another author")
			}
			meaning = meaning || label == last || v.Mode == ByLines
			last = label
			if p := checkAmounts(row, v.Mode == ByLines); p != "" {
				fail(i, "%s", p)
			}
		}
	}
	return meaning
}

func c32(t *rapid.T) {
	g := G{t}
	w := NewWorld(t, "repo")
	defer w.Close()
	var r *Repo
	switch g.uni("size", 8) {
	case 0:
		r = BigRepo(g.seed(), 30+g.uni("n", 120), 8+g.uni("authors", 40))
		class("many authors")
	default:
		r = g.Repo(GenOpts{Min: 2, Max: 16, Weird: 10, Fancy: 25, Merge: 10, Empty: 8, Idents: 3 + g.uni("idents", 20), NoTabs: true})
	}
	w.Install(r)
	r.classes()
	for _, c := range r.Commits {
		if strings.Contains(c.Mapped.Name+c.Mapped.Email, "\x1b") {
			t.Skip("escape sequences in names")
		}
	}
	for _, p := range r.AllPaths() {
		if strings.Contains(p, "\x1b") {
			t.Skip("escape sequences in paths")
		}
	}
	for i := 0; i < 3; i++ {
		s := r.SelHead()
		s.Sep = true
		if g.pct("paths", 25) {
			s.Paths = g.Paths(r, "", 1, 2)
		}
		s.Prepare(w, r)
		s.Email = g.pct("email", 25)
		s.Merges = g.pct("merges", 15)
		v := g.View("trrhh")
		if v.Kind == "table" {
			v.Plain = false
			v.Limit = pick(g, "limit", []int{-1, 0, 0, 0, 14, 15, 16, 17})
		}
		res := w.Ask(r, s, v, g.Opts(w))
		meaning := w.checkMarks(res, r, s, v)
		w.mark(meaning, "%s: %s", summary(r), cmdline(res))
	}
}
