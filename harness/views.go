package harness

import (
	"encoding/csv"
	"fmt"
	"math"
	"path"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	runewidth "github.com/mattn/go-runewidth"
)

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")

func plain(s string) string { return ansi.ReplaceAllString(s, "") }

// ---------------------------------------------------------------- formats

// number is how counts have to be shown.
func number(n int) string {
	switch {
	case n >= 100_000_000:
		return ">99m"
	case n >= 1_000_000:
		return fmt.Sprintf("%.1fm", float32(n)/1e6)
	case n >= 1000:
		return fmt.Sprintf("%d,%03d", n/1000, n%1000)
	}
	return strconv.Itoa(n)
}

func ageAt(now time.Time, unix int64) string {
	d := now.Sub(time.Unix(unix, 0))
	const day = 24 * time.Hour
	unit := func(n time.Duration, one, many string) string {
		if n == 1 {
			return "1 " + one + " ago"
		}
		return fmt.Sprintf("%d %s ago", n, many)
	}
	switch {
	case d < time.Hour:
		return unit(d/time.Minute, "min.", "min.")
	case d < day:
		return unit(d/time.Hour, "hour", "hr.")
	case d < 7*day:
		return unit(d/day, "day", "days")
	case d < 30*day:
		return unit(d/(7*day), "week", "weeks")
	case d < 365*day:
		return unit(d/(30*day), "month", "mon.")
	case d/(365*day) > 99:
		return ">99 yr. ago"
	}
	return unit(d/(365*day), "year", "yr.")
}

// ages are the texts that are right at some moment of the run.
func (r Result) ages(unix int64) []string {
	a, b := ageAt(r.Start, unix), ageAt(r.End, unix)
	if a == b {
		return []string{a}
	}
	return []string{a, b}
}

func abbrev(s string, width int) string { return runewidth.Truncate(s, width, "…") }

// ---------------------------------------------------------------- table, CSV

func csvHeader(mode Mode, email bool) []string {
	h := []string{"name"}
	if email {
		h = append(h, "email")
	}
	h = append(h, "commits")
	if mode.Diff() {
		h = append(h, "lines added", "lines removed", "files")
	}
	return append(h, "last commit time", "first commit time")
}

// parseCSV reads the records; the header must be exact.
func (w *World) parseCSV(res Result, mode Mode, email bool) [][]string {
	w.OK(res)
	rd := csv.NewReader(strings.NewReader(res.Out))
	recs, err := rd.ReadAll()
	if err != nil {
		w.Fail("output is not valid CSV: %v\n%s", err, res)
	}
	want := csvHeader(mode, email)
	if len(recs) == 0 || !slices.Equal(recs[0], want) {
		w.Fail("CSV header is not %q\n%s", want, res)
	}
	return recs[1:]
}

// checkCSV compares CSV output with the expected tallies. limit 0 means all.
func (w *World) checkCSV(res Result, m map[string]*Tally, mode Mode, email bool, limit int) {
	recs := w.parseCSV(res, mode, email)
	want := len(m)
	if limit > 0 && limit < want {
		want = limit
	}
	if len(recs) != want {
		w.Fail("%d rows instead of %d; expected authors:\n%s\n%s", len(recs), want, describe(m, mode), res)
	}
	seen := map[string]bool{}
	var shown []*Tally
	for _, rec := range recs {
		key := rec[0]
		i := 1
		if email {
			key = rec[1]
			i = 2
		}
		t := m[key]
		if t == nil {
			w.Fail("row %q is not one of the expected authors:\n%s\n%s", rec, describe(m, mode), res)
		}
		if seen[key] {
			w.Fail("author %q is listed twice\n%s", key, res)
		}
		seen[key] = true
		shown = append(shown, t)
		if email && !t.Names[rec[0]] {
			w.Fail("row %q: %q is not a name of %q (%q)\n%s", rec, rec[0], key, sortedKeys(t.Names), res)
		}
		ok := rec[i] == strconv.Itoa(len(t.Commits))
		if mode.Diff() {
			ok = ok && rec[i+1] == strconv.Itoa(t.Add) && rec[i+2] == strconv.Itoa(t.Del) && rec[i+3] == strconv.Itoa(len(t.Files))
			i += 3
		}
		for j, want := range []int64{t.Last, t.First} {
			x, err := time.Parse(time.RFC3339, rec[i+1+j])
			ok = ok && err == nil && x.Unix() == want
		}
		if !ok {
			w.Fail("row %q is wrong; expected:\n%s\n%s", rec, describe(m, mode), res)
		}
	}
	w.checkRanking(res, shown, m, mode)
}

// checkRanking demands that shown is a prefix of a ranking of m.
func (w *World) checkRanking(res Result, shown []*Tally, m map[string]*Tally, mode Mode) {
	in := map[*Tally]bool{}
	for i, t := range shown {
		in[t] = true
		if i > 0 && better(t, shown[i-1], mode) < 0 {
			w.Fail("%q is ranked below %q; expected ranking:\n%s\n%s", t.Key, shown[i-1].Key, describe(m, mode), res)
		}
	}
	if len(shown) == 0 {
		return
	}
	for _, t := range m {
		if !in[t] && better(t, shown[len(shown)-1], mode) < 0 {
			w.Fail("%q is left out but ranks above %q; expected ranking:\n%s\n%s", t.Key, shown[len(shown)-1].Key, describe(m, mode), res)
		}
	}
}

func describe(m map[string]*Tally, mode Mode) string {
	var b strings.Builder
	for _, t := range ranked(m, mode) {
		fmt.Fprintf(&b, "  %q names %q commits %d +%d -%d files %d last %d %s first %d %s\n", t.Key, sortedKeys(t.Names), len(t.Commits), t.Add, t.Del, len(t.Files),
			t.Last, time.Unix(t.Last, 0).UTC().Format(time.RFC3339), t.First, time.Unix(t.First, 0).UTC().Format(time.RFC3339))
	}
	return b.String()
}

// ---------------------------------------------------------------- table, text

func tableWidth(mode Mode, email bool) int {
	if mode.Diff() || email {
		return 80
	}
	return 55
}

// checkTable compares the text table with the expected tallies.
func (w *World) checkTable(res Result, m map[string]*Tally, mode Mode, email bool, limit int) {
	w.OK(res)
	if len(m) == 0 {
		if res.Out != "" {
			w.Fail("there are no rows, but something is printed\n%s", res)
		}
		return
	}
	width := tableWidth(mode, email)
	if !strings.HasSuffix(res.Out, "\n") {
		w.Fail("table does not end with a newline\n%s", res)
	}
	lines := strings.Split(strings.TrimSuffix(plain(res.Out), "\n"), "\n")
	for _, l := range lines {
		if x := runewidth.StringWidth(l); x != width {
			w.Fail("line %q is %d columns wide, not %d\n%s", l, x, width, res)
		}
	}
	rule := strings.Repeat("─", width-2)
	edit := "Last Edit"
	if mode == ByFirst {
		edit = "First Edit"
	}
	acol := width - 22
	head := fmt.Sprintf("│%-*s %-11s %7s│", acol, "Author", edit, "Commits")
	if mode.Diff() {
		acol = width - 49
		head = fmt.Sprintf("│%-*s %-11s %7s %7s  %17s│", acol, "Author", edit, "Commits", "Files", "Lines (+/-)")
	}
	rows := len(m)
	left := 0
	if limit > 0 && limit < rows {
		left = rows - limit
		rows = limit
	}
	want := rows + 4
	if left > 0 {
		want++
	}
	if len(lines) != want {
		w.Fail("table has %d lines instead of %d (%d rows, %d left out)\n%s", len(lines), want, rows, left, res)
	}
	if lines[0] != "┌"+rule+"┐" || lines[1] != head || lines[2] != "├"+rule+"┤" || lines[len(lines)-1] != "└"+rule+"┘" {
		w.Fail("frame or header is wrong\n%s", res)
	}
	if left > 0 {
		msg := fmt.Sprintf("│%-*s│", width-2, "..."+number(left)+" more...")
		if lines[len(lines)-2] != msg {
			w.Fail("line about omitted rows is not %q\n%s", msg, res)
		}
	}
	rest := ranked(m, mode)
	var shown []*Tally
	for _, l := range lines[3 : 3+rows] {
		found := -1
		for i, t := range rest {
			if better(t, rest[0], mode) != 0 {
				break
			}
			if slices.Contains(t.tableRows(res, mode, email, acol), l) {
				found = i
				break
			}
		}
		if found < 0 {
			w.Fail("row %q is not what is next in the ranking:\n%s\n%s", l, describe(m, mode), res)
		}
		shown = append(shown, rest[found])
		rest = slices.Delete(slices.Clone(rest), found, found+1)
	}
	w.checkRanking(res, shown, m, mode)
}

func (t *Tally) tableRows(res Result, mode Mode, email bool, acol int) []string {
	var out []string
	when := t.Last
	if mode == ByFirst {
		when = t.First
	}
	for _, name := range sortedKeys(t.Names) {
		if !email {
			name = t.Key
		} else {
			name += " <" + t.Email + ">"
		}
		shorts := []string{abbrev(name, acol)}
		if len(name) > acol && len(name) == utf8.RuneCountInString(name) {
			// Control characters may count for a column or for none.
			shorts = append(shorts, name[:acol-1]+"…")
		}
		for _, short := range shorts {
			author := runewidth.FillRight(short, acol)
			for _, age := range res.ages(when) {
				l := fmt.Sprintf("│%s %-11s %7s", author, age, number(len(t.Commits)))
				if mode.Diff() {
					l += fmt.Sprintf(" %7s  %7s / %7s", number(len(t.Files)), number(t.Add), number(t.Del))
				}
				out = append(out, l+"│")
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- tree

type node struct {
	kids    map[string]*node
	tallies map[string]*Tally
	present bool // something in the working tree
	hidden  bool // commits without changes
}

func newNode() *node { return &node{kids: map[string]*node{}, tallies: map[string]*Tally{}} }

func (n *node) tally(k string) *Tally {
	t := n.tallies[k]
	if t == nil {
		t = newTally(k)
		n.tallies[k] = t
	}
	return t
}

// Tree is the expected tree below s.Prefix; nil when nothing is to be shown.
func (r *Repo) Tree(s *Sel) *node {
	root := newNode()
	idx := r.Index()
	if s.listed != nil {
		idx = s.listed
	}
	for _, c := range r.Selected(s) {
		if c.IsMerge() && !s.Merges {
			continue
		}
		k := s.key(c)
		n := 0
		if !c.IsMerge() {
			for _, d := range c.Diffs {
				if !s.PathOK(d.Path) {
					continue
				}
				n++
				rel := d.Path
				if s.Prefix != "" {
					if !strings.HasPrefix(rel, s.Prefix+"/") {
						continue
					}
					rel = rel[len(s.Prefix)+1:]
				}
				x := root
				x.add(k, c, &d)
				for _, part := range strings.Split(rel, "/") {
					if x.kids[part] == nil {
						x.kids[part] = newNode()
					}
					x = x.kids[part]
					x.add(k, c, &d)
					x.present = x.present || idx[d.Path]
				}
			}
		}
		if n == 0 && s.Prefix == "" {
			// counts for the whole, belongs to no path
			x := root.kids[""]
			if x == nil {
				x = newNode()
				x.hidden = true
				root.kids[""] = x
			}
			x.add(k, c, nil)
			root.add(k, c, nil)
		}
	}
	if len(root.kids) == 0 {
		return nil
	}
	root.present = true
	return root
}

func (n *node) add(k string, c *Commit, d *Diff) {
	t := n.tally(k)
	t.addCommit(c)
	if d != nil {
		t.addDiff(c, *d)
	}
}

// best lists the authors that may be called first (several when tied).
func (n *node) best(mode Mode) []*Tally {
	all := ranked(n.tallies, mode)
	var out []*Tally
	for _, t := range all {
		if better(t, all[0], mode) == 0 {
			out = append(out, t)
		}
	}
	return out
}

type treeLine struct {
	prefix string // connecting lines and path
	n      *node
	parent int // index of the entry it is shown under, -1 for none
	leaf   bool
	indent int // columns before the path
}

// lines lays the tree out.
func (n *node) lines(name string, depth, maxDepth int, all bool, glyphs []bool, parent int, out []treeLine) []treeLine {
	if n.hidden || depth > maxDepth {
		return out
	}
	if depth < maxDepth && len(n.kids) == 1 {
		for k, kid := range n.kids {
			return kid.lines(path.Join(name, k), depth+1, maxDepth, all, glyphs, parent, out)
		}
	}
	if !n.present && !all {
		// Nothing below can be present either.
		return out
	}
	var b strings.Builder
	for i, last := range glyphs {
		switch {
		case i < len(glyphs)-1 && last:
			b.WriteString("    ")
		case i < len(glyphs)-1:
			b.WriteString("│   ")
		case last:
			b.WriteString("└── ")
		default:
			b.WriteString("├── ")
		}
	}
	b.WriteString(name)
	if len(n.kids) > 0 {
		b.WriteString("/")
	}
	me := len(out)
	out = append(out, treeLine{b.String(), n, parent, len(n.kids) == 0, 4 * len(glyphs)})
	var names []string
	for k, kid := range n.kids {
		if !kid.hidden && (kid.present || all) {
			names = append(names, k)
		}
	}
	sort.Slice(names, func(i, j int) bool {
		a, b := len(n.kids[names[i]].kids) > 0, len(n.kids[names[j]].kids) > 0
		if a != b {
			return a
		}
		return names[i] < names[j]
	})
	for i, k := range names {
		out = n.kids[k].lines(k, depth+1, maxDepth, all, append(slices.Clone(glyphs), i == len(names)-1), me, out)
	}
	return out
}

func (t *Tally) metricTexts(res Result, mode Mode) []string {
	switch mode {
	case ByLines:
		return []string{fmt.Sprintf("(%s / %s)", number(t.Add), number(t.Del))}
	case ByFiles:
		return []string{"(" + number(len(t.Files)) + ")"}
	case ByLast, ByFirst:
		when := t.Last
		if mode == ByFirst {
			when = t.First
		}
		var out []string
		for _, a := range res.ages(when) {
			out = append(out, "("+a+")")
		}
		return out
	}
	return []string{"(" + number(len(t.Commits)) + ")"}
}

func (t *Tally) label(email bool) string {
	if email {
		return abbrev("<"+t.Email+">", 25)
	}
	return abbrev(t.Key, 25)
}

// checkTree compares tree output with the expected tree.
func (w *World) checkTree(res Result, r *Repo, s *Sel, mode Mode, all bool, depth int) {
	w.OK(res)
	root := r.Tree(s)
	var want []treeLine
	if depth == 0 {
		depth = 100
	}
	if root != nil {
		want = root.lines(".", 0, depth, all, nil, -1, nil)
	}
	show := func() string {
		var b strings.Builder
		for _, l := range want {
			fmt.Fprintf(&b, "  %s", l.prefix)
			for _, t := range l.n.best(mode) {
				fmt.Fprintf(&b, " | %s %v", t.label(s.Email), t.metricTexts(res, mode))
			}
			b.WriteString("\n")
		}
		return b.String()
	}
	if len(want) == 0 {
		if res.Out != "" {
			w.Fail("tree should be empty\n%s", res)
		}
		return
	}
	lines := strings.Split(strings.TrimSuffix(plain(res.Out), "\n"), "\n")
	if len(lines) != len(want) {
		w.Fail("tree has %d lines instead of %d; expected:\n%s\n%s", len(lines), len(want), show(), res)
	}
	winners := make([][]*Tally, len(want)) // who the line can mean
	var columns map[int]bool
	for i, l := range lines {
		e := want[i]
		if !strings.HasPrefix(l, e.prefix) {
			w.Fail("line %q does not begin with %q; expected:\n%s\n%s", l, e.prefix, show(), res)
		}
		rest := l[len(e.prefix):]
		best := e.n.best(mode)
		if rest == "" {
			// Same author as the parent entry.
			ok := false
			for _, t := range best {
				if e.parent < 0 {
					break
				}
				for _, p := range winners[e.parent] {
					ok = ok || p.Key == t.Key
				}
			}
			if all || !e.leaf || !ok {
				w.Fail("line %q lacks its author; expected:\n%s\n%s", l, show(), res)
			}
			continue
		}
		cols := map[int]bool{}
		for _, t := range best {
			for _, mt := range t.metricTexts(res, mode) {
				suffix := t.label(s.Email) + " " + mt
				if !strings.HasSuffix(rest, suffix) {
					continue
				}
				dots := rest[:len(rest)-len(suffix)]
				if len(dots) < 4 || strings.Trim(dots, ".") != "" {
					continue
				}
				if !all && e.leaf && e.parent >= 0 && !slices.ContainsFunc(winners[e.parent], func(p *Tally) bool { return p.Key != t.Key }) {
					continue // should not have been annotated
				}
				winners[i] = append(winners[i], t)
				cols[utf8.RuneCountInString(e.prefix)+len(dots)] = true
			}
		}
		if len(winners[i]) == 0 {
			w.Fail("line %q has a wrong annotation; expected:\n%s\n%s", l, show(), res)
		}
		if columns == nil {
			columns = cols
		} else {
			for c := range columns {
				if !cols[c] {
					delete(columns, c)
				}
			}
			if len(columns) == 0 {
				w.Fail("authors are not aligned in line %q\n%s", l, res)
			}
		}
	}
}

// ---------------------------------------------------------------- timeline

type histBucket struct {
	tallies map[string]*Tally
	all     *Tally
}

type histSpan struct {
	first, last int64 // instants
}

func labelFor(t time.Time, res byte) string {
	switch res {
	case 'y':
		return t.Format("2006")
	case 'm':
		return t.Format("Jan 2006")
	}
	return t.Format("2006-01-02")
}

// labels enumerates the periods between two instants.
func labels(from, to time.Time, res byte) []string {
	var out []string
	step := time.Hour
	if res != 'd' {
		step = 12 * time.Hour
	}
	for t := from; ; t = t.Add(step) {
		if t.After(to) {
			t = to
		}
		l := labelFor(t, res)
		if len(out) == 0 || out[len(out)-1] != l {
			out = append(out, l)
		}
		if !t.Before(to) {
			return out
		}
	}
}

func dayStart(t time.Time) time.Time {
	y, m, d := t.Date()
	return time.Date(y, m, d, 0, 0, 0, 0, t.Location())
}

// resolutions that are right for a span. Two when the span is on a limit but
// for a change of daylight saving time, or between 1825 days and five years.
func resolutions(from, to time.Time) []byte {
	d := to.Sub(dayStart(from))
	const day = 24 * time.Hour
	const dst = 2 * time.Hour
	near := func(limit time.Duration) bool { return d != limit && d > limit-dst && d < limit+dst }
	var out []byte
	if d <= 60*day || near(60*day) {
		out = append(out, 'd')
	}
	if (d > 60*day || near(60*day)) && d <= (5*365+2)*day {
		out = append(out, 'm')
	}
	if d > 5*365*day || near(5*365*day) {
		out = append(out, 'y')
	}
	return out
}

// checkHist compares the timeline with the history.
func (w *World) checkHist(res Result, r *Repo, s *Sel, mode Mode) {
	w.OK(res)
	tz := res.Opts.TZ
	if tz == "" {
		tz = w.TZ
	}
	loc, err := time.LoadLocation(tz)
	if err != nil {
		infra("zone %s: %v", tz, err)
	}
	var counted, selected []*Commit
	for _, c := range r.Selected(s) {
		selected = append(selected, c)
		if !c.IsMerge() || s.Merges {
			counted = append(counted, c)
		}
	}
	toNow := len(s.Revs) == 0 && s.Until == 0
	var msgs []string
	try := func(span []*Commit, end time.Time) bool {
		if len(span) == 0 {
			if res.Out == "" {
				return true
			}
			msgs = append(msgs, "nothing expected")
			return false
		}
		lo, hi := span[0].ATime, span[0].ATime
		for _, c := range span {
			lo, hi = min(lo, c.ATime), max(hi, c.ATime)
		}
		from, to := time.Unix(lo, 0).In(loc), time.Unix(hi, 0).In(loc)
		limit := dayStart(to)
		if toNow {
			to, limit = end.In(loc), end.In(loc)
		}
		for _, rs := range resolutions(from, limit) {
			if msg := histMatches(res, s, mode, rs, counted, labels(from, to, rs), loc); msg == "" {
				return true
			} else {
				msgs = append(msgs, msg)
			}
		}
		return false
	}
	if try(counted, res.End) || try(selected, res.End) {
		return
	}
	if toNow && (try(counted, res.Start) || try(selected, res.Start)) {
		return
	}
	w.Fail("timeline is wrong: %s\n%s", msgs[0], res)
}

func histMatches(res Result, s *Sel, mode Mode, rs byte, counted []*Commit, want []string, loc *time.Location) string {
	b := map[string]*histBucket{}
	for _, c := range counted {
		l := labelFor(time.Unix(c.ATime, 0).In(loc), rs)
		x := b[l]
		if x == nil {
			x = &histBucket{map[string]*Tally{}, newTally("")}
			b[l] = x
		}
		t := x.tallies[s.key(c)]
		if t == nil {
			t = newTally(s.key(c))
			x.tallies[s.key(c)] = t
		}
		t.addCommit(c)
		x.all.addCommit(c)
		for _, d := range c.Diffs {
			if s.PathOK(d.Path) {
				t.addDiff(c, d)
				x.all.addDiff(c, d)
			}
		}
	}
	maxVal := int64(36)
	for _, x := range b {
		maxVal = max(maxVal, x.all.Metric(mode))
	}
	lines := strings.Split(strings.TrimSuffix(plain(res.Out), "\n"), "\n")
	if len(lines) != len(want) {
		return fmt.Sprintf("%d rows instead of %d (%s to %s)", len(lines), len(want), want[0], want[len(want)-1])
	}
	for i, l := range lines {
		pre := want[i] + " ┤ "
		if !strings.HasPrefix(l, pre) {
			return fmt.Sprintf("row %q should be %q", l, pre)
		}
		rest := l[len(pre):]
		x := b[want[i]]
		if x == nil || x.all.Metric(mode) == 0 {
			if strings.TrimSpace(rest) != "" {
				return fmt.Sprintf("row %q should be blank", l)
			}
			continue
		}
		top := int64(-1)
		for _, t := range x.tallies {
			top = max(top, t.Metric(mode))
		}
		if top == 0 {
			if strings.TrimSpace(rest) != "" {
				return fmt.Sprintf("row %q should be blank", l)
			}
			continue
		}
		ok := false
		var texts []string
		for _, k := range sortedKeys(x.tallies) {
			t := x.tallies[k]
			if t.Metric(mode) != top {
				continue
			}
			for _, v := range bars(top, maxVal) {
				for _, tot := range bars(x.all.Metric(mode), maxVal) {
					text := fmt.Sprintf("%-36s  %s %s", strings.Repeat("#", v)+strings.Repeat("-", max(0, tot-v)), t.label(s.Email), t.metricTexts(res, mode)[0])
					texts = append(texts, text)
					ok = ok || text == rest
				}
			}
		}
		if !ok {
			return fmt.Sprintf("row %q should continue with %q", l, texts)
		}
	}
	return ""
}

// bars gives the length of a bar, rounded up; division may be inexact.
func bars(v, maxVal int64) []int {
	a := int((v*36 + maxVal - 1) / maxVal)
	b := int(math.Ceil(float64(v) / float64(maxVal) * 36))
	if a == b {
		return []int{a}
	}
	return []int{a, b}
}
