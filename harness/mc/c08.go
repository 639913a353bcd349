package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"strings"
	"syscall"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

func init() {
	quick := "small: all cell widths {0,1,3} for 1 column x 0-6 items, 2 columns x 0-3 items, 3 columns x 0-2 items, columns as wide as content or wider, x every maximum width 0..(all in one line)+3 (at most 44) x 5 separators x both directions x plain/compact; sweep: 0-40 items x 1-2 columns x 4 width patterns x maximum width 0..120; many columns: 4-26 columns (own or repeated names) x 0-5 items, many items: 50-300 items, both at every limit where the number of groups changes and one below; 500-10001 items; one wide item at every position of 5-33 items and 32 positions of 65-2050 items at the limits of compact layouts; separators of 4 to 131072 bytes; lists the table did not format (not C10, C11); limits: column widths and maximum widths around 0, 255/256, 32767/32768, 65534..65536, 2^20, negative; cells of 20000-40000 characters"
	thorough := "small: 1 column x 0-8 items, 2 columns x 0-4 items, 3 columns x 0-3 items with 2 widths; sweep: 0-90 items, maximum width 0..300; limits as quick with more items"
	for _, x := range []struct {
		id, rule string
		f        func(r *Run)
		ea       bool
	}{
		{"C08", "cases: merge calls; non-trivial: more than one line and more than one group", func(r *Run) { workingOutputs(r); genLayouts(r, judge08) }, false},
		{"C09", "cases: merge calls x 5 alignment patterns; non-trivial: output has two or more groups", func(r *Run) { genLayouts(r, judge09) }, false},
		{"C10", "cases: merge calls; non-trivial: a single row fits and the list has more than one item", func(r *Run) { genLayouts(r, judge10) }, true},
		{"C11", "cases: merge calls; non-trivial: more than one group fits or compact finds more", func(r *Run) { genLayouts(r, judge11) }, false},
	} {
		register(&Check{ID: x.id, Run: x.f, EnvEA: x.ea, Bounds: map[string]string{"rule": x.rule, "quick": quick, "thorough": thorough}})
	}
	register(&Check{ID: "C12", Run: c12, Bounds: map[string]string{
		"rule":     "cases: merge calls with extreme arguments; non-trivial: the table has no columns, a zero or huge width, an empty separator, an empty list or a limit outside 1..1000",
		"quick":    "0-3 columns x column widths in {0,1,2,255,256,32767,32768,65534,65535} x 0-5 items with cells of width {0,1,2} x 20 maximum widths from the smallest to the largest integer x 5 separators x 4 modes; all small layouts of C08; lists of 0..400 items; a call that makes 2,000,000 accesses to the list or burns 40 s of CPU counts as not terminating",
		"thorough": "as quick with 0-8 items, lists of up to 3000 items",
	}})
	register(&Check{ID: "C13", Run: c13, Bounds: map[string]string{
		"rule":     "cases: (merge call, failure point, failure style); non-trivial: the failure point lies inside the output",
		"quick":    "tables of 1-2 columns x 0-5 items x 4 modes x 3 maximum widths x 3 separators; the output fails at every byte position, accepting a part, nothing, or everything of the failing write, once or forever, with 10 kinds of error (end of file, closed pipe, interrupted, temporary ...); lists of up to 300 items with the output failing around every line end; 8 kinds of outputs (with WriteString, Flush, ReadFrom, buffered ...) failing at every byte; full device, closed file, broken pipes",
		"thorough": "the same with 0-9 items and 5 maximum widths",
	}})
}

const ids = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

// cellText is w cells wide, identifies item i and column j if w > 0, and is sometimes
// coloured.
func cellText(i, j, nc, w int) string {
	if w == 0 {
		if i%3 == 2 {
			return "\x1b[0m"
		}
		return ""
	}
	id := string(ids[(i*nc+j)%len(ids)])
	s := id
	switch {
	case w == 2:
		s = id + "-"
	case w >= 3:
		s = id + "世" + strings.Repeat("-", w-3)
	}
	if (i+j)%2 == 1 {
		s = "\x1b[3" + "1m" + s + "\x1b[0m"
	}
	return s
}

func bigText(i, j, w int) string { // for long lists: w >= 4
	const d = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	return string([]byte{'a' + byte(j), d[i/1296%36], d[i/36%36], d[i%36]}) + strings.Repeat("-", w-4)
}

func bigIDs(line string) []string {
	var out []string
	for i := 0; i+3 < len(line); i++ {
		if line[i] >= 'a' && line[i] <= 'z' {
			out = append(out, line[i:i+4])
			i += 3
		}
	}
	return out
}

func smallIDs(line string) []string {
	var out []string
	for _, x := range line {
		if strings.ContainsRune(ids, x) {
			out = append(out, string(x))
		}
	}
	return out
}

type lay struct {
	ref.Layout
	big   bool
	names []string // nil: every column its own name

	foreign  bool // the list was not formatted by this table
	untitled bool // the columns have no titles
	odd      bool // cells may hold anything
	warm     int  // what happened to the table before, see warmUp
}

func (l *lay) name(j int) string {
	if l.names != nil {
		return l.names[j]
	}
	return ids[j : j+1]
}

func (l *lay) desc() string {
	d := "plain"
	if l.Compact {
		d = "compact"
	}
	dir := "horizontal"
	if l.Vertical {
		dir = "vertical"
	}
	var al []string
	for _, a := range l.Al {
		al = append(al, alNames[a])
	}
	names := ""
	if l.names != nil {
		names = fmt.Sprintf(", column names %q", l.names)
	}
	if l.foreign {
		names += ", list not formatted by this table"
	}
	if l.warm > 0 {
		names += ", after " + warmNames[l.warm]
	}
	return fmt.Sprintf("%s %s, max %d, separator %q, column widths %v%s, alignments %v, cell widths %v, cells %s", dir, d, l.Max, l.Sep, l.ColW, names, al, clip(fmt.Sprint(l.W)), q(fmt.Sprint(l.Cells)))
}

func (l *lay) table() *table.Table {
	spec := table.NewTableSpec()
	nc := l.C()
	for j := 0; j < nc; j++ {
		col := &table.Column{Name: l.name(j), Title: "t", Type: colType(j + l.N() + l.Max), Alignment: alignment(l.Al[j]), Getter: cellGetter{j}}
		if l.untitled {
			col.Title = ""
		}
		spec.AddColumn(col)
	}
	t := table.NewTable(spec)
	return t
}

// build formats the items by the table and widens the columns to ColW.
func (l *lay) build(c *C) (*table.Table, list) {
	if l.warm > 0 {
		return l.warmUp(c)
	}
	t := l.table()
	out := make(list, len(l.Cells))
	for i, it := range l.Cells {
		if l.foreign {
			out[i] = append([]string{}, it...)
			continue
		}
		f, err := t.FormatItem(it)
		if err != nil {
			c.Fail("FormatItem: %v", err)
		}
		out[i] = f
	}
	l.widen(t)
	return t, out
}

func (l *lay) widen(t *table.Table) {
	u := map[string]uint16{}
	for j, w := range l.ColW {
		u[l.name(j)] = uint16(w)
	}
	t.UpdateWidth(u)
}

func (l *lay) render(c *C) []string {
	t, items := l.build(c)
	out := mergeStr(t, items, l.Vertical, l.Max, l.Sep, l.Compact)
	c.Op(1 + len(items))
	if out == "" {
		return nil
	}
	if !strings.HasSuffix(out, "\n") {
		c.Fail("output does not end in a newline: %s", q(out))
		return nil
	}
	return strings.Split(out[:len(out)-1], "\n")
}

// genLayouts enumerates the layout space.
func genLayouts(r *Run, judge func(r *Run, l *lay, c *C)) {
	emit := func(l *lay) {
		r.State()
		r.Do(l.desc, func(c *C) { judge(r, l, c) })
	}
	nal := 1
	if judgeIs09(r) {
		nal = 5
	}
	seps := []string{"", " ", " | ", "│", "--"}
	modes := func(f func(compact, vertical bool)) {
		for m := 0; m < 4; m++ {
			f(m&1 == 1, m&2 == 2)
		}
	}

	genContents(r, emit)
	genManyGroups(r, emit)
	matrixMerge(r, emit)
	warmMerge(r, emit)
	hugeLists(r, emit)

	r.Phase("small")
	type shape struct{ nc, nmax, kinds int }
	shapes := []shape{{1, 6, 3}, {2, 3, 3}, {3, 2, 3}, {2, 4, 2}}
	if nal > 1 && !r.Thorough() {
		shapes = []shape{{1, 5, 3}, {2, 3, 3}, {3, 2, 2}, {2, 4, 2}}
	}
	if r.Thorough() {
		shapes = []shape{{1, 8, 3}, {2, 4, 3}, {3, 3, 2}, {3, 2, 3}}
	}
	for _, sh := range shapes {
		kinds := []int{0, 1, 3}
		if sh.kinds == 2 {
			kinds = []int{1, 3}
		}
		for n := 0; n <= sh.nmax; n++ {
			wordsN(len(kinds), n*sh.nc, func(w []int) {
				ws := make([][]int, n)
				cells := make([][]string, n)
				colw := make([]int, sh.nc)
				for i := 0; i < n; i++ {
					ws[i] = make([]int, sh.nc)
					cells[i] = make([]string, sh.nc)
					for j := range ws[i] {
						x := kinds[w[i*sh.nc+j]]
						ws[i][j] = x
						if x > colw[j] {
							colw[j] = x
						}
						cells[i][j] = cellText(i, j, sh.nc, x)
					}
				}
				for infl := 0; infl < 2; infl++ {
					cw := append([]int(nil), colw...)
					if infl == 1 {
						cw[0] += 2
					}
					row := sh.nc - 1
					for _, x := range cw {
						row += x
					}
					for _, sep := range seps {
						top := (row+len(sep))*(n+1) + 3
						if top > 44 {
							top = 44
						}
						if top > 30 && !r.Thorough() && sep == "--" {
							top = 30
						}
						for max := 0; max <= top; max++ {
							modes(func(compact, vertical bool) {
								for p := 0; p < nal; p++ {
									if !r.Want() {
										continue
									}
									al := make([]int, sh.nc)
									for j := range al {
										if nal == 1 {
											al[j] = int((r.idx/64 + int64(j)) % ref.NAl)
										} else {
											al[j] = (p + j) % ref.NAl
										}
									}
									emit(&lay{Layout: ref.Layout{ColW: cw, Al: al, Cells: cells, W: ws, Sep: sep, Max: max, Compact: compact, Vertical: vertical}})
								}
							})
						}
					}
				}
			})
		}
	}

	r.Phase("sweep")
	pats := []func(i, j int) int{
		func(i, j int) int { return 4 },
		func(i, j int) int { return 4 + (i*7+j*3)%5 },
		func(i, j int) int { return 4 + i%2*6 },
		func(i, j int) int {
			if i == 3 {
				return 15
			}
			return 4 + j
		},
	}
	step := 1
	nmax, wmax := r.Pick(40, 90), r.Pick(120, 300)
	if !r.Thorough() && nal > 1 {
		step = 3
	}
	for nc := 1; nc <= 2; nc++ {
		for pi, pat := range pats {
			for n := 0; n <= nmax; n++ {
				var ws [][]int
				var cells [][]string
				colw := make([]int, nc)
				for max := 0; max <= wmax; max += step {
					for si, sep := range []string{" ", "│  "} {
						modes(func(compact, vertical bool) {
							if !r.Want() {
								return
							}
							if ws == nil {
								for i := 0; i < n; i++ {
									var a []int
									var b []string
									for j := 0; j < nc; j++ {
										x := pat(i, j)
										a = append(a, x)
										b = append(b, bigText(i, j, x))
										if x > colw[j] {
											colw[j] = x
										}
									}
									ws = append(ws, a)
									cells = append(cells, b)
								}
							}
							al := make([]int, nc)
							for j := range al {
								al[j] = (pi + j + n) % ref.NAl
							}
							if si == 1 && judgeIs11(r) {
								sep = " | "
							}
							emit(&lay{big: true, Layout: ref.Layout{ColW: colw, Al: al, Cells: cells, W: ws, Sep: sep, Max: max, Compact: compact, Vertical: vertical}})
						})
					}
				}
			}
		}
	}

	// limits at which the number of groups changes, and one below each
	thresholds := func(cw []int, ws [][]int, sep string, vertical bool, gs []int) []int {
		set := map[int]bool{}
		l := ref.Layout{ColW: cw, W: ws, Cells: make([][]string, len(ws)), Sep: sep, Vertical: vertical}
		for _, g := range gs {
			if g < 1 {
				continue
			}
			set[g*(l.RowWidth()+len(sep))-len(sep)] = true
			if len(ws) > 0 {
				set[l.ContentWidth(g)] = true
			}
		}
		var out []int
		for x := range set {
			out = append(out, x, x-1)
		}
		sort.Ints(out)
		return out
	}
	r.Phase("many columns")
	ncs := []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 26}
	for _, nc := range ncs {
		for dup := 0; dup < 2; dup++ {
			for n := 0; n <= r.Pick(5, 9); n++ {
				ws := make([][]int, n)
				cells := make([][]string, n)
				cw := make([]int, nc)
				names := make([]string, nc)
				byName := map[string]int{}
				for j := range names {
					names[j] = ids[j : j+1]
					if dup == 1 {
						names[j] = ids[j%(nc*2/3) : j%(nc*2/3)+1]
					}
				}
				for i := range ws {
					for j := 0; j < nc; j++ {
						x := 4 + (i*7+j*3)%3
						ws[i] = append(ws[i], x)
						cells[i] = append(cells[i], bigText(i, j, x))
						if x > byName[names[j]] {
							byName[names[j]] = x
						}
					}
				}
				for j := range cw {
					cw[j] = byName[names[j]]
				}
				var gs []int
				for g := 1; g <= n+1; g++ {
					gs = append(gs, g)
				}
				for _, sep := range []string{" ", " | "} {
					modes(func(compact, vertical bool) {
						for _, max := range thresholds(cw, ws, sep, vertical, gs) {
							if !r.Want() {
								continue
							}
							al := make([]int, nc)
							for j := range al {
								al[j] = (j + n) % ref.NAl
							}
							emit(&lay{big: true, names: names, Layout: ref.Layout{ColW: cw, Al: al, Cells: cells, W: ws, Sep: sep, Max: max, Compact: compact, Vertical: vertical}})
						}
					})
				}
			}
		}
	}

	r.Phase("many items")
	itemNs := []int{50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300}
	if r.Thorough() {
		itemNs = append(itemNs, 400, 511, 512, 513, 700, 999)
	}
	for _, n := range itemNs {
		for pi := 0; pi < 2; pi++ {
			ws := make([][]int, n)
			cells := make([][]string, n)
			cw := []int{0}
			for i := range ws {
				x := pats[pi*3](i, 0)
				ws[i] = []int{x}
				cells[i] = []string{bigText(i, 0, x)}
				if x > cw[0] {
					cw[0] = x
				}
			}
			for _, sep := range []string{"", " "} {
				modes(func(compact, vertical bool) {
					for _, max := range thresholds(cw, ws, sep, vertical, []int{1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, n / 2, n/2 + 1, n - 1, n, n + 1}) {
						if !r.Want() {
							continue
						}
						emit(&lay{big: true, Layout: ref.Layout{ColW: cw, Al: []int{n % ref.NAl}, Cells: cells, W: ws, Sep: sep, Max: max, Compact: compact, Vertical: vertical}})
					}
				})
			}
		}
	}

	r.Phase("huge lists")
	hugeNs := []int{500, 512, 1000, 1023, 1024, 1025, 2049, 4096, 10001}
	if r.Thorough() {
		hugeNs = append(hugeNs, 8191, 8193, 16385, 30000)
	}
	for _, n := range hugeNs {
		for _, pi := range []int{0, 3} {
			for _, sep := range []string{"", " "} {
				modes(func(compact, vertical bool) {
					for _, max := range []int{4, 19, 80, 255, 700, 5000} {
						if current == "C12" || !r.Want() {
							continue // C12 has lists of its own
						}
						ws := make([][]int, n)
						cells := make([][]string, n)
						cw := []int{0}
						for i := range ws {
							x := pats[pi](i, 0)
							ws[i] = []int{x}
							cells[i] = []string{bigText(i, 0, x)}
							if x > cw[0] {
								cw[0] = x
							}
						}
						emit(&lay{big: true, Layout: ref.Layout{ColW: cw, Al: []int{n % ref.NAl}, Cells: cells, W: ws, Sep: sep, Max: max, Compact: compact, Vertical: vertical}})
					}
				})
			}
		}
	}

	r.Phase("one odd item")
	// one item much wider than the others, at every position of short lists and at chosen
	// ones of long lists, at limits where compact layouts change
	oddNs := []int{5, 8, 12, 17, 33, 65, 100, 129, 257, 400, 700, 1025, 2050}
	for _, n := range oddNs {
		var at []int
		switch {
		case n <= 33:
			for i := 0; i < n; i++ {
				at = append(at, i)
			}
		default:
			for _, p := range []int{0, 1, 7, 8, 15, 16, 31, 32, 50, 63, 64, 99, 100, 127, 128, 200, 255, 256, 511, 512, 999, 1000, 1023, 1024, n / 3, n / 2, n/2 + 1, n - 33, n - 9, n - 3, n - 2, n - 1} {
				if p >= 0 && p < n {
					at = append(at, p)
				}
			}
			sort.Ints(at)
		}
		last := -1
		for _, p := range at {
			if p == last {
				continue
			}
			last = p
			for nc := 1; nc <= 2; nc++ {
				var ws [][]int
				var cells [][]string
				cw := make([]int, nc)
				mk := func() {
					if ws != nil {
						return
					}
					for i := 0; i < n; i++ {
						var a []int
						var b []string
						for j := 0; j < nc; j++ {
							x := 4
							if i == p && j == nc-1 {
								x = 23
							}
							a = append(a, x)
							b = append(b, bigText(i, j, x))
							if x > cw[j] {
								cw[j] = x
							}
						}
						ws, cells = append(ws, a), append(cells, b)
					}
				}
				for _, sep := range []string{" ", "--"} {
					modes(func(compact, vertical bool) {
						for gi, g := range []int{2, 3, 4, 6, 9, 16} {
							if n > 300 && (gi+p+nc)%2 == 1 || !compact && gi != 1 {
								continue
							}
							for d := 0; d < 2; d++ {
								if current == "C12" || !r.Want() {
									continue
								}
								mk()
								lw := ref.Layout{ColW: cw, W: ws, Cells: cells, Sep: sep, Vertical: vertical}
								al := make([]int, nc)
								for j := range al {
									al[j] = (j + n + p) % ref.NAl
								}
								emit(&lay{big: true, Layout: ref.Layout{ColW: cw, Al: al, Cells: cells, W: ws, Sep: sep, Max: lw.ContentWidth(g) - d, Compact: compact, Vertical: vertical}})
							}
						}
					})
				}
			}
		}
	}

	r.Phase("names that look alike")
	for ai, a := range trickyNames {
		for bi, b := range trickyNames {
			if a == b {
				continue
			}
			modes(func(compact, vertical bool) {
				for _, max := range []int{9, 24, 34} {
					if !r.Want() {
						continue
					}
					ws := [][]int{{4, 5}, {5, 4}, {4, 4}, {4, 4}, {4, 6}}
					var cells [][]string
					for i, w := range ws {
						cells = append(cells, []string{bigText(i, 0, w[0]), bigText(i, 1, w[1])})
					}
					emit(&lay{big: true, names: []string{a, b}, untitled: (ai+bi)%2 == 0, Layout: ref.Layout{ColW: []int{5, 6}, Al: []int{ai % ref.NAl, bi % ref.NAl}, Cells: cells, W: ws, Sep: " ", Max: max, Compact: compact, Vertical: vertical}})
				}
			})
		}
	}

	r.Phase("long separators")
	for _, sl := range []int{4, 5, 7, 8, 10, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072} {
		for nc := 1; nc <= 2; nc++ {
			for n := 0; n <= 5; n++ {
				if sl > 1000 && n > 3 {
					continue
				}
				ws := make([][]int, n)
				cells := make([][]string, n)
				cw := make([]int, nc)
				for i := range ws {
					for j := 0; j < nc; j++ {
						x := 4 + (i*7+j)%4
						ws[i] = append(ws[i], x)
						cells[i] = append(cells[i], bigText(i, j, x))
						if x > cw[j] {
							cw[j] = x
						}
					}
				}
				sep := strings.Repeat("+", sl)
				modes(func(compact, vertical bool) {
					for _, max := range append(thresholds(cw, ws, sep, vertical, []int{1, 2, 3, 4, 5, 6}), sl-1, sl, sl+1, 65535) {
						if max < 0 || !r.Want() {
							continue
						}
						al := make([]int, nc)
						for j := range al {
							al[j] = (j + n) % ref.NAl
						}
						emit(&lay{big: true, Layout: ref.Layout{ColW: cw, Al: al, Cells: cells, W: ws, Sep: sep, Max: max, Compact: compact, Vertical: vertical}})
					}
				})
			}
		}
	}

	r.Phase("lists of another table")
	// cells wider, narrower and as wide as the columns; C10 and C11 speak of lists the
	// table formatted itself
	if current != "C10" && current != "C11" {
		for nc := 1; nc <= 2; nc++ {
			for n := 0; n <= r.Pick(4, 6)/nc+1; n++ {
				wordsN(3, n*nc, func(w []int) {
					for colw := 0; colw < 3; colw++ {
						for _, sep := range []string{"", " ", " | "} {
							for _, max := range []int{0, 1, 2, 3, 5, 7, 8, 11, 14, 20, 30, 60} {
								modes(func(compact, vertical bool) {
									if !r.Want() {
										return
									}
									ws := make([][]int, n)
									cells := make([][]string, n)
									for i := range ws {
										for j := 0; j < nc; j++ {
											x := []int{0, 1, 5}[w[i*nc+j]]
											ws[i] = append(ws[i], x)
											cells[i] = append(cells[i], cellText(i, j, nc, x))
										}
									}
									cw := []int{colw * 2, 1}[:nc]
									al := make([]int, nc)
									for j := range al {
										al[j] = (j + n + colw + max) % ref.NAl
									}
									emit(&lay{foreign: true, Layout: ref.Layout{ColW: cw, Al: al, Cells: cells, W: ws, Sep: sep, Max: max, Compact: compact, Vertical: vertical}})
								})
							}
						}
					}
				})
			}
		}
	}

	r.Phase("limits")
	bw := []int{1, 2, 255, 256, 32767, 32768, 65534, 65535}
	maxes := []int{math.MinInt32, -65536, -1, 0, 1, 2, 5, 100, 255, 256, 511, 512, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 1 << 20, math.MaxInt32}
	ns := []int{0, 1, 2, 3}
	if r.Thorough() {
		ns = append(ns, 5, 7)
	}
	for nc := 1; nc <= 2; nc++ {
		wordsN(len(bw), nc, func(w []int) {
			colw := make([]int, nc)
			tot := 0
			for j := range colw {
				colw[j] = bw[w[j]]
				tot += colw[j]
			}
			for _, n := range ns {
				if tot > 60000 && n > 2 {
					continue
				}
				for _, max := range maxes {
					for _, sep := range []string{"", " ", " | ", strings.Repeat("=", 300)} {
						modes(func(compact, vertical bool) {
							if !r.Want() {
								return
							}
							ws := make([][]int, n)
							cells := make([][]string, n)
							for i := range ws {
								for j := 0; j < nc; j++ {
									ws[i] = append(ws[i], 1)
									cells[i] = append(cells[i], cellText(i, j, nc, 1))
								}
							}
							emit(&lay{Layout: ref.Layout{ColW: colw, Al: make([]int, nc), Cells: cells, W: ws, Sep: sep, Max: max, Compact: compact, Vertical: vertical}})
						})
					}
				}
			}
		})
	}

	r.Phase("huge cells")
	hw := []int{1, 20000, 32768, 40000}
	for n := 1; n <= r.Pick(3, 4); n++ {
		wordsN(len(hw), n, func(w []int) {
			for _, max := range []int{100, 20001, 32770, 40002, 59999, 60001, 60002, 65534, 65535, 65536, 1 << 20} {
				for _, sep := range []string{"", " "} {
					modes(func(compact, vertical bool) {
						if !r.Want() {
							return
						}
						ws := make([][]int, n)
						cells := make([][]string, n)
						colw := []int{0}
						for i := range ws {
							x := hw[w[i]]
							if x > colw[0] {
								colw[0] = x
							}
							ws[i] = []int{x}
							cells[i] = []string{cellText(i, 0, 1, x)}
						}
						emit(&lay{Layout: ref.Layout{ColW: colw, Al: []int{0}, Cells: cells, W: ws, Sep: sep, Max: max, Compact: compact, Vertical: vertical}})
					})
				}
			}
		})
	}
}

// the generator is shared; C09 multiplies by alignment patterns, C11 needs ASCII separators
var current string

func judgeIs09(r *Run) bool { return current == "C09" }
func judgeIs11(r *Run) bool { return current == "C11" }

// candidates are the numbers of groups up to max, the expected ones first.
func (l *lay) candidates(max int) (out []int) {
	p := l.PlainGroups()
	q, _ := l.CompactGroups()
	for _, g := range []int{q, p, max} {
		if g > max {
			g = max
		}
		out = append(out, g)
	}
	for g := 1; g <= max; g++ {
		out = append(out, g)
	}
	return
}

func judge08(r *Run, l *lay, c *C) {
	if l.odd {
		judge08odd(r, l, c)
		return
	}
	lines := l.render(c)
	if c.Failed() {
		return
	}
	if l.N() == 0 {
		if len(lines) != 0 {
			c.Fail("an empty list wrote %d lines: %q", len(lines), lines)
		}
		return
	}
	var got [][]string
	for _, ln := range lines {
		if l.big {
			got = append(got, bigIDs(ref.Strip(ln)))
		} else {
			got = append(got, smallIDs(ref.Strip(ln)))
		}
	}
	for _, g := range l.candidates(l.N()) {
		if l.Lines(g) != len(lines) {
			continue
		}
		ok := true
		for i := 0; i < len(lines) && ok; i++ {
			var want []string
			for k := 0; k < g; k++ {
				it := l.Item(g, i, k)
				if it < 0 {
					break
				}
				for j := range l.ColW {
					if l.W[it][j] > 0 {
						if l.big {
							want = append(want, l.Cells[it][j][:4])
						} else {
							want = append(want, smallIDs(ref.Strip(l.Cells[it][j]))[0])
						}
					}
				}
			}
			if len(want) != len(got[i]) {
				ok = false
				break
			}
			for k := range want {
				if want[k] != got[i][k] {
					ok = false
					break
				}
			}
		}
		if ok {
			c.OutcomeN(g*1000 + len(lines))
			c.Nontrivial(g > 1 && len(lines) > 1)
			return
		}
	}
	c.Fail("no number of groups explains the items on the lines %s", clip(fmt.Sprint(got)))
}

// exactGroups is the number of groups of the layout where it is specified (C11), else 0.
// It shows, beyond the number of lines, in the separator that ends a line with fewer
// groups.
func (l *lay) exactGroups() int {
	if !asciiSep(l.Sep) || l.RowWidth()+len(l.Sep) <= 0 {
		return 0
	}
	if l.Compact {
		g, _ := l.CompactGroups()
		return g
	}
	return l.PlainGroups()
}

func judge09(r *Run, l *lay, c *C) {
	if l.odd {
		judge09odd(r, l, c)
		return
	}
	lines := l.render(c)
	if c.Failed() || l.N() == 0 {
		return
	}
	out := strings.Join(lines, "\n") + "\n"
	exact := l.exactGroups()
	for _, g := range l.candidates(l.N() + 1) {
		if l.Lines(g) != len(lines) || exact > 0 && l.Lines(exact) == len(lines) && g != min(exact, l.N()+1) {
			continue
		}
		for _, per := range []bool{false, true} {
			if per && !l.Compact {
				continue
			}
			if l.Render(g, per) == out {
				c.Nontrivial(g > 1)
				n := g * 2
				if per {
					n++
				}
				c.OutcomeN(n*1000 + len(lines))
				return
			}
		}
	}
	c.Fail("output is no grid of padded cells: %s; for example %d groups should give %s", q(out), l.PlainGroups(), q(l.Render(min(l.PlainGroups(), l.N()+1), false)))
}

func judge10(r *Run, l *lay, c *C) {
	if r.Cfg == ref.EA && l.Sep == "│" {
		// still at most as wide as its byte length
	}
	lines := l.render(c)
	if c.Failed() {
		return
	}
	widest, at := 0, 0
	for i, ln := range lines {
		if w := ref.Visible(r.Cfg, ln); w > widest {
			widest, at = w, i
		}
	}
	c.OutcomeN(widest)
	if l.RowWidth() <= l.Limit() {
		c.Nontrivial(l.N() > 1)
		if widest > l.Limit() {
			c.Fail("one row is %d cells and fits, but line %d is %d cells wide, more than %d: %s", l.RowWidth(), at, widest, l.Limit(), q(lines[at]))
		}
		return
	}
	if widest > l.Limit() && len(lines) != l.N() {
		c.Fail("one row (%d cells) does not fit %d, yet %d items were put on %d lines up to %d cells wide", l.RowWidth(), l.Limit(), l.N(), len(lines), widest)
	}
}

func judge11(r *Run, l *lay, c *C) {
	if !asciiSep(l.Sep) || l.RowWidth()+len(l.Sep) <= 0 {
		return // statement: plain ASCII separators; zero-width rows without separator fit any number of times
	}
	lines := l.render(c)
	if c.Failed() || l.N() == 0 {
		return
	}
	g := l.PlainGroups()
	if l.Compact {
		g, _ = l.CompactGroups()
	}
	c.Nontrivial(g > 1)
	c.OutcomeN(g*1000 + len(lines))
	want := l.Lines(g)
	if len(lines) != want {
		c.Fail("%d lines, want %d (%d groups): %s", len(lines), want, g, q(strings.Join(lines, "\n")))
	}
	if last := len(lines) - 1; !c.Failed() && g > l.N() && !strings.HasSuffix(lines[last], l.Sep) {
		// more groups than items: the layout's further groups show in the separator (C09)
		c.Fail("the layout should have %d groups, the only line shows no more than its %d items: %s", g, l.N(), q(lines[last]))
	}
	if l.Compact && len(lines) > l.Lines(l.PlainGroups()) {
		c.Fail("compact output has more lines than plain output")
	}
}

// countingList panics when the code under test keeps asking without end.
type countingList struct {
	list
	n *int
}

type tooMany struct{}

const listHorizon = 2000000

func (l countingList) tick() {
	*l.n++
	if *l.n > listHorizon {
		panic(tooMany{})
	}
}
func (l countingList) Len() int           { l.tick(); return len(l.list) }
func (l countingList) Get(i int) []string { l.tick(); return l.list[i] }

func judge12(c *C, t *table.Table, items list, l *lay) {
	n := 0
	var b strings.Builder
	p := Try(func() {
		cl := countingList{items, &n}
		if l.Vertical {
			t.MergeRowsVertical(&b, cl, l.Max, l.Sep, l.Compact)
		} else {
			t.MergeRowsHorizontal(&b, cl, l.Max, l.Sep, l.Compact)
		}
	})
	c.Op(1)
	if p != nil {
		if _, ok := p.(tooMany); ok {
			c.Fail("did not finish within %d accesses to a list of %d items", listHorizon, len(items))
		} else {
			c.Fail("panic: %v", p)
		}
		return
	}
	out := b.String()
	lines := strings.Count(out, "\n")
	c.OutcomeN(lines<<32 | len(out))
	if lines > len(items) {
		c.Fail("%d lines for %d items", lines, len(items))
	} else if out != "" && !strings.HasSuffix(out, "\n") {
		c.Fail("output does not end in a newline")
	}
}

func c12(r *Run) {
	r.Phase("extreme arguments")
	bw := []int{0, 1, 2, 255, 256, 32767, 32768, 65534, 65535}
	maxes := []int{math.MinInt, math.MinInt32, -65537, -65536, -65535, -2, -1, 0, 1, 2, 3, 9, 80, 255, 256, 65533, 65534, 65535, 65536, 65537, 1 << 20, math.MaxInt32, math.MaxInt}
	seps := []string{"", " ", " | ", "│", strings.Repeat("-", 255), "\x1b[0m"}
	for nc := 0; nc <= 3; nc++ {
		use := bw
		if nc == 3 {
			use = []int{0, 1, 65535}
		}
		wordsN(len(use), nc, func(w []int) {
			colw := make([]int, nc)
			tot := 0
			for j := range colw {
				colw[j] = use[w[j]]
				tot += colw[j]
			}
			for n := 0; n <= r.Pick(4, 8); n++ {
				if tot > 30000 && n > 2 {
					continue
				}
				for cw := 0; cw <= 2; cw++ {
					if (cw > 0 && (n == 0 || nc == 0)) || (cw == 2 && tot > 5000) {
						continue
					}
					for _, max := range maxes {
						for _, sep := range seps {
							for m := 0; m < 4; m++ {
								if !r.Want() {
									continue
								}
								r.State()
								l := &lay{Layout: ref.Layout{ColW: colw, Al: make([]int, nc), Sep: sep, Max: max, Compact: m&1 == 1, Vertical: m&2 == 2}}
								for i := 0; i < n; i++ {
									row := make([]string, nc)
									if nc == 0 && i%2 == 0 {
										row = nil
									}
									for j := range row {
										row[j] = strings.Repeat("x", (cw*(i+1))%3)
									}
									l.Cells = append(l.Cells, row)
								}
								r.Do(l.desc, func(c *C) {
									c.Nontrivial(nc == 0 || n == 0 || tot == 0 || sep == "" || max < 1 || max > 1000)
									t := l.table()
									u := map[string]uint16{}
									for j, w := range l.ColW {
										u[ids[j:j+1]] = uint16(w)
									}
									t.UpdateWidth(u)
									judge12(c, t, list(l.Cells), l)
								})
							}
						}
					}
				}
			}
		})
	}
	r.Phase("long lists")
	for n := 0; n <= r.Pick(400, 3000); n++ {
		if n > 400 && n%37 != 0 {
			continue
		}
		for _, w := range []int{0, 1, 6} {
			for _, max := range []int{0, 7, 80, 400, 65535} {
				for _, sep := range []string{"", " "} {
					for m := 0; m < 4; m++ {
						if !r.Want() {
							continue
						}
						r.State()
						l := &lay{Layout: ref.Layout{ColW: []int{w}, Al: []int{0}, Sep: sep, Max: max, Compact: m&1 == 1, Vertical: m&2 == 2}}
						r.Do(func() string { return fmt.Sprintf("%d items of width %d: %s", n, w, l.desc()) }, func(c *C) {
							c.Nontrivial(w == 0 || sep == "" || max == 0 || max == 65535)
							t := l.table()
							t.UpdateWidth(map[string]uint16{ids[:1]: uint16(w)})
							items := make(list, n)
							for i := range items {
								items[i] = []string{strings.Repeat("y", w)}
							}
							judge12(c, t, items, l)
						})
					}
				}
			}
		}
	}
	genLayouts(r, func(r *Run, l *lay, c *C) {
		t, items := l.build(c)
		c.Nontrivial(l.Sep == "" || l.RowWidth() == 0 || l.N() == 0)
		judge12(c, t, items, l)
	})
}

var errDisk = errors.New("no space left on device")

// passing claims to be a passing condition, as network errors do
type passing struct{}

func (passing) Error() string   { return "try again" }
func (passing) Temporary() bool { return true }
func (passing) Timeout() bool   { return true }

// the errors an output may give, some of which code likes to treat specially
var outErrs = []error{errDisk, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, os.ErrClosed, passing{}, &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}}

// faulty fails when it has accepted at bytes.
type faulty struct {
	at     int
	style  int // 0 accept the part up to at, 1 accept nothing of the failing write, 2 accept all of it
	once   bool
	err    error
	got    []byte
	failed bool
	after  int // writes after the failure
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.failed {
		f.after++
		if f.once {
			f.got = append(f.got, p...)
			return len(p), nil
		}
		return 0, f.err
	}
	if len(f.got)+len(p) <= f.at {
		f.got = append(f.got, p...)
		return len(p), nil
	}
	f.failed = true
	n := f.at - len(f.got)
	switch f.style {
	case 1:
		n = 0
	case 2:
		n = len(p)
	}
	f.got = append(f.got, p[:n]...)
	return n, f.err
}

func c13(r *Run) {
	failingOutputs(r)
	c13long(r)
	c13lines(r)
	r.Phase("output failures")
	maxes := []int{0, 9, 30}
	if r.Thorough() {
		maxes = []int{0, 5, 9, 17, 60}
	}
	for nc := 1; nc <= 2; nc++ {
		for n := 0; n <= r.Pick(5, 9); n++ {
			for pat := 0; pat < 3; pat++ {
				ws := make([][]int, n)
				cells := make([][]string, n)
				colw := make([]int, nc)
				for i := range ws {
					for j := 0; j < nc; j++ {
						w := []int{1, (i + j) % 4, i % 2 * 5}[pat]
						ws[i] = append(ws[i], w)
						cells[i] = append(cells[i], cellText(i, j, nc, w))
						if w > colw[j] {
							colw[j] = w
						}
					}
				}
				for _, max := range maxes {
					for _, sep := range []string{"", " ", " | "} {
						for m := 0; m < 4; m++ {
							l := &lay{Layout: ref.Layout{ColW: colw, Al: []int{2, 0}[:nc], Cells: cells, W: ws, Sep: sep, Max: max, Compact: m&1 == 1, Vertical: m&2 == 2}}
							full := ""
							have := false
							// the number of failure points depends on the output, so count it in every worker
							size := c13size(l)
							for at := 0; at <= size; at++ {
								for style := 0; style < 6*len(outErrs); style++ {
									if style >= 6 && (at+style/6)%4 != 0 && !r.Thorough() {
										continue
									}
									if !r.Want() {
										continue
									}
									r.State()
									c13case(r, l, at, size, style, &full, &have)
								}
							}
						}
					}
				}
			}
		}
	}
	r.Phase("failures in long outputs")
	for _, n := range []int{20, 70, 150, r.Pick(300, 999)} {
		for _, w := range []int{4, 60} {
			var ws [][]int
			var cells [][]string
			for i := 0; i < n; i++ {
				ws = append(ws, []int{w})
				cells = append(cells, []string{bigText(i, 0, w)})
			}
			for _, max := range []int{0, 2*w + 1} {
				for m := 0; m < 4; m++ {
					l := &lay{Layout: ref.Layout{ColW: []int{w}, Al: []int{0}, Cells: cells, W: ws, Sep: " ", Max: max, Compact: m&1 == 1, Vertical: m&2 == 2}}
					full := ""
					have := false
					size := c13size(l)
					step := w + 1
					if max > 0 {
						step = 2 * (w + 1)
					}
					for at := 0; at <= size; at += step {
						for _, d := range []int{-1, 0, 3} {
							for _, style := range []int{0, 1, 4} {
								if at+d < 0 || !r.Want() {
									continue
								}
								r.State()
								c13case(r, l, at+d, size, style, &full, &have)
							}
						}
					}
				}
			}
		}
	}
}

func c13case(r *Run, l *lay, at, size, style int, fullp *string, have *bool) {
	werr := outErrs[style/6]
	style %= 6
	r.Do(func() string {
		return fmt.Sprintf("output fails at byte %d of %d, style %d, with %v: %s", at, size, style, werr, l.desc())
	}, func(c *C) {
		if !*have {
			t, items := l.build(c)
			*fullp = mergeStr(t, items, l.Vertical, l.Max, l.Sep, l.Compact)
			*have = true
		}
		full := *fullp
		t, items := l.build(c)
		f := &faulty{at: at, style: style % 3, once: style >= 3, err: werr}
		p := Try(func() {
			if l.Vertical {
				t.MergeRowsVertical(f, items, l.Max, l.Sep, l.Compact)
			} else {
				t.MergeRowsHorizontal(f, items, l.Max, l.Sep, l.Compact)
			}
		})
		c.Op(1)
		c.Nontrivial(f.failed)
		c.OutcomeN(at*8 + style)
		if !f.failed {
			if p != nil {
				c.Fail("panic %v without a write error", p)
			} else if string(f.got) != full {
				c.Fail("a working output received %s, another %s", q(string(f.got)), q(full))
			}
			return
		}
		if p == nil {
			c.Fail("the write error was swallowed")
			return
		}
		if !isErr(p, werr) {
			c.Fail("panic value %v is not the output's error", p)
			return
		}
		if f.after > 0 {
			c.Fail("%d more writes after the failure", f.after)
			return
		}
		if !strings.HasPrefix(full, string(f.got)) {
			c.Fail("accepted %s is no prefix of %s", q(string(f.got)), q(full))
		}
	})
}

// c13size bounds the length of the output from the reference layout.
func c13size(l *lay) int {
	if l.N() == 0 {
		return 1
	}
	g := l.PlainGroups()
	per := false
	if l.Compact {
		g, per = l.CompactGroups()
	}
	if g > l.N()+1 {
		g = l.N() + 1
	}
	return len(l.Render(g, per)) + 2
}
