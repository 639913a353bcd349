package main

import (
	"fmt"
	"strings"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

// ---- C17, C18, C20: every code point with a grapheme class, in every place of a cluster ----

func specialPoints(r *Run, one func(s string)) {
	r.Phase("every code point with a grapheme class among others")
	near := []string{"", "a", "世", "1", "\u0301", "\u0903", "\u200d", "\ufe0f", "\ufe0e", "\u20e3", "👩", "☺", "🇺", "ᄀ", "ᅡ", "\u0600", "🏻", "\u200c", "\U000e0062", "\xff"}
	for cp := rune(0); cp < ref.NCP; cp++ {
		if cp >= 0xd800 && cp < 0xe000 || ref.Class(cp) == ref.Class('a') || cp > 0xac20 && cp < 0xd780 || cp > 0xe0200 && cp < 0xe0f00 {
			continue
		}
		x := string(cp)
		for _, a := range near {
			for _, b := range near {
				if !r.Want() {
					continue
				}
				one(x + a + b)
				one(a + x + b)
				one(a + b + x)
			}
		}
	}
	r.Phase("clusters as emoji lists have them")
	mid := []string{"", "\ufe0f", "\ufe0e", "🏻", "🏿", "\u20e3", "\ufe0f\u20e3", "\u200d", "\ufe0f\u200d", "🏽\u200d", "\u200d\u2642\ufe0f", "\U000e0067\U000e0062\U000e007f", "\u0301", "\u200c", "\u200b", "\u034f", "\u1160"}
	base := []string{"#", "*", "0", "9", "a", "©", "®", "™", "↔", "⌚", "☎", "☝", "❤", "⭐", "〰", "㊙", "🀄", "🃏", "🅰", "🇦", "🇿", "🈁", "👁", "👍", "👨", "🏴", "🐻", "😀", "🦰", "🧑", "🫶", "世", "가"}
	for _, a := range base {
		for _, m := range mid {
			for _, b := range append([]string{""}, base...) {
				for _, n := range mid {
					if r.Want() {
						one(a + m + b + n)
					}
				}
			}
		}
	}
}

// ---- C08 - C12: merging with a history ----

var warmNames = []string{"nothing", "merging the list in reverse", "merging the same list in another mode", "merging the list as it was before it was edited in place", "merging a list of narrower cells", "header, alignment and basic formatting", "merging with narrower columns", "merging with other alignments", "merging a longer list", "merging with fewer columns", "merging through another table on the same specification", "merging with equal rows stored once", "merging rows cut from one array", "merging at another width"}

// warmUp builds the table and the list with a history that must not matter.
func (l *lay) warmUp(c *C) (*table.Table, list) {
	t := l.table()
	merge := func(t *table.Table, x list, vertical bool, max int, compact bool) {
		mergeStr(t, x, vertical, max, l.Sep, compact)
		c.Op(1)
	}
	rows := func(f func(i, j int, s string) string) (out list) {
		for i, row := range l.Cells {
			var a []string
			for j, s := range row {
				if f != nil {
					s = f(i, j, s)
				}
				a = append(a, s)
			}
			out = append(out, a)
		}
		return
	}
	format := func(t *table.Table) {
		for _, row := range l.Cells {
			if _, err := t.FormatItem(row); err != nil {
				c.Fail("FormatItem: %v", err)
			}
		}
		l.widen(t)
	}
	out := rows(nil)
	switch l.warm {
	case 1:
		format(t)
		rev := make(list, len(out))
		for i := range out {
			rev[len(out)-1-i] = out[i]
		}
		merge(t, rev, l.Vertical, l.Max, l.Compact)
	case 2:
		format(t)
		for m := 0; m < 4; m++ {
			merge(t, out, m&2 == 2, l.Max, m&1 == 1)
		}
	case 3:
		format(t)
		out = rows(func(i, j int, s string) string { return l.Cells[len(l.Cells)-1-i][j] })
		merge(t, out, l.Vertical, l.Max, l.Compact)
		for i := range out {
			copy(out[i], l.Cells[i])
		}
	case 4:
		format(t)
		merge(t, rows(func(i, j int, s string) string {
			if i > 0 {
				return "x"
			}
			return s
		}), l.Vertical, l.Max, l.Compact)
	case 5:
		format(t)
		t.FormatHeader(l.Sep)
		t.AlignFormattedItem(append([]string(nil), out[0]...))
		t.FormatItemBasic(l.Cells[0], l.Sep)
		t.TableWidth(1)
	case 6:
		merge(t, out, l.Vertical, l.Max, l.Compact)
		t.UpdateWidth(map[string]uint16{l.name(0): uint16(l.ColW[0] / 2)})
		merge(t, out, l.Vertical, l.Max, l.Compact)
		format(t)
	case 7:
		format(t)
		for j, col := range t.Columns {
			col.Alignment = alignment((l.Al[j] + 1) % ref.AlDots)
		}
		merge(t, out, l.Vertical, l.Max, l.Compact)
		for j, col := range t.Columns {
			col.Alignment = alignment(l.Al[j])
		}
	case 8:
		format(t)
		merge(t, append(append(append(list{}, out...), out...), out...), l.Vertical, l.Max, l.Compact)
		merge(t, out[:len(out)/2], l.Vertical, l.Max, l.Compact)
	case 9:
		cols := t.Columns
		t = table.NewTable(nil)
		for j, col := range cols {
			t.AddColumn(col)
			var part list
			for _, row := range out {
				part = append(part, row[:j+1])
			}
			merge(t, part, l.Vertical, l.Max, l.Compact)
		}
		format(t)
	case 10:
		u := table.NewTable(t.TableSpec)
		format(t)
		u.UpdateWidth(map[string]uint16{l.name(0): 40})
		merge(u, out, l.Vertical, l.Max, l.Compact)
	case 11:
		format(t)
		for i := range out {
			for k := 0; k < i; k++ {
				if strings.Join(out[i], "\x00") == strings.Join(out[k], "\x00") {
					out[i] = out[k]
					break
				}
			}
		}
	case 12:
		format(t)
		var all []string
		for _, row := range l.Cells {
			all = append(all, row...)
		}
		for i := range out {
			out[i] = all[i*l.C() : (i+1)*l.C()]
		}
	case 13:
		format(t)
		merge(t, out, l.Vertical, l.Max*2+7, l.Compact)
		merge(t, out, l.Vertical, l.Max/2, l.Compact)
	}
	return t, out
}

func warmMerge(r *Run, emit func(l *lay)) {
	r.Phase("with a history")
	lines := current == "C08" || current == "C09"
	for _, nc := range []int{1, 2, 3, 9} {
		for _, n := range []int{1, 2, 3, 4, 7, 8, 20} {
			for _, kind := range []int{0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12} {
				if (kind == 3 || kind == 12) && !lines || nc*n > 60 && kind == 3 {
					continue
				}
				for warm := 1; warm < len(warmNames); warm++ {
					for m := 0; m < 4; m++ {
						for mi := 0; mi < 4; mi++ {
							if !r.Want() {
								continue
							}
							w := world{nc, n, kind, 0, 0}
							sep := []string{" ", "|", "", "--"}[(nc+n+kind+warm)%4]
							l := oddLay(r, w.rows(), sep, 0, m, (warm+mi)%3)
							l.warm = warm
							one := nc - 1
							for _, x := range l.ColW {
								one += x
							}
							l.Max = []int{one, 2*one + len(sep), 3*one + 2*len(sep) - 1, 100 * one}[mi]
							emit(l)
						}
					}
				}
			}
		}
	}
}

// ---- C14: what an operation yields does not depend on what ran before ----

func c14history(r *Run) {
	r.Phase("several lists on one table")
	for shape := 0; shape < 4; shape++ {
		nc := []int{1, 2, 3, 2}[shape]
		cell := func(k, i, j int) string {
			switch k {
			case 0:
				return strings.Repeat("a", 1+(i*3+j)%5)
			case 1: // as 0 in the first row
				if i == 0 {
					return strings.Repeat("a", 1+j%5)
				}
				return strings.Repeat("b", 6-(i*3+j)%5)
			case 2: // the same widths in total
				return strings.Repeat("c", 1+((5-i)*3+j)%5)
			case 3:
				return ""
			case 4:
				return []string{"世", "\x1b[1mz\x1b[0m", "e\u0301", "", "wide enough"}[(i+j)%5]
			}
			return strings.Repeat("a", 1+(i*3+j)%5)
		}
		type state struct {
			t     *table.Table
			lists []list
		}
		mk := func() *state {
			s := &state{t: table.NewTable(nil)}
			for j := 0; j < nc; j++ {
				s.t.AddColumn(&table.Column{Name: fmt.Sprint("c", j), Title: "Title", ShortTitle: "T", Getter: cellGetter{j}, Alignment: alignment((j + shape) % ref.NAl), Type: colType(j)})
			}
			for k := 0; k < 6; k++ {
				n := 6
				if k == 5 {
					n = 7
				}
				var l list
				for i := 0; i < n; i++ {
					var row []string
					for j := 0; j < nc; j++ {
						row = append(row, cell(k, i, j))
					}
					l = append(l, row)
				}
				s.lists = append(s.lists, l)
			}
			if shape == 3 {
				s.lists[1][2], s.lists[1][4] = s.lists[1][0], s.lists[1][0]
			}
			for _, l := range s.lists[:5] {
				for _, row := range l {
					s.t.FormatItem(append([]string(nil), row...))
				}
			}
			return s
		}
		type op struct {
			name string
			f    func(s *state) string
		}
		var ops []op
		for k := 0; k < 6; k++ {
			k := k
			for m := 0; m < 4; m++ {
				m := m
				for _, max := range []int{14 * nc, 60} {
					max := max
					ops = append(ops, op{fmt.Sprintf("merge list %d mode %d max %d", k, m, max), func(s *state) string { return mergeStr(s.t, s.lists[k], m&2 == 2, max, "|", m&1 == 1) }})
				}
			}
			ops = append(ops, op{fmt.Sprint("basic ", k), func(s *state) string {
				x, err := s.t.FormatItemBasic([]string(s.lists[k][1]), ",")
				return fmt.Sprint(x, err)
			}}, op{fmt.Sprint("align ", k), func(s *state) string {
				x, err := s.t.AlignFormattedItem(append([]string(nil), s.lists[k][3]...))
				return fmt.Sprintf("%q %v", x, err)
			}})
		}
		ops = append(ops,
			op{"header", func(s *state) string { return s.t.FormatHeader("|") }},
			op{"header 2", func(s *state) string { return s.t.FormatHeader("") }},
			op{"total width", func(s *state) string { return fmt.Sprint(s.t.TableWidth(1), s.t.TableWidth(4)) }})
		edits := []op{
			{"", func(s *state) string { return "" }},
			{"two rows exchanged", func(s *state) string {
				for _, l := range s.lists {
					l[1], l[4] = l[4], l[1]
				}
				return ""
			}},
			{"cells edited in place", func(s *state) string {
				for k, l := range s.lists {
					l[0][0], l[2][nc-1], l[5][0] = "edit", fmt.Sprint(k), ""
				}
				return ""
			}},
			{"a column widened", func(s *state) string {
				s.t.UpdateWidth(map[string]uint16{"c0": 19})
				return ""
			}},
			{"titles edited", func(s *state) string {
				for _, col := range s.t.Columns {
					col.Title, col.ShortTitle = "New", "N"
				}
				return ""
			}},
			{"alignments edited", func(s *state) string {
				for j, col := range s.t.Columns {
					col.Alignment = alignment((j + shape + 2) % ref.NAl)
				}
				return ""
			}},
			{"an item formatted", func(s *state) string {
				row := make([]string, nc)
				for j := range row {
					row[j] = "a rather wide text"
				}
				s.t.FormatItem(row)
				return ""
			}},
			{"lists exchanged", func(s *state) string {
				s.lists[0], s.lists[2] = s.lists[2], s.lists[0]
				return ""
			}},
			{"columns renamed", func(s *state) string {
				for _, col := range s.t.Columns {
					col.Title += "!"
				}
				s.t.Columns[0].Getter = cellGetter{nc - 1}
				return ""
			}},
		}
		alone := map[[2]int]string{}
		want := func(e, k int) string {
			x, ok := alone[[2]int{e, k}]
			if !ok {
				s := mk()
				edits[e].f(s)
				x = ops[k].f(s)
				alone[[2]int{e, k}] = x
			}
			return x
		}
		run := func(seq []int, e int) {
			if !r.Want() {
				return
			}
			r.State()
			seq = append([]int(nil), seq...)
			r.Do(func() string {
				var n []string
				for i, k := range seq {
					n = append(n, ops[k].name)
					if i == len(seq)-2 && e > 0 {
						n = append(n, edits[e].name)
					}
				}
				return fmt.Sprintf("shape %d: %s", shape, strings.Join(n, "; "))
			}, func(c *C) {
				s := mk()
				for i, k := range seq {
					if i == len(seq)-1 {
						edits[e].f(s)
						break
					}
					c.Op(1)
					if got := ops[k].f(s); got != want(0, k) {
						c.Fail("step %d (%s) gives %s, alone it gives %s", i, ops[k].name, q(got), q(want(0, k)))
						return
					}
				}
				k := seq[len(seq)-1]
				got := ops[k].f(s)
				c.Op(1)
				c.Nontrivial(true)
				c.Outcome(got)
				if got != want(e, k) {
					c.Fail("%s gives %s, alone it gives %s", ops[k].name, q(got), q(want(e, k)))
				}
			})
		}
		wordsN(len(ops), 2, func(w []int) {
			for e := range edits {
				run(w, e)
			}
		})
		if shape == 1 || r.Thorough() {
			wordsN(len(ops), 3, func(w []int) { run(w, 0) })
		}
	}
}
