package main

import (
	"fmt"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verifmc/ref"
)

// ---- very many: columns, items, lines, code points beyond 16 bits, and objects in use at
// the same time ----

var hugeCounts = []int{3000, 32767, 32768, 32769, 65535, 65536, 65537, 70000}

func bigTable(n int) (*table.Table, []string) {
	t := table.NewTable(nil)
	row := make([]string, n)
	for j := 0; j < n; j++ {
		t.AddColumn(&table.Column{Name: fmt.Sprint("n", j), Title: string(rune('A' + j%26)), Getter: cellGetter{j}, Alignment: alignment(1 + j%3)})
		row[j] = strings.Repeat("x", 1+j%2)
	}
	return t, row
}

func many(r *Run, what string, f func(c *C)) {
	if !r.Want() {
		return
	}
	r.State()
	r.Do(func() string { return what }, func(c *C) {
		c.Nontrivial(true)
		f(c)
	})
}

func veryMany(r *Run) {
	r.Phase("very many columns")
	for _, n := range hugeCounts {
		n := n
		switch current {
		case "C04":
			many(r, fmt.Sprintf("%d columns", n), func(c *C) {
				t, row := bigTable(n)
				for k := 0; k < 2; k++ {
					if _, err := t.FormatItem(row); err != nil {
						c.Fail("%v", err)
						return
					}
					for j := range row {
						want := 1 + j%2
						if k == 1 && (j == 7 || j == n-1) {
							want = 5
						}
						if got := int(t.Width(fmt.Sprint("n", j))); got != want {
							c.Fail("column %d is %d wide, want %d", j, got, want)
							return
						}
						c.Op(1)
					}
					row = append([]string(nil), row...)
					row[7], row[n-1] = "xxxxx", "yyyyy"
				}
			})
		case "C05":
			many(r, fmt.Sprintf("%d columns", n), func(c *C) {
				t, row := bigTable(n)
				f, err := t.FormatItem(row)
				if err != nil || len(f) != n {
					c.Fail("%d cells, %v", len(f), err)
					return
				}
				for j := range f {
					if f[j] != row[j] {
						c.Fail("cell %d is %q", j, f[j])
						return
					}
				}
				b, err := t.FormatItemBasic(row, ",")
				c.Op(2)
				if err != nil || b != strings.Join(row, ",") {
					c.Fail("basic formatting: %s, %v", clip(b), err)
				}
			})
		case "C06":
			many(r, fmt.Sprintf("%d columns", n), func(c *C) {
				t, row := bigTable(n)
				u := map[string]uint16{}
				for j := range row {
					u[fmt.Sprint("n", j)] = 4
				}
				t.UpdateWidth(u)
				f, err := t.AlignFormattedItem(append([]string(nil), row...))
				c.Op(2)
				if err != nil || len(f) != n {
					c.Fail("%d cells, %v", len(f), err)
					return
				}
				for j := range f {
					if want := ref.Pad(1+j%3, row[j], len(row[j]), 4); f[j] != want {
						c.Fail("cell %d is %q, want %q", j, f[j], want)
						return
					}
				}
				if f, err := t.AlignFormattedItem(make([]string, n-1)); err == nil || len(f) > 0 {
					c.Fail("a row of one cell less was aligned")
				}
				if f, err := t.AlignFormattedItem(make([]string, n%65536)); n >= 65536 && (err == nil || len(f) > 0) {
					c.Fail("a row of %d cells was aligned", n%65536)
				}
			})
		case "C07":
			many(r, fmt.Sprintf("%d columns", n), func(c *C) {
				t, row := bigTable(n)
				t.FormatItem(row)
				var b strings.Builder
				for j := 0; j < n; j++ {
					b.WriteString(ref.Pad(ref.AlCenter, string(rune('A'+j%26)), 1, 1+j%2))
				}
				c.Op(1)
				if got := t.FormatHeader(""); got != b.String()+"\n" {
					c.Fail("header of %d bytes, want %d: %s", len(got), b.Len()+1, q(got))
				}
			})
		case "C21":
			many(r, fmt.Sprintf("%d columns", n), func(c *C) {
				t, row := bigTable(n)
				u := table.NewTable(t.TableSpec)
				u.UpdateWidth(map[string]uint16{"n0": 3, fmt.Sprint("n", n-1): 4})
				if t.ColumnCount() != n || len(t.Columns) != n || len(t.ColumnByName) != n {
					c.Fail("%d columns, %d names", t.ColumnCount(), len(t.ColumnByName))
					return
				}
				for j := range row {
					if x := fmt.Sprint("n", j); !t.HasColumn(x) || t.ColumnByName[x] != t.Columns[j] || t.Columns[j].Name != x {
						c.Fail("column %d is not found", j)
						return
					}
				}
				for _, m := range []int{0, 1, 2, 65535} {
					c.Op(1)
					if got, want := int(u.TableWidth(uint16(m))), ref.Cap(7+(n-1)*m); got != want {
						c.Fail("total width for margin %d is %d, want %d", m, got, want)
						return
					}
				}
			})
		}
	}

	r.Phase("very many in use at once")
	for _, n := range []int{20, 40, 80, 200, 300, 1100, 5000, 70000} {
		n := n
		switch current {
		case "C04", "C21":
			many(r, fmt.Sprintf("%d tables", n), func(c *C) {
				spec := table.NewTableSpec()
				var ts []*table.Table
				for i := 0; i < n; i++ {
					t := table.NewTable(spec)
					if i%2 == 1 {
						t = table.NewTable(nil)
					}
					if i%8 == 1 {
						t.AddColumn(&table.Column{Name: fmt.Sprint("own", i), Getter: cellGetter{0}})
					}
					t.UpdateWidth(map[string]uint16{"a": uint16(1 + i%60000), fmt.Sprint(i): 7})
					ts = append(ts, t)
				}
				for i, t := range ts {
					c.Op(1)
					if int(t.Width("a")) != 1+i%60000 || t.Width(fmt.Sprint(i)) != 7 || t.Width(fmt.Sprint(i+1)) != 0 || t.Width(fmt.Sprint(i-64)) != 0 {
						c.Fail("table %d of %d has the widths %d, %d", i, n, t.Width("a"), t.Width(fmt.Sprint(i)))
						return
					}
					if x := 0; i%8 == 1 {
						x = 1
						if t.ColumnCount() != x || !t.HasColumn(fmt.Sprint("own", i)) {
							c.Fail("table %d of %d has %d columns", i, n, t.ColumnCount())
							return
						}
					} else if t.ColumnCount() != 0 || t.TableSpec == nil {
						c.Fail("table %d of %d has %d columns", i, n, t.ColumnCount())
						return
					}
				}
			})
		case "C05", "C14":
			many(r, fmt.Sprintf("%d formatted items", n), func(c *C) {
				t := table.NewTable(nil)
				t.AddColumn(&table.Column{Name: "a", Getter: cellGetter{0}, Alignment: table.AlignmentRight})
				t.AddColumn(&table.Column{Name: "b", Getter: cellGetter{1}})
				var fs [][]string
				for i := 0; i < n; i++ {
					f, err := t.FormatItem([]string{fmt.Sprint(i), fmt.Sprint("-", i)})
					c.Op(1)
					if err != nil || len(f) != 2 {
						c.Fail("%q %v", f, err)
						return
					}
					fs = append(fs, f)
				}
				for i, f := range fs {
					if f[0] != fmt.Sprint(i) || f[1] != fmt.Sprint("-", i) {
						c.Fail("the cells of item %d of %d became %q", i, n, f)
						return
					}
				}
			})
		case "C23":
			if n > 5000 {
				continue
			}
			many(r, fmt.Sprintf("%d conditions", n), func(c *C) {
				ea, st := runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral
				defer func() { runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = ea, st }()
				var cs []*runewidth.Condition
				for i := 0; i < n; i++ {
					runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = i%3 == 1, i%5 < 2
					cs = append(cs, runewidth.NewCondition())
				}
				for i, x := range cs {
					if x.EastAsianWidth != (i%3 == 1) || x.StrictEmojiNeutral != (i%5 < 2) {
						c.Fail("condition %d of %d has %v, %v", i, n, x.EastAsianWidth, x.StrictEmojiNeutral)
						return
					}
					for _, s := range []string{"│", "☎", "世", "a"} {
						c.Op(1)
						if got, want := x.StringWidth(s), ref.StringWidth(cfgOf(x), s); got != want {
							c.Fail("condition %d of %d: width of %q is %d, want %d", i, n, s, got, want)
							return
						}
					}
				}
				if d := runewidth.DefaultCondition; d.EastAsianWidth != ea {
					c.Fail("the default condition changed")
				}
			})
		case "C24":
			many(r, fmt.Sprintf("%d iterators", n), func(c *C) {
				text := func(i int) string { return fmt.Sprint(i%10, "e\u0301", i%7, "👩\u200d🍳", i) }
				var gs []*uniseg.Graphemes
				for i := 0; i < n; i++ {
					gs = append(gs, uniseg.NewGraphemes(text(i)))
				}
				var kept [][]rune
				for k := 0; k < 3; k++ {
					for i, g := range gs {
						c.Op(1)
						if !g.Next() {
							c.Fail("iterator %d of %d ends at step %d", i, n, k)
							return
						}
						kept = append(kept, g.Runes())
					}
				}
				for k := range kept {
					i := k % n
					if want := []string{fmt.Sprint(i % 10), "e\u0301", fmt.Sprint(i % 7)}[k/n]; string(kept[k]) != want {
						c.Fail("iterator %d of %d, step %d: runes %+q, want %+q", i, n, k/n, string(kept[k]), want)
						return
					}
				}
			})
		}
	}
	if current == "C04" {
		r.Phase("very many items")
		for _, n := range []int{1000, 10001, 20001, 32769, 65537, 100001, 300000} {
			n := n
			many(r, fmt.Sprintf("%d items, the first the widest", n), func(c *C) {
				t := table.NewTable(nil)
				t.AddColumn(&table.Column{Name: "a", Getter: cellGetter{0}})
				wide, small := []string{"the widest of all"}, []string{"xy"}
				for i := 0; i < n; i++ {
					row := small
					if i == 0 {
						row = wide
					}
					if _, err := t.FormatItem(row); err != nil || t.Width("a") != 17 {
						c.Fail("item %d: width %d, %v", i, t.Width("a"), err)
						return
					}
					if i%3 == 0 {
						t.UpdateWidth(map[string]uint16{"a": 3})
					}
					c.Op(1)
				}
			})
		}
	}
}

// hugeTexts: texts and clusters longer than 16 bits count.
func hugeTexts(r *Run, one func(s string)) {
	r.Phase("huge texts and clusters")
	for _, n := range []int{5000, 10001, 32767, 32768, 65535, 65536, 65537, 131072, 140000, 300000, 1 << 20} {
		for _, u := range []string{"a", "世", "e\u0301", "🇺", "\u0301", "\u200d👩", "ᄀ", "\r\n", "\xff", "\u0600"} {
			k := n / len(u)
			if k*len([]rune(u)) > 300000 && u != "a" {
				continue
			}
			for d := -1; d <= 1; d++ {
				for _, e := range []string{"", "👩\u0301z"} {
					if r.Want() {
						one("👩" + strings.Repeat(u, k+d) + e)
					}
				}
			}
		}
	}
}

// hugeLists: more items and lines than 16 bits count.
func hugeLists(r *Run, emit func(l *lay)) {
	r.Phase("very many items")
	for _, n := range []int{32767, 32768, 32769, 40001, 65535, 65536, 65537, 70000} {
		for m := 0; m < 4; m++ {
			for _, max := range []int{3, 39, 40} {
				if !r.Want() {
					continue
				}
				cw := 4
				cells := make([][]string, n)
				ws := make([][]int, n)
				const d = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
				for i := range cells {
					// four characters that differ for every item of a list this long
					cells[i] = []string{string([]byte{'a' + byte(i/46656), d[i/1296%36], d[i/36%36], d[i%36]})}
					ws[i] = []int{4}
				}
				if max == 40 { // one wider item, so that compact layouts gain
					cw = 9
					cells[0][0] += "-----"
					ws[0][0] = 9
				}
				emit(&lay{big: true, Layout: ref.Layout{ColW: []int{cw}, Al: []int{1}, Cells: cells, W: ws, Sep: " ", Max: max, Compact: m&1 == 1, Vertical: m&2 == 2}})
			}
		}
	}
}

// c13lines: failures after many lines.
func c13lines(r *Run) {
	r.Phase("failures after many lines")
	for _, n := range []int{500, 1030, 2050, 5000} {
		var ws [][]int
		var cells [][]string
		for i := 0; i < n; i++ {
			ws = append(ws, []int{4})
			cells = append(cells, []string{bigText(i, 0, 4)})
		}
		for m := 0; m < 4; m++ {
			l := &lay{big: true, Layout: ref.Layout{ColW: []int{4}, Al: []int{0}, Cells: cells, W: ws, Sep: " ", Max: 4, Compact: m&1 == 1, Vertical: m&2 == 2}}
			full, have := "", false
			size := c13size(l)
			for line := 0; line < n; line++ {
				if line > 40 && line < n-20 && line%37 > 1 {
					continue
				}
				for k, at := range []int{5 * line, 5*line + 2, 5*line + 4} {
					for style := 0; style < 5; style++ {
						if (k+line)%3 != style%3 || at > size || !r.Want() {
							continue
						}
						r.State()
						c13case(r, l, at, size, style, &full, &have)
					}
				}
			}
		}
	}
}

// c24huge: the protocol on huge texts and clusters.
func c24huge(r *Run) {
	hugeTexts(r, func(s string) {
		r.State()
		r.Do(func() string { return "iterator over " + q(s) }, func(c *C) {
			c.Nontrivial(true)
			g := uniseg.NewGraphemes(s)
			var first []rune
			want := ref.Clusters(s)
			for i, w := range want {
				if !g.Next() {
					c.Fail("the iterator ends after %d of %d clusters", i, len(want))
					return
				}
				x := g.Runes()
				if i == 0 {
					first = x
				}
				if (i < 5 || i > len(want)-5) && !same(x, []rune(w)) {
					c.Fail("cluster %d is %s, want %s", i, q(string(x)), q(w))
					return
				}
			}
			c.Op(len(want))
			c.OutcomeN(len(want))
			for k := 0; k < 3; k++ {
				if g.Next() || g.Runes() != nil {
					c.Fail("the iterator goes on after its end")
					return
				}
			}
			if !same(first, []rune(want[0])) {
				c.Fail("the runes of the first cluster became %s", q(string(first)))
			}
		})
	})
}
