package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

func init() {
	register(&Check{ID: "C04", Run: c04, EnvEA: true,
		Bounds: map[string]string{
			"rule":     "cases: operation sequences on fresh tables; after every operation all widths of both tables are compared with the model; non-trivial: at least two operations that may change a width",
			"quick":    "all sequences to length 4 of 20 operations (formatting good and failing items, merging widths, rendering, adding a column) on two tables that share a specification; each of 4 column layouts (incl. a repeated name), with all, no or mixed alignments; all ordered pairs of 32 look-alike names; cells of every length to 1200 and near round numbers to 70000; every mergeable width 0..65535; histories of 0-300 and up to 20001 items with the widest last; up to 1000 tables on one specification",
			"thorough": "the same to length 5",
		}})
	register(&Check{ID: "C14", Run: c14,
		Bounds: map[string]string{
			"rule":     "cases: (table, sequence of rendering operations); results compared with those of each operation alone on an identical fresh table; non-trivial: sequence of two or more operations",
			"quick":    "12 tables (0-3 columns, 0-6 items, all alignments, spare slice capacity) x all sequences to length 3 of 16 operations; each operation 300 times; 20 lists of 7-1025 items; every pair of operations with one of 5 changes in between",
			"thorough": "the same to length 4",
		}})
}

var errGetter = errors.New("getter failed")

// mapItem maps column key to text. "!v" / "!f" texts make the getter fail.
type mapItem map[string]string

type mapGetter struct{ key string }

func (g mapGetter) Value(item any) (any, error) {
	s := item.(mapItem)[g.key]
	if strings.HasPrefix(s, "!v") {
		return nil, errGetter
	}
	return s, nil
}
func (g mapGetter) ValueString(n string, item any) (string, error) { return item.(mapItem)[g.key], nil }
func (g mapGetter) Format(item any, v any) (string, error) {
	s := v.(string)
	if strings.HasPrefix(s, "!f") {
		return "", errGetter
	}
	return s, nil
}

func c04(r *Run) {
	c04names(r)
	c04sizes(r)
	veryMany(r)
	c04more(r)
	matrix(r)
	layouts := [][]string{{"x", "y"}, {"x", "y", "x"}, {"x"}, {"y", "z", "x"}}
	long := strings.Repeat("L", 300)
	type op struct {
		name string
		tbl  int // 0, 1
		item mapItem
		upd  map[string]uint16
		kind int // 0 format, 1 update, 2 render, 3 align, 4 add column, 5 header+tablewidth, 6 basic
	}
	ops := []op{
		{name: "A.Format(x=a,y=2 wide)", item: mapItem{"x": "a", "y": "世世"}},
		{name: "A.Format(x=coloured 9,y=)", item: mapItem{"x": "\x1b[1mwide text\x1b[0m", "y": "", "z": "zz"}},
		{name: "B.Format(x=abc,y=d)", tbl: 1, item: mapItem{"x": "abc", "y": "d", "z": "│"}},
		{name: "A.Format(empty)", item: mapItem{}},
		{name: "A.Format(value of x fails)", item: mapItem{"x": "!v", "y": "yyyyyy", "z": "zzz"}},
		{name: "A.Format(value of y fails)", item: mapItem{"x": "partial", "y": "!v", "z": "zzzz"}},
		{name: "A.Format(format of y fails)", item: mapItem{"x": "partia", "y": "!fxxxxxxxxxxxx"}},
		{name: "A.Format(format of z fails)", item: mapItem{"x": "pa", "y": "par", "z": "!f"}},
		{name: "A.Format(300)", item: mapItem{"x": long, "y": "q"}},
		{name: "A.Update(x=4)", kind: 1, upd: map[string]uint16{"x": 4}},
		{name: "A.Update(x=0,y=2,n=9)", kind: 1, upd: map[string]uint16{"x": 0, "y": 2, "n": 9}},
		{name: "B.Update(y=7,z=2)", tbl: 1, kind: 1, upd: map[string]uint16{"y": 7, "z": 2}},
		{name: "A.Update(nil)", kind: 1},
		{name: "A.Update(x=65535)", kind: 1, upd: map[string]uint16{"x": 65535}},
		{name: "A.Update(y=256,x=255)", kind: 1, upd: map[string]uint16{"y": 256, "x": 255}},
		{name: "A.Render", kind: 2},
		{name: "A.Align", kind: 3},
		{name: "Spec.AddColumn(w)", kind: 4},
		{name: "A.Header", kind: 5},
		{name: "A.Basic", kind: 6, item: mapItem{"x": "basic basic basic", "y": "basic"}},
	}
	names := []string{"x", "y", "z", "w", "n", "absent"}
	for li, lay := range layouts {
		for av := 0; av < 3; av++ {
			if av == 2 && li == 2 { // one column: nothing to mix
				continue
			}
			r.Phase("columns " + strings.Join(lay, ",") + ", " + []string{"aligned", "not aligned", "mixed alignments"}[av])
			words(len(ops), r.Pick(4, 5), func(w []int) {
				if !r.Want() {
					return
				}
				r.State()
				seq := append([]int(nil), w...)
				r.Do(func() string {
					var n []string
					for _, i := range seq {
						n = append(n, ops[i].name)
					}
					return "columns " + strings.Join(lay, ",") + ": " + strings.Join(n, "; ")
				}, func(c *C) {
					spec := table.NewTableSpec()
					cols := append([]string(nil), lay...)
					for j, n := range lay {
						al := table.AlignmentRight
						if av == 1 {
							al = nil
						} else if av == 2 {
							al = alignment((j + li) % ref.NAl)
						}
						spec.AddColumn(&table.Column{Name: n, Title: "T" + n, Getter: mapGetter{n}, Alignment: al})
					}
					ts := [2]*table.Table{table.NewTable(spec), table.NewTable(spec)}
					model := [2]map[string]int{{}, {}}
					writes := 0
					for step, i := range seq {
						o := ops[i]
						t, m := ts[o.tbl], model[o.tbl]
						c.Op(1)
						partial := map[string][]int{}
						switch o.kind {
						case 0:
							writes++
							before := fmt.Sprint(o.item)
							out, err := t.FormatItem(o.item)
							failed := false
							got := map[string]int{}
							for _, n := range cols {
								s := o.item[n]
								if strings.HasPrefix(s, "!") {
									failed = true
									break
								}
								if v := ref.Visible(r.Cfg, s); v > got[n] {
									got[n] = v
								}
							}
							if failed != (err != nil) || (err == nil && len(out) != len(cols)) {
								c.Fail("step %d: %q, %v", step, out, err)
								return
							}
							if fmt.Sprint(o.item) != before {
								c.Fail("item changed")
								return
							}
							for n, v := range got {
								if v > m[n] {
									if failed {
										partial[n] = []int{m[n], v}
									} else {
										m[n] = v
									}
								}
							}
						case 1:
							writes++
							var u map[string]uint16
							if o.upd != nil {
								u = map[string]uint16{}
								for k, v := range o.upd {
									u[k] = v
									if int(v) > m[k] {
										m[k] = int(v)
									}
								}
							}
							t.UpdateWidth(u)
							for k, v := range u {
								if v != o.upd[k] || len(u) != len(o.upd) {
									c.Fail("step %d: the caller's map was changed", step)
									return
								}
								u[k] = 60000 // the table must not keep the caller's map
							}
						case 2:
							if m["x"] > 1000 {
								break // keep lines short
							}
							row := make([]string, len(cols))
							for j := range row {
								row[j] = "rendered wider than the column " + strings.Repeat("w", 310)
							}
							for _, compact := range []bool{false, true} {
								t.MergeRowsHorizontal(io.Discard, list{row, row}, 40, " ", compact)
								t.MergeRowsVertical(io.Discard, list{row, row}, 40, " ", compact)
							}
						case 3:
							if m["x"] > 1000 {
								break
							}
							row := make([]string, len(cols))
							for j := range row {
								row[j] = strings.Repeat("v", 320)
							}
							if _, err := t.AlignFormattedItem(row); err != nil {
								c.Fail("step %d: %v", step, err)
								return
							}
							if _, err := t.AlignFormattedItem([]string{"1", "2", "3", "4", "5", "6", "7", "8", "9"}); err == nil {
								c.Fail("step %d: nine cells accepted", step)
								return
							}
						case 4:
							spec.AddColumn(&table.Column{Name: "w", Title: "W", Getter: mapGetter{"w"}})
							cols = append(cols, "w")
						case 5:
							if m["x"] < 1000 {
								t.FormatHeader("|")
							}
							t.TableWidth(1)
						case 6:
							if _, err := t.FormatItemBasic(o.item, ","); err != nil {
								c.Fail("step %d: %v", step, err)
								return
							}
						}
						for k := range ts {
							for _, n := range names {
								got := int(ts[k].Width(n))
								if got == model[k][n] {
									continue
								}
								if p := partial[n]; k == o.tbl && p != nil && got == p[1] {
									model[k][n] = got
									continue
								}
								c.Fail("step %d (%s): width of column %q in table %c is %d, should be %d", step, o.name, n, 'A'+k, got, model[k][n])
								return
							}
						}
					}
					c.Nontrivial(writes > 1)
					c.Outcome(fmt.Sprint(model))
				})
			})
		}
	}
}

// ---- C14 ----

type c14table struct {
	cols  []int // alignment kinds
	items [][]string
	upd   map[string]uint16
	spare int
}

func (s *c14table) build() (*table.Table, list, [][]string) {
	spec := table.NewTableSpec()
	spec.TimeFormat = "tf"
	for i, al := range s.cols {
		n := fmt.Sprintf("c%d", i)
		spec.AddColumn(&table.Column{Name: n, Title: "Title " + n, ShortTitle: n, Type: colType(i + len(s.items)), Alignment: alignment(al), Getter: cellGetter{i}})
	}
	t := table.NewTable(spec)
	var l list
	var backing [][]string
	for _, it := range s.items {
		b := make([]string, len(it)+s.spare)
		copy(b, it)
		for k := len(it); k < len(b); k++ {
			b[k] = "spare"
		}
		backing = append(backing, b)
		l = append(l, b[:len(it)])
		if _, err := t.FormatItem(it); err != nil {
			panic(err)
		}
	}
	if s.upd != nil {
		t.UpdateWidth(s.upd)
	}
	return t, l, backing
}

var c14ops = []struct {
	name string
	f    func(t *table.Table, l list) string
}{
	{"H plain", func(t *table.Table, l list) string { return mergeStr(t, l, false, 30, " ", false) }},
	{"H compact", func(t *table.Table, l list) string { return mergeStr(t, l, false, 30, " ", true) }},
	{"V plain", func(t *table.Table, l list) string { return mergeStr(t, l, true, 30, " ", false) }},
	{"V compact", func(t *table.Table, l list) string { return mergeStr(t, l, true, 30, " ", true) }},
	{"H compact wide", func(t *table.Table, l list) string { return mergeStr(t, l, false, 200, " | ", true) }},
	{"V compact narrow", func(t *table.Table, l list) string { return mergeStr(t, l, true, 11, "  ", true) }},
	{"V plain wide", func(t *table.Table, l list) string { return mergeStr(t, l, true, 100, "世", false) }},
	{"header", func(t *table.Table, l list) string { return t.FormatHeader(" ") }},
	{"header wide sep", func(t *table.Table, l list) string { return t.FormatHeader(" | ") }},
	{"basic", func(t *table.Table, l list) string {
		s := ""
		for _, it := range l {
			x, err := t.FormatItemBasic([]string(it), ",")
			s += fmt.Sprint(x, err, ";")
		}
		return s
	}},
	{"format again", func(t *table.Table, l list) string {
		s := ""
		for _, it := range l {
			x, err := t.FormatItem([]string(it))
			s += fmt.Sprintf("%q %v;", x, err)
		}
		return s
	}},
	{"align copy", func(t *table.Table, l list) string {
		s := ""
		for _, it := range l {
			x, err := t.AlignFormattedItem(append([]string(nil), it...))
			s += fmt.Sprintf("%q %v;", x, err)
		}
		return s
	}},
	{"align texts", func(t *table.Table, l list) string {
		s := ""
		for _, it := range l {
			for _, x := range it {
				s += table.AlignmentLeft(x, 9) + "|" + table.AlignmentRight(x, 9) + "|" + table.AlignmentCenter(x, 9) + ";"
			}
		}
		return s
	}},
	{"widths", func(t *table.Table, l list) string {
		return fmt.Sprint(t.Width("c0"), t.Width("c1"), t.Width("c2"), t.Width("none"), t.TableWidth(1), t.TableWidth(3))
	}},
	{"spec", func(t *table.Table, l list) string {
		return fmt.Sprint(t.ColumnCount(), t.HasColumn("c0"), t.HasColumn("none"))
	}},
	{"bad align", func(t *table.Table, l list) string {
		row := make([]string, len(t.Columns)+1)
		x, err := t.AlignFormattedItem(row)
		return fmt.Sprintf("%q %v", x, err != nil)
	}},
}

func mergeStr(t *table.Table, l table.FormattedItemList, vertical bool, max int, sep string, compact bool) string {
	var b strings.Builder
	if vertical {
		t.MergeRowsVertical(&b, l, max, sep, compact)
	} else {
		t.MergeRowsHorizontal(&b, l, max, sep, compact)
	}
	return b.String()
}

func c14(r *Run) {
	wide := "\x1b[32m世界\x1b[0m"
	tabs := []*c14table{
		{cols: []int{0}, items: [][]string{{"a"}}},
		{cols: []int{2}, items: [][]string{{"a"}, {"bb"}, {wide}}, spare: 2},
		{cols: []int{3}, items: [][]string{{"a"}, {""}, {"cccc"}, {"dd"}, {"e"}}},
		{cols: []int{0, 1}, items: [][]string{{"a", "xx"}, {"bbb", ""}}, spare: 3},
		{cols: []int{4, 2}, items: [][]string{{"a", "xx"}, {"bbb", "y"}, {"", wide}, {"c", "z"}}, spare: 1},
		{cols: []int{3, 3, 2}, items: [][]string{{"a", "xx", "1"}, {"bbb", "", "22"}, {"c", "d", wide}}, spare: 4},
		{cols: []int{0, 0}, items: nil},
		{cols: []int{1}, items: [][]string{{"only wide"}}, upd: map[string]uint16{"c0": 14}},
		{cols: []int{2, 0, 3}, items: [][]string{{"1", "2", "3"}, {"11", "22", "33"}, {"1", "2", "3"}, {"11", "22", "33"}, {"x", "y", "z"}, {"longer", "l", "lo"}}},
		{cols: []int{0}, items: [][]string{{""}, {""}}},
		{cols: []int{}, items: nil},
		{cols: []int{1, 2}, items: [][]string{{"p", "q"}, {"p", "q"}, {"pp", "qqqqqqq"}}, upd: map[string]uint16{"c1": 9, "zz": 3}},
	}
	c14more(r, tabs)
	c14titles(r)
	c14history(r)
	veryMany(r)
	matrix(r)
	r.Phase("rendering sequences")
	for ti, ts := range tabs {
		words(len(c14ops), r.Pick(3, 4), func(w []int) {
			if !r.Want() {
				return
			}
			r.State()
			seq := append([]int(nil), w...)
			r.Do(func() string {
				var n []string
				for _, i := range seq {
					n = append(n, c14ops[i].name)
				}
				return fmt.Sprintf("table %d %s: %s", ti, q(fmt.Sprint(ts.items)), strings.Join(n, "; "))
			}, func(c *C) {
				c.Nontrivial(len(seq) > 1)
				t, l, backing := ts.build()
				snap := fmt.Sprintf("%q", backing)
				colSnap := snapSpec(t)
				for step, i := range seq {
					o := c14ops[i]
					got := o.f(t, l)
					bt, bl, _ := ts.build()
					want := o.f(bt, bl)
					c.Op(2)
					if got != want {
						c.Fail("step %d (%s): gives %s; alone it gives %s", step, o.name, q(got), q(want))
						return
					}
					if s := fmt.Sprintf("%q", backing); s != snap {
						c.Fail("step %d (%s): items changed from %s to %s", step, o.name, q(snap), q(s))
						return
					}
					if s := snapSpec(t); s != colSnap {
						c.Fail("step %d (%s): columns or widths changed from %s to %s", step, o.name, colSnap, s)
						return
					}
					c.Outcome(got)
				}
			})
		})
	}
}

func snapSpec(t *table.Table) string {
	s := t.TimeFormat
	for _, col := range t.Columns {
		s += fmt.Sprintf("[%p %q %q %q %v %v %v w=%d]", col, col.Name, col.Title, col.ShortTitle, col.Type, col.Alignment == nil, t.ColumnByName[col.Name] == col, t.Width(col.Name))
	}
	return s + fmt.Sprint(len(t.ColumnByName))
}
