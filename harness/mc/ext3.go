package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verifmc/ref"
)

// types a column may declare; nothing promised depends on them
var colTypes = []reflect.Type{
	nil, reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(1.5), reflect.TypeOf(time.Time{}), reflect.TypeOf(true), reflect.TypeOf((*error)(nil)).Elem(),
	reflect.TypeOf([]byte{}), reflect.TypeOf(uint8(0)), reflect.TypeOf(time.Second), reflect.TypeOf(&record{}), reflect.TypeOf((*any)(nil)).Elem(),
}

func colType(i int) reflect.Type { return colTypes[(i%len(colTypes)+len(colTypes))%len(colTypes)] }

// ---- C02 ----

func c02more(r *Run) {
	r.Phase("odd texts inside longer ones")
	lens := []int{0, 1, 4, 8, 9, 10, 16, 33, 64, 100}
	texts := append(append([]string{}, oddTexts...), oddLines...)
	for _, s := range texts {
		for _, a := range lens {
			for _, b := range lens {
				if a > 16 && b > 16 || !r.Want() {
					continue
				}
				r.State()
				x := strings.Repeat("p", a) + s + strings.Repeat("q", b)
				w := ref.Visible(r.Cfg, x)
				for _, d := range []int{0, 1, 2, 7, 40} {
					alignCase(r, x, w, w+d)
				}
				alignCase(r, x, w, w/2)
			}
		}
	}
}

// ---- C04 ----

func c04more(r *Run) {
	r.Phase("getters that use the table")
	for nc := 1; nc <= 12; nc++ {
		for at := 0; at < nc; at++ {
			for kind := 0; kind < 6; kind++ {
				for step := 0; step < 2; step++ {
					if !r.Want() {
						continue
					}
					r.State()
					r.Do(func() string {
						return fmt.Sprintf("%d columns; while column %d is %s, the getter %s", nc, at, []string{"read", "formatted"}[step],
							[]string{"merges a width for its column", "merges widths for all columns", "merges a width for another name", "formats another item", "asks for the header and widths", "formats an item of another table on the specification"}[kind])
					}, func(c *C) {
						c.Nontrivial(true)
						spec := table.NewTableSpec()
						t, o := table.NewTable(spec), table.NewTable(spec)
						want, wantO := map[string]int{}, map[string]int{}
						max := func(m map[string]int, n string, w int) {
							if w > m[n] {
								m[n] = w
							}
						}
						name := func(j int) string { return fmt.Sprint("c", j) }
						inside := false
						use := func() {
							if inside {
								return
							}
							inside = true
							defer func() { inside = false }()
							switch kind {
							case 0:
								t.UpdateWidth(map[string]uint16{name(at): 21})
								max(want, name(at), 21)
							case 1:
								u := map[string]uint16{}
								for j := 0; j < nc; j++ {
									u[name(j)] = uint16(j%5 + 3)
									max(want, name(j), j%5+3)
								}
								t.UpdateWidth(u)
							case 2:
								t.UpdateWidth(map[string]uint16{"other": 8})
								max(want, "other", 8)
							case 3, 5:
								x, m := t, want
								if kind == 5 {
									x, m = o, wantO
								}
								if _, err := x.FormatItem("inner"); err != nil {
									c.Fail("%v", err)
								}
								for j := 0; j < nc; j++ {
									max(m, name(j), 30-2*j)
								}
							case 4:
								t.FormatHeader("|")
								t.TableWidth(1)
								t.Width(name(at))
							}
						}
						for j := 0; j < nc; j++ {
							text := func(it any) string {
								if it == "inner" {
									return strings.Repeat("i", 30-2*j)
								}
								return strings.Repeat("o", 5+j%4)
							}
							spec.AddColumn(&table.Column{Name: name(j), Title: "T", Getter: &funcGetter{
								value: func(it any) (any, error) {
									if j == at && step == 0 {
										use()
									}
									return 1, nil
								},
								format: func(it, _ any) (string, error) {
									if j == at && step == 1 {
										use()
									}
									return text(it), nil
								},
							}})
						}
						for round := 0; round < 2; round++ {
							if _, err := t.FormatItem("outer"); err != nil {
								c.Fail("%v", err)
								return
							}
							c.Op(2)
							for j := 0; j < nc; j++ {
								max(want, name(j), 5+j%4)
							}
							for j := 0; j <= nc; j++ {
								n := name(j)
								if j == nc {
									n = "other"
								}
								if int(t.Width(n)) != want[n] || int(o.Width(n)) != wantO[n] {
									c.Fail("width of %s is %d (in the other table %d), want %d (%d)", n, t.Width(n), o.Width(n), want[n], wantO[n])
									return
								}
							}
						}
						c.OutcomeN(nc*100 + kind)
					})
				}
			}
		}
	}

	r.Phase("every name with cells of many widths")
	for ni, n := range trickyNames {
		for _, w := range roundLengths(70, 66000) {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string {
				return fmt.Sprintf("column %q, a cell of %d cells, also with a column type, titles, alignment", n, w)
			}, func(c *C) {
				c.Nontrivial(w > 0)
				for v := 0; v < 3; v++ {
					col := &table.Column{Name: n, Getter: cellGetter{0}}
					if v > 0 {
						col.Type, col.Title, col.ShortTitle, col.Alignment = colType(w+v), "Title", "T", alignment((w+v)%ref.NAl)
					}
					t := table.NewTable(nil)
					t.AddColumn(col)
					if v == 2 {
						t.AddColumn(&table.Column{Name: trickyNames[(ni+1)%len(trickyNames)], Type: colType(w), Getter: cellGetter{1}})
					}
					m := 0
					for _, x := range []int{w, w + 1, 0} {
						if _, err := t.FormatItem([]string{strings.Repeat("x", x), "yy"}); err != nil {
							c.Fail("%v", err)
							return
						}
						c.Op(1)
						if x > m {
							m = x
						}
						if int(t.Width(n)) != ref.Cap(m) {
							c.Fail("after a cell of %d: width %d, want %d", x, t.Width(n), ref.Cap(m))
							return
						}
					}
				}
				c.OutcomeN(w)
			})
		}
	}

	r.Phase("kinds of values and column types")
	for vi, v := range someValues() {
		for ti := range colTypes {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string {
				return fmt.Sprintf("values of type %T (kind %d), column type %v", v, vi, colTypes[ti])
			}, func(c *C) {
				c.Nontrivial(true)
				for _, text := range []string{"", "abc", "世界", strings.Repeat("w", 40)} {
					t := table.NewTable(nil)
					if ti%2 == 1 {
						t.TimeFormat = time.RFC3339
					}
					t.AddColumn(&table.Column{Name: "v", Type: colTypes[ti], Alignment: alignment(ti % ref.NAl), Getter: &funcGetter{
						value:  func(any) (any, error) { return v, nil },
						format: func(any, any) (string, error) { return text, nil },
					}})
					for i := 0; i < 2; i++ {
						if _, err := t.FormatItem(v); err != nil {
							c.Fail("%v", err)
							return
						}
						c.Op(1)
						if w := ref.Visible(r.Cfg, text); int(t.Width("v")) != w {
							c.Fail("text %s: width %d, want %d", q(text), t.Width("v"), w)
							return
						}
					}
				}
			})
		}
	}
}

// ---- C06 ----

func c06types(r *Run) {
	r.Phase("column types and odd texts")
	texts := append(append([]string{}, oddTexts...), "12", "-1.5", "1,000", "2024-01-02", "true", "line\nline")
	for ti := range colTypes {
		for si, s := range texts {
			for al := 0; al < ref.NAl; al++ {
				if r.Cfg != ref.Plain && al == ref.AlDots || !r.Want() {
					continue
				}
				r.State()
				r.Do(func() string {
					return fmt.Sprintf("column type %v, cell %s, alignment %s", colTypes[ti], q(s), alNames[al])
				}, func(c *C) {
					c.Nontrivial(true)
					for _, d := range []int{0, 1, 5, 30} {
						w := ref.Visible(r.Cfg, s)
						t := table.NewTable(nil)
						t.TimeFormat = []string{"", "2006"}[d&1]
						t.AddColumn(&table.Column{Name: "a", Title: s, ShortTitle: "x", Type: colTypes[ti], Alignment: alignment(al)})
						t.AddColumn(&table.Column{Name: "b", Type: colType(ti + si), Alignment: table.AlignmentRight})
						t.UpdateWidth(map[string]uint16{"a": uint16(w + d), "b": 3})
						out, err := t.AlignFormattedItem([]string{s, "z"})
						c.Op(1)
						if err != nil || len(out) != 2 || out[1] != "  z" {
							c.Fail("aligned %q, %v", out, err)
							return
						}
						want := s
						switch al {
						case ref.AlNil:
						case ref.AlDots:
							want = dots(s, uint16(w+d))
						default:
							want = ref.Pad(al, s, w, w+d)
						}
						if out[0] != want {
							c.Fail("cell to %d: %s, want %s", w+d, q(out[0]), q(want))
							return
						}
					}
				})
			}
		}
	}
	r.Phase("alignments that fail the row or look at the table")
	for nc := 1; nc <= 6; nc++ {
		for at := 0; at < nc; at++ {
			r.Case(func() string {
				return fmt.Sprintf("%d columns, the alignment of column %d widens every column and lengthens its text", nc, at)
			}, func(c *C) {
				c.Nontrivial(true)
				t := table.NewTable(nil)
				calls := make([]int, nc)
				for j := 0; j < nc; j++ {
					t.AddColumn(&table.Column{Name: fmt.Sprint("c", j), Alignment: func(s string, w uint16) string {
						calls[j]++
						if j == at {
							return fmt.Sprint(s, w, "世", s)
						}
						return fmt.Sprint(s, w)
					}})
					t.UpdateWidth(map[string]uint16{fmt.Sprint("c", j): uint16(j * 3)})
				}
				row := make([]string, nc)
				for j := range row {
					row[j] = fmt.Sprint("r", j, "/")
				}
				out, err := t.AlignFormattedItem(row)
				c.Op(1)
				if err != nil || len(out) != nc {
					c.Fail("%q, %v", out, err)
					return
				}
				for j := range out {
					want := fmt.Sprint("r", j, "/", j*3)
					if j == at {
						want = fmt.Sprint("r", j, "/", j*3, "世r", j, "/")
					}
					if out[j] != want {
						c.Fail("cell %d is %q, want %q (alignment called %d times)", j, out[j], want, calls[j])
						return
					}
				}
			})
		}
	}
}

// ---- C07 ----

func c07odd(r *Run) {
	r.Phase("odd separators and titles")
	seps := append(append([]string{}, oddSeps...), "\n", "|\n", "\r\n", "\n\n", "\\n", strings.Repeat("=", 300))
	for si, sep := range seps {
		for ti, title := range oddTexts {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("separator %s, title %s", q(sep), q(title)) }, func(c *C) {
				c.Nontrivial(true)
				for nc := 0; nc <= 3; nc++ {
					for _, d := range []int{-1, 0, 1, 6} {
						t := table.NewTable(nil)
						want := ""
						for j := 0; j < nc; j++ {
							x, short := title, oddTexts[(ti+si+j)%len(oddTexts)]
							if j == 1 {
								x = "k"
							}
							vx, vs := ref.Visible(r.Cfg, x), ref.Visible(r.Cfg, short)
							w := vx + d
							if w < 0 {
								w = 0
							}
							t.AddColumn(&table.Column{Name: fmt.Sprint(j), Title: x, ShortTitle: short, Type: colType(ti + j), Alignment: alignment(j % ref.NAl)})
							t.UpdateWidth(map[string]uint16{fmt.Sprint(j): uint16(w)})
							v, vw := x, vx
							if w > 0 {
								if vw > w {
									v, vw = short, vs
									if vw > w {
										v, vw = "", 0
									}
								}
								v = ref.Pad(ref.AlCenter, v, vw, w)
							}
							want += v + sep
						}
						want += "\n"
						c.Op(1)
						if got := t.FormatHeader(sep); got != want {
							c.Fail("%d columns, %d wider than the title: header %s, want %s", nc, d, q(got), q(want))
							return
						}
					}
				}
				c.OutcomeN(si*100 + ti)
			})
		}
	}
}

// ---- C13 ----

func c13long(r *Run) {
	r.Phase("failures within long lines")
	for _, w := range []int{200, 1000, 4095, 4096, 5000, 9000, 20000, 33000, 65535} {
		for n := 1; n <= 3; n++ {
			var ws [][]int
			var cells [][]string
			for i := 0; i < n; i++ {
				ws = append(ws, []int{w})
				cells = append(cells, []string{bigText(i, 0, w)})
			}
			for _, max := range []int{0, 2*w + 1} {
				for m := 0; m < 4; m++ {
					l := &lay{big: true, Layout: ref.Layout{ColW: []int{w}, Al: []int{m % ref.NAl}, Cells: cells, W: ws, Sep: " ", Max: max, Compact: m&1 == 1, Vertical: m&2 == 2}}
					full, have := "", false
					size := c13size(l)
					seen := map[int]bool{}
					for _, at := range []int{0, 1, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, w - 1, w, w + 1, 2 * w, 2*w + 1, 2*w + 2, size} {
						for _, style := range []int{0, 1, 2, 3, 4} {
							if at < 0 || at > size || seen[at*8+style] {
								continue
							}
							seen[at*8+style] = true
							if !r.Want() {
								continue
							}
							r.State()
							c13case(r, l, at, size, style, &full, &have)
						}
					}
				}
			}
		}
	}
}

// ---- C14 ----

func c14titles(r *Run) {
	r.Phase("titles and columns of many kinds")
	titles := []string{"", "T", "Title", "世界", "\x1b[1mBold title\x1b[0m", "a longer title than all"}
	for ai, a := range titles {
		for bi, b := range titles {
			for _, w := range []int{0, 1, 2, 5, 9, 30} {
				for al := 0; al < ref.NAl; al++ {
					if !r.Want() {
						continue
					}
					r.State()
					r.Do(func() string {
						return fmt.Sprintf("title %s, short title %s, width %d, alignment %s, type %v: every operation twice", q(a), q(b), w, alNames[al], colType(ai+bi))
					}, func(c *C) {
						c.Nontrivial(true)
						build := func() (*table.Table, list) {
							spec := table.NewTableSpec()
							spec.TimeFormat = []string{"", time.RFC3339}[w&1]
							spec.AddColumn(&table.Column{Name: "c0", Title: a, ShortTitle: b, Type: colType(ai + bi), Alignment: alignment(al), Getter: cellGetter{0}})
							spec.AddColumn(&table.Column{Name: "c1", Title: b, ShortTitle: a, Type: colType(w), Alignment: alignment((al + 2) % ref.NAl), Getter: cellGetter{1}})
							t := table.NewTable(spec)
							l := list{{strings.Repeat("x", w/2), "q"}, {"", strings.Repeat("y", w)}, {"z"[:min(w, 1)], ""}}
							for _, it := range l {
								if _, err := t.FormatItem([]string(it)); err != nil {
									c.Fail("%v", err)
								}
							}
							t.UpdateWidth(map[string]uint16{"c0": uint16(w)})
							return t, l
						}
						t, l := build()
						snap, colSnap := fmt.Sprintf("%q", l), snapSpec(t)
						for round := 0; round < 2; round++ {
							for _, o := range c14ops {
								got := o.f(t, l)
								bt, bl := build()
								want := o.f(bt, bl)
								c.Op(2)
								if got != want {
									c.Fail("round %d: %s gives %s, alone %s", round, o.name, q(got), q(want))
									return
								}
								if s := snapSpec(t); s != colSnap {
									c.Fail("round %d: %s changed columns or widths from %s to %s", round, o.name, colSnap, s)
									return
								}
								if s := fmt.Sprintf("%q", l); s != snap {
									c.Fail("round %d: %s changed the items to %s", round, o.name, s)
									return
								}
							}
						}
					})
				}
			}
		}
	}
	r.Phase("many groups")
	for _, g := range []int{3, 10, 30, 41, 64, 100, 257, 300} {
		for al := 0; al < ref.NAl; al++ {
			for m := 0; m < 4; m++ {
				if !r.Want() {
					continue
				}
				r.State()
				r.Do(func() string {
					return fmt.Sprintf("%d groups, alignment %s, mode %d, rendered three times", g, alNames[al], m)
				}, func(c *C) {
					c.Nontrivial(true)
					ts := &c14table{cols: []int{al, (al + 3) % ref.NAl}, spare: 2}
					for i := 0; i < 2*g+1; i++ {
						ts.items = append(ts.items, []string{strings.Repeat("x", i%3), fmt.Sprint(i % 10)})
					}
					t, l, backing := ts.build()
					snap, colSnap := fmt.Sprintf("%q", backing), snapSpec(t)
					first := ""
					for k := 0; k < 3; k++ {
						out := mergeStr(t, l, m&2 == 2, g*6, "  ", m&1 == 1)
						c.Op(1)
						if k == 0 {
							first = out
						} else if out != first {
							c.Fail("rendered again: %s, first %s", q(out), q(first))
							return
						}
						if s := fmt.Sprintf("%q", backing); s != snap {
							c.Fail("items changed")
							return
						}
						if s := snapSpec(t); s != colSnap {
							c.Fail("columns or widths changed from %s to %s", colSnap, s)
							return
						}
						mergeStr(t, l, m&2 == 0, g*5, "|", m&1 == 0)
					}
					bt, bl, _ := ts.build()
					if want := mergeStr(bt, bl, m&2 == 2, g*6, "  ", m&1 == 1); first != want {
						c.Fail("%s, on a fresh table %s", q(first), q(want))
					}
				})
			}
		}
	}
}

// ---- C21 ----

func c21many(r *Run) {
	r.Phase("many columns, repeated names")
	for n := 1; n <= r.Pick(300, 1500); n++ {
		for _, k := range []int{1, 2, 3, 7, 20, n/2 + 1, n} {
			if k > n || k < 1 || !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("%d columns of %d names, one column object again at the end", n, k) }, func(c *C) {
				c.Nontrivial(k < n)
				spec := table.NewTableSpec()
				t := table.NewTable(spec)
				u := map[string]uint16{}
				last := map[string]*table.Column{}
				var cols []*table.Column
				want := 0
				for i := 0; i <= n; i++ {
					name := fmt.Sprint("k", i%k)
					col := &table.Column{Name: name, Type: colType(i)}
					if i == n {
						col = cols[n/2]
						name = col.Name
					}
					if i%2 == 0 {
						spec.AddColumn(col)
					} else {
						t.AddColumn(col)
					}
					cols = append(cols, col)
					last[name] = col
					u[name] = uint16(len(name))
					want += len(name)
					c.Op(1)
					if !spec.HasColumn(name) || spec.ColumnByName[name] != col || spec.ColumnCount() != i+1 || t.ColumnCount() != i+1 {
						c.Fail("after %d columns: name %q known %v, last %v, count %d", i+1, name, spec.HasColumn(name), spec.ColumnByName[name] == col, spec.ColumnCount())
						return
					}
				}
				t.UpdateWidth(u)
				for i, col := range cols {
					if spec.Columns[i] != col {
						c.Fail("column %d is not the one added", i)
						return
					}
				}
				if len(spec.ColumnByName) != len(last) || spec.HasColumn("k") || spec.HasColumn(fmt.Sprint("k", k)) {
					c.Fail("%d names known, want %d", len(spec.ColumnByName), len(last))
					return
				}
				for name, col := range last {
					if t.ColumnByName[name] != col {
						c.Fail("name %q does not stand for the column added last", name)
						return
					}
				}
				if got := int(t.TableWidth(1)); got != ref.Cap(want+n) {
					c.Fail("total width %d, want %d", got, ref.Cap(want+n))
				}
				c.OutcomeN(want)
			})
		}
	}
}

// ---- C24 ----

func c24more(r *Run) {
	r.Phase("long clusters and odd texts")
	var texts []string
	for _, n := range []int{1, 2, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 128, 200, 257, 1000} {
		texts = append(texts, "a"+strings.Repeat("\u0301", n), strings.Repeat("👩\u200d", n), strings.Repeat("ᄀ", n)+"ᅡ", strings.Repeat("a", n), "世"+strings.Repeat("\u0903", n)+"x")
	}
	texts = append(texts, oddTexts...)
	texts = append(texts, oddLines...)
	for ai, a := range texts {
		for k := 0; k < len(texts); k++ {
			b := texts[(ai+k)%len(texts)]
			if k > 12 && len(a) > 40 || !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("iterators over %s and %s in turn, results kept", q(a), q(a+b)) }, func(c *C) {
				type kept struct {
					got  []rune
					want string
				}
				var keep []kept
				ga, gb := uniseg.NewGraphemes(a), uniseg.NewGraphemes(a+b)
				ca, cb := ref.Clusters(a), ref.Clusters(a+b)
				step := func(g *uniseg.Graphemes, cl []string, i int, what string) bool {
					c.Op(2)
					if g.Next() != (i < len(cl)) {
						c.Fail("%s: step %d of %d", what, i+1, len(cl))
						return false
					}
					rs := g.Runes()
					if i >= len(cl) {
						if rs != nil {
							c.Fail("%s: runes %+q after the end", what, string(rs))
							return false
						}
						return true
					}
					keep = append(keep, kept{rs, cl[i]})
					again := g.Runes()
					if !same(again, rs) {
						c.Fail("%s: asked again, other runes", what)
						return false
					}
					if i%2 == 1 {
						for x := range again {
							again[x] = 'Z'
						}
					}
					keep = append(keep, kept{g.Runes(), cl[i]})
					return true
				}
				for i := 0; i <= len(cb)+1 && i < 400; i++ {
					if i <= len(ca)+1 && !step(ga, ca, i, "first") {
						return
					}
					if !step(gb, cb, i, "second") {
						return
					}
				}
				for _, k := range keep {
					if !same(k.got, []rune(k.want)) {
						c.Fail("runes of %s became %+q", q(k.want), clip(string(k.got)))
						return
					}
				}
				c.Nontrivial(len(keep) > 2)
				c.OutcomeN(len(keep))
			})
		}
	}
}
