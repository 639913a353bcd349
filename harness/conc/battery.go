//go:build race

package main

import (
	"errors"
	"fmt"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verifmc/ref"
)

// The batteries call everything with inputs of many sizes and kinds, so that shared state
// that only some inputs touch is met by two goroutines. They have many scheduling points,
// so they are explored with fewer preemptions than the short sequences.

// tag is unique to the goroutine and, with fresh texts, to the execution; 8 cells.
func (e *tenv) tag(tid int) string {
	n := 0
	if e.sc.fresh {
		n = e.nr
	}
	if e.sc.shared {
		tid = 0
	}
	return fmt.Sprintf("%c%07d", 'p'+tid, n)
}

// steps is a list of results; each knows what it should be.
type steps struct {
	run  []func() string
	want []string
}

func (s *steps) add(want string, run func() string) {
	s.run = append(s.run, run)
	s.want = append(s.want, want)
}

func (s *steps) inst() inst {
	return inst{func() string {
		var b strings.Builder
		for i, f := range s.run {
			got := f()
			if got != s.want[i] {
				fmt.Fprintf(&b, "call %d: %q, should be %q; ", i, clip(got, 300), clip(s.want[i], 300))
			}
		}
		return b.String()
	}, ""}
}

var batteryParts = []struct {
	s string
	w int
}{
	{"", 0}, {"x", 1}, {"\t", 0}, {"世", 2}, {"\x1b[1;31mred\x1b[0m", 3}, {"e\u0301", 1}, {"👩\u200d🍳", 2}, {"🇺🇸", 2}, {"\xff", 1}, {"│é", 2}, {"한", 2},
	{strings.Repeat("l", 60), 60}, {strings.Repeat("m", 250), 250}, {strings.Repeat("世", 600), 1200}, {strings.Repeat("\x1b[1mo\x1b[0m", 40), 40},
}

var errRow = errors.New("getter failed")

type failing struct{ getter }

func (failing) Value(item any) (any, error)                    { return nil, errRow }
func (failing) ValueString(n string, item any) (string, error) { return "", errRow }

// wide is a table of three columns and its rows.
func (e *tenv) wide(tid, n int) (*table.Table, list, ref.Layout) {
	spec := table.NewTableSpec()
	l := ref.Layout{ColW: []int{0, 0, 0}, Al: []int{ref.AlLeft, ref.AlNil, ref.AlCenter}, Sep: "|"}
	for j, al := range []table.Alignment{table.AlignmentLeft, nil, table.AlignmentCenter} {
		spec.AddColumn(&table.Column{Name: string(rune('a' + j)), Title: strings.Repeat("T", 5+30*j), ShortTitle: "名", Getter: getter{j}, Alignment: al})
	}
	t := table.NewTable(spec)
	var items list
	tag := e.tag(tid)
	for i := 0; i < n; i++ {
		p, q := batteryParts[i%11], batteryParts[(i*3+1)%11]
		row := []string{tag + p.s, q.s, strings.Repeat("=", i%4)}
		ws := []int{8 + p.w, q.w, i % 4}
		items = append(items, row)
		l.Cells = append(l.Cells, row)
		l.W = append(l.W, ws)
		for j, w := range ws {
			if w > l.ColW[j] {
				l.ColW[j] = w
			}
		}
	}
	t.UpdateWidth(map[string]uint16{"a": uint16(l.ColW[0]), "b": uint16(l.ColW[1]), "c": uint16(l.ColW[2])})
	return t, items, l
}

func (s *steps) rendering(t *table.Table, items list, l ref.Layout) {
	for _, sep := range []string{"", "|", strings.Repeat("-", 70)} {
		l := l
		l.Sep = sep
		for _, max := range []int{-1, 0, l.RowWidth(), 3*l.RowWidth() + 2*len(sep) - 1, 500} {
			for m := 0; m < 4; m++ {
				l := l
				l.Max, l.Vertical, l.Compact = max, m&1 == 1, m&2 == 2
				s.add(mergeWant(&l), func() string { return merge(t, items, &l) })
			}
		}
	}
	head := ""
	for j, w := range l.ColW {
		title := strings.Repeat("T", 5+30*j)
		if w > 0 && len(title) > w {
			title = "名"
			if w < 2 {
				title = ""
			}
		}
		if w > 0 {
			title = ref.Pad(ref.AlCenter, title, vis(title), w)
		}
		head += title + "+"
	}
	s.add(head+"\n", func() string { return t.FormatHeader("+") })
	s.add(fmt.Sprint(l.RowWidth(), l.ColW, true, false, 3), func() string {
		return fmt.Sprint(t.TableWidth(1), []int{int(t.Width("a")), int(t.Width("b")), int(t.Width("c"))}, t.HasColumn("c"), t.HasColumn("d"), t.ColumnCount())
	})
	for i := range items {
		row := items[i]
		s.add(strings.Join(row, ";"), func() string {
			b, err := t.FormatItemBasic([]string(row), ";")
			if err != nil {
				return err.Error()
			}
			return b
		})
		want := append([]string(nil), row...)
		want[0] = ref.Pad(ref.AlLeft, row[0], l.W[i][0], l.ColW[0])
		want[2] = ref.Pad(ref.AlCenter, row[2], l.W[i][2], l.ColW[2])
		s.add(fmt.Sprint(want, nil), func() string {
			f, err := t.AlignFormattedItem(append([]string(nil), row...))
			return fmt.Sprint(f, err)
		})
	}
	s.add("rejected", func() string {
		if _, err := t.AlignFormattedItem([]string{"1"}); err != nil {
			return "rejected"
		}
		return "accepted"
	})
}

var batteries = []op{
	{"battery of alignments", func(e *tenv, tid int) inst {
		s := &steps{}
		tag := e.tag(tid)
		for i, p := range batteryParts {
			for k := 0; k < 2; k++ {
				text, w := p.s, p.w
				if k == 1 {
					text, w = tag+text, w+8
				}
				for x, d := range []int{-1, 0, 1, 33, 100, 300, 1100, 5000} {
					target := w + d
					if target < 0 {
						continue
					}
					for al := ref.AlLeft; al <= ref.AlCenter; al++ {
						if d > 200 && (i+k+al)%3 != 0 || x > 2 && i > 4 && (i+x)%2 == 0 {
							continue
						}
						f := []table.Alignment{table.AlignmentLeft, table.AlignmentRight, table.AlignmentCenter}[al-ref.AlLeft]
						s.add(ref.Pad(al, text, w, target), func() string { return f(text, uint16(target)) })
					}
				}
			}
		}
		s.add(strings.Repeat(" ", 65535), func() string { return table.AlignmentRight("", 65535) })
		return s.inst()
	}},
	{"battery of an own table", func(e *tenv, tid int) inst {
		s := &steps{}
		t0, items, l := e.wide(tid, 13)
		t := table.NewTable(t0.TableSpec)
		for _, row := range items {
			s.add(fmt.Sprint(row, nil), func() string {
				f, err := t.FormatItem([]string(row))
				return fmt.Sprint(f, err)
			})
		}
		s.rendering(t, items, l)
		bad := table.NewTable(nil)
		bad.AddColumn(&table.Column{Name: "x", Getter: getter{0}})
		bad.AddColumn(&table.Column{Name: "y", Getter: failing{}})
		s.add(errRow.Error(), func() string {
			_, err := bad.FormatItem([]string{"x"})
			_, err2 := bad.FormatItemBasic([]string{"x"}, ",")
			if err != err2 {
				return "different errors"
			}
			return err.Error()
		})
		s.add("1 0 2 true false", func() string {
			n := table.NewTable(nil)
			n.AddColumn(&table.Column{Name: "n", Getter: getter{0}})
			m := table.NewTable(nil)
			n.UpdateWidth(map[string]uint16{"n": 2})
			return fmt.Sprint(n.ColumnCount(), m.ColumnCount(), n.TableWidth(9), n.HasColumn("n"), m.HasColumn("n"))
		})
		return s.inst()
	}},
	{"battery of rendering a shared table", func(e *tenv, tid int) inst {
		s := &steps{}
		if e.big == nil {
			e.big, e.bigItems, e.bigLay = e.wide(2, 7)
		}
		s.rendering(e.big, e.bigItems, e.bigLay)
		return s.inst()
	}},
	{"battery of widths and segmentation", func(e *tenv, tid int) inst {
		s := &steps{}
		tag := e.tag(tid)
		for set := 0; set < 4; set++ {
			cfg := ref.Cfg(set)
			ea, strict := cfgFlags(cfg)
			c := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: strict}
			for _, p := range batteryParts {
				text := tag + ref.Strip(p.s)
				s.add(fmt.Sprint(ref.StringWidth(cfg, text)), func() string { return fmt.Sprint(c.StringWidth(text)) })
			}
			want := 0
			for _, r := range batteryRunes {
				want = want*3 + ref.RuneWidth(cfg, r)
			}
			s.add(fmt.Sprint(want), func() string {
				n := 0
				for _, r := range batteryRunes {
					n = n*3 + c.RuneWidth(r)
				}
				return fmt.Sprint(n)
			})
		}
		for _, p := range batteryParts {
			text := tag + p.s
			s.add(fmt.Sprint(ref.StringWidth(ref.Plain, text)), func() string { return fmt.Sprint(runewidth.StringWidth(text)) })
			if len(text) > 300 {
				continue
			}
			cl := ref.Clusters(text)
			want := ""
			for _, x := range cl {
				want += fmt.Sprint(x, ref.StepWidth(x), "|")
			}
			s.add(want, func() string {
				got := ""
				rest, st := text, -1
				for rest != "" {
					var x string
					var b int
					x, rest, b, st = uniseg.StepString(rest, st)
					got += fmt.Sprint(x, b>>uniseg.ShiftWidth, "|")
				}
				return got
			})
			s.add(fmt.Sprint(len(cl)), func() string {
				g := uniseg.NewGraphemes(text)
				n := 0
				for g.Next() {
					g.Runes()
					n++
				}
				return fmt.Sprint(n)
			})
		}
		return s.inst()
	}},
}

// extremes builds everything itself: specifications, tables of many columns, long lists,
// huge texts.
var extremes = op{"battery of construction and extremes", func(e *tenv, tid int) inst {
	s := &steps{}
	tag := e.tag(tid)
	for _, nc := range []int{0, 1, 3, 17, 70} {
		var t *table.Table
		s.add(fmt.Sprint(nc, ref.Cap(nc*3000+max(nc-1, 0)*9)), func() string {
			spec := table.NewTableSpec()
			t = table.NewTable(spec)
			w := map[string]uint16{}
			for j := 0; j < nc; j++ {
				n := fmt.Sprint("n", j)
				t.AddColumn(&table.Column{Name: n, Title: tag, ShortTitle: "s", Getter: getter{j}, Alignment: table.AlignmentRight})
				w[n] = 3000
			}
			wide := table.NewTable(spec)
			wide.UpdateWidth(w)
			return fmt.Sprint(t.ColumnCount(), wide.TableWidth(9))
		})
		row := make([]string, nc)
		for j := range row {
			row[j] = tag + fmt.Sprint(j)
		}
		s.add(fmt.Sprint(row, nil), func() string {
			f, err := t.FormatItem(append([]string(nil), row...))
			return fmt.Sprint(f, err)
		})
		if nc == 0 {
			continue
		}
		s.add(strings.Join(row, ","), func() string {
			b, _ := t.FormatItemBasic(row, ",")
			return b
		})
		if nc < 17 {
			s.add(strings.Repeat("|"+tag, nc)[1:]+"|\n", func() string { return strings.ReplaceAll(t.FormatHeader("|"), " ", "") })
		}
	}
	l := ref.Layout{ColW: []int{8}, Al: []int{ref.AlLeft}, Sep: "|"}
	var items list
	for i := 0; i < 140; i++ {
		items = append(items, []string{tag[:5+i%4]})
		l.Cells, l.W = append(l.Cells, items[i]), append(l.W, []int{5 + i%4})
	}
	var t *table.Table
	s.add("8", func() string {
		t = table.NewTable(nil)
		t.AddColumn(&table.Column{Name: "a", Getter: getter{0}, Alignment: table.AlignmentLeft})
		t.UpdateWidth(map[string]uint16{"a": 8})
		return fmt.Sprint(t.Width("a"))
	})
	for m := 0; m < 4; m++ {
		for _, max := range []int{8, 161} {
			l := l
			l.Max, l.Vertical, l.Compact = max, m&1 == 1, m&2 == 2
			s.add(mergeWant(&l), func() string { return merge(t, items, &l) })
		}
	}
	s.add("", func() string { return merge(t, nil, &l) })
	for _, part := range []string{"e" + strings.Repeat("\u0301", 90), strings.Repeat("👩\u200d", 30) + "👩", "क\u0903☺\ufe0f☎\ufe0e1\ufe0f\u20e3", "\u0600각\u2e3b\U0002000b\r\n", "\u009b1mx\x1b[0m"} {
		text := tag + part
		w := vis(text)
		s.add(ref.Pad(ref.AlRight, text, w, w+2), func() string { return table.AlignmentRight(text, uint16(w+2)) })
		s.add(fmt.Sprint(ref.StringWidth(ref.Plain, text), ref.StringWidth(ref.EA, text)), func() string {
			return fmt.Sprint(runewidth.NewCondition().StringWidth(text), (&runewidth.Condition{EastAsianWidth: true, StrictEmojiNeutral: true}).StringWidth(text))
		})
		want := ""
		for _, x := range ref.Clusters(text) {
			want += fmt.Sprint(x, ref.StepWidth(x), x, "|")
		}
		s.add(want, func() string {
			got := ""
			g := uniseg.NewGraphemes(text)
			rest, st := text, -1
			for rest != "" {
				var x string
				var b int
				x, rest, b, st = uniseg.StepString(rest, st)
				g.Next()
				got += fmt.Sprint(x, b>>uniseg.ShiftWidth, string(g.Runes()), "|")
			}
			return got
		})
	}
	for _, n := range []int{5000, 40000, 70000} {
		text := tag + strings.Repeat("h", n)
		s.add(text, func() string { return table.AlignmentCenter(text, 10) })
		s.add(fmt.Sprint(ref.Cap(n+8)), func() string {
			t := table.NewTable(nil)
			t.AddColumn(&table.Column{Name: "a", Getter: getter{0}})
			t.FormatItem([]string{text})
			return fmt.Sprint(t.Width("a"))
		})
	}
	return s.inst()
}}

// unusual only renders, from shared tables without columns, without widths, with many or
// very wide columns, and from columns that fail.
var unusual = op{"battery of rendering unusual shared tables", func(e *tenv, tid int) inst {
	s := &steps{}
	counts, widths := []int{0, 1, 2, 20, 70}, []int{0, 0, 5, 4, 3000}
	if e.ext == nil {
		for k, nc := range counts {
			t := table.NewTable(nil)
			w := map[string]uint16{}
			for j := 0; j < nc; j++ {
				n := fmt.Sprint("n", j)
				c := &table.Column{Name: n, Title: "Title", ShortTitle: "世", Getter: getter{j}, Alignment: table.AlignmentRight}
				if j%3 == 1 {
					c.Alignment = nil
				}
				t.AddColumn(c)
				w[n] = uint16(widths[k])
			}
			t.UpdateWidth(w)
			e.ext = append(e.ext, t)
		}
		t := table.NewTable(nil)
		t.AddColumn(&table.Column{Name: "x", Getter: getter{0}})
		t.AddColumn(&table.Column{Name: "y", Getter: failing{}})
		e.ext = append(e.ext, t)
	}
	for k, nc := range counts {
		t, w := e.ext[k], widths[k]
		for _, margin := range []int{0, 1, 7} {
			s.add(fmt.Sprint(ref.Cap(nc*w+max(nc-1, 0)*margin)), func() string { return fmt.Sprint(t.TableWidth(uint16(margin))) })
		}
		s.add(fmt.Sprint(nc, false, 0, nc > 0), func() string {
			return fmt.Sprint(t.ColumnCount(), t.HasColumn("none"), t.Width("none"), t.HasColumn("n0"))
		})
		if nc == 0 {
			continue
		}
		if w > 0 && w < 100 {
			x := "世"
			if w >= 5 {
				x = "Title"
			}
			s.add(strings.Repeat(ref.Pad(ref.AlCenter, x, vis(x), w)+"|", nc)+"\n", func() string { return t.FormatHeader("|") })
		}
		row, aligned := make([]string, nc), make([]string, nc)
		for j := range row {
			row[j] = string(rune('a' + j%26))
			aligned[j] = row[j]
			if j%3 != 1 {
				aligned[j] = ref.Pad(ref.AlRight, row[j], 1, w)
			}
		}
		s.add(fmt.Sprint(aligned, nil), func() string {
			f, err := t.AlignFormattedItem(append([]string(nil), row...))
			return fmt.Sprint(f, err)
		})
		s.add("true true", func() string {
			_, err := t.AlignFormattedItem(make([]string, nc+1))
			_, err2 := t.AlignFormattedItem(nil)
			return fmt.Sprint(err != nil, err2 != nil)
		})
		s.add(strings.Join(row, ", "), func() string {
			b, _ := t.FormatItemBasic(row, ", ")
			return b
		})
		l := ref.Layout{Sep: "|"}
		for j := 0; j < nc; j++ {
			l.ColW, l.Al = append(l.ColW, w), append(l.Al, ref.AlRight)
			if j%3 == 1 {
				l.Al[j] = ref.AlNil
			}
		}
		var items list
		n := 1 + 70/nc
		for i := 0; i < n; i++ {
			items = append(items, row)
			one := make([]int, nc)
			for j := range one {
				one[j] = 1
			}
			l.Cells, l.W = append(l.Cells, row), append(l.W, one)
		}
		for m := 0; m < 4; m++ {
			for _, max := range []int{80, 400} {
				l := l
				l.Max, l.Vertical, l.Compact = max, m&1 == 1, m&2 == 2
				if w == 0 {
					continue
				}
				s.add(mergeWant(&l), func() string { return merge(t, items, &l) })
			}
		}
		s.add("", func() string { return merge(t, nil, &ref.Layout{Sep: "|", Max: 10}) })
	}
	bad := e.ext[len(counts)]
	s.add(errRow.Error(), func() string {
		_, err := bad.FormatItemBasic([]string{"x"}, ",")
		return err.Error()
	})
	return s.inst()
}}

var batteryRunes = []rune("a\x00\u0301\u200d│☺世가👩🇺\u00ad\ufe0f¡")

func cfgFlags(c ref.Cfg) (ea, strict bool) { return c&1 == 1, c&2 == 0 }

func init() {
	batteries = append(batteries, extremes, unusual)
	for i := range batteryParts {
		batteryParts[i].w = vis(batteryParts[i].s)
	}
}
