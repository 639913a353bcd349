//go:build race

package main

import (
	"fmt"
	"strconv"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verifmc/ref"
	"verifmc/sched"
)

// inst is one call sequence of one goroutine, with the result it has to give.
type inst struct {
	run  func() string
	want string
}

type op struct {
	name string
	make func(e *tenv, tid int) inst
}

type scenario struct {
	name   string
	phase  string
	ops    []op
	fresh  bool // texts never seen before in this process
	shared bool // all goroutines use the same texts
	bound  int
	cap    int
	full   bool // run after the width cache is full
	index  int
	cold   bool // every execution in a process of its own: nothing has been initialised
	lut    bool // build lookup tables, which takes long under the race detector

	defLUT  bool // run after the default condition has got a lookup table
	warm    bool // the first goroutine's texts have been measured just before
	quantum int  // not explored: goroutines in turn, so many points each
}

// tenv is what the goroutines of one execution have.
type tenv struct {
	sc    *scenario
	nr    int
	table *table.Table // shared, for rendering only
	items list
	lay   ref.Layout
	spec  *table.TableSpec

	big      *table.Table // shared, for the batteries
	bigItems list
	bigLay   ref.Layout
	ext      []*table.Table // shared, unusual ones
}

type list [][]string

func (l list) Len() int           { return len(l) }
func (l list) Get(i int) []string { return l[i] }

type getter struct{ j int }

func (g getter) Value(item any) (any, error)                       { return item.([]string)[g.j], nil }
func (g getter) ValueString(name string, item any) (string, error) { return item.([]string)[g.j], nil }
func (g getter) Format(item any, v any) (string, error)            { return v.(string), nil }

// text is one of the texts of a goroutine; texts of different goroutines have different
// widths.
func (e *tenv) text(tid, k int) string {
	n := 0
	if e.sc.fresh {
		n = e.nr
	}
	if e.sc.shared {
		tid = 0
	}
	s := strconv.Itoa(n) + "世"
	switch tid {
	case 1:
		s = "bb\x1b[1m" + s + "é\u0301"
	case 2:
		s = "ccccc" + s
	default:
		s = strings.Repeat("d", tid*3) + s
	case 0:
	}
	return s + strings.Repeat("k", k)
}

func vis(s string) int { return ref.Cap(ref.Visible(ref.Plain, s)) }

func newSpec() *table.TableSpec {
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "a", Title: "Alpha", ShortTitle: "A", Getter: getter{0}, Alignment: table.AlignmentRight})
	spec.AddColumn(&table.Column{Name: "b", Title: "B", Getter: getter{1}, Alignment: table.AlignmentCenter})
	return spec
}

func newEnv(sc *scenario, nr int) *tenv {
	e := &tenv{sc: sc, nr: nr, spec: newSpec()}
	e.table = table.NewTable(e.spec)
	e.items, e.lay = e.rows(2, 2)
	w := map[string]uint16{}
	for j, x := range e.lay.ColW {
		w[[]string{"a", "b"}[j]] = uint16(x)
	}
	e.table.UpdateWidth(w)
	return e
}

// rows are n rows of texts and the layout that describes them.
func (e *tenv) rows(tid, n int) (list, ref.Layout) {
	l := ref.Layout{ColW: []int{0, 0}, Al: []int{ref.AlRight, ref.AlCenter}, Sep: "|"}
	var items list
	for i := 0; i < n; i++ {
		row := []string{e.text(tid, i), "x"}
		ws := []int{vis(row[0]), 1}
		items = append(items, row)
		l.Cells = append(l.Cells, row)
		l.W = append(l.W, ws)
		for j, w := range ws {
			if w > l.ColW[j] {
				l.ColW[j] = w
			}
		}
	}
	return items, l
}

func merge(t *table.Table, items list, l *ref.Layout) string {
	var b strings.Builder
	if l.Vertical {
		t.MergeRowsVertical(&b, items, l.Max, l.Sep, l.Compact)
	} else {
		t.MergeRowsHorizontal(&b, items, l.Max, l.Sep, l.Compact)
	}
	return b.String()
}

func mergeWant(l *ref.Layout) string {
	if l.Compact {
		g, per := l.CompactGroups()
		return l.Render(g, per)
	}
	return l.Render(l.PlainGroups(), false)
}

func headerWant(l ref.Layout) string {
	cell := func(t, st string, w int) string {
		if w == 0 {
			return t
		}
		if vis(t) > w {
			if vis(st) > w {
				t = ""
			} else {
				t = st
			}
		}
		return ref.Pad(ref.AlCenter, t, vis(t), w)
	}
	return cell("Alpha", "A", l.ColW[0]) + "|" + cell("B", "", l.ColW[1]) + "|\n"
}

func mergeOp(name string, own, vertical, compact bool) op {
	return op{name, func(e *tenv, tid int) inst {
		t, items, l := e.table, e.items, e.lay
		if own {
			t = table.NewTable(newSpec())
			items, l = e.rows(tid, 2)
			t.UpdateWidth(map[string]uint16{"a": uint16(l.ColW[0]), "b": uint16(l.ColW[1])})
		}
		l.Vertical, l.Compact = vertical, compact
		l.Max = 2*l.RowWidth() - 1 // room for two rows only if each group is as narrow as its content
		if !compact {
			l.Max = 2*l.RowWidth() + 1
		}
		return inst{func() string { return merge(t, items, &l) }, mergeWant(&l)}
	}}
}

var ops = []op{
	{"own table: format and align an item", func(e *tenv, tid int) inst {
		t := table.NewTable(newSpec())
		a, b := e.text(tid, 0), "é"
		w := vis(a) + 2
		return inst{func() string {
			f, err := t.FormatItem([]string{a, b})
			if err != nil {
				return err.Error()
			}
			res := fmt.Sprintln(f, t.Width("a"), t.Width("b"))
			t.UpdateWidth(map[string]uint16{"a": uint16(w)})
			f, err = t.AlignFormattedItem(f)
			return res + fmt.Sprintln(f, err, t.TableWidth(1))
		}, fmt.Sprintln([]string{a, b}, vis(a), 1) + fmt.Sprintln([]string{ref.Pad(ref.AlRight, a, vis(a), w), b}, nil, w+2)}
	}},
	{"own table on a shared specification: format an item", func(e *tenv, tid int) inst {
		t := table.NewTable(e.spec)
		a := e.text(tid, 1)
		return inst{func() string {
			f, err := t.FormatItem([]string{a, "y"})
			return fmt.Sprintln(f, err, t.Width("a"), t.ColumnCount(), t.HasColumn("b"), t.HasColumn("z"))
		}, fmt.Sprintln([]string{a, "y"}, nil, vis(a), 2, true, false)}
	}},
	{"align texts", func(e *tenv, tid int) inst {
		a := e.text(tid, 2)
		w := vis(a) + 3
		return inst{func() string {
			return table.AlignmentLeft(a, uint16(w)) + "/" + table.AlignmentRight(a, uint16(w)) + "/" + table.AlignmentCenter(a, uint16(w))
		}, ref.Pad(ref.AlLeft, a, w-3, w) + "/" + ref.Pad(ref.AlRight, a, w-3, w) + "/" + ref.Pad(ref.AlCenter, a, w-3, w)}
	}},
	mergeOp("own table: merge horizontally, compact", true, false, true),
	mergeOp("own table: merge vertically, compact", true, true, true),
	mergeOp("shared table: merge horizontally", false, false, false),
	mergeOp("shared table: merge horizontally, compact", false, false, true),
	mergeOp("shared table: merge vertically", false, true, false),
	mergeOp("shared table: merge vertically, compact", false, true, true),
	{"shared table: header and widths", func(e *tenv, tid int) inst {
		return inst{func() string {
			return e.table.FormatHeader("|") + fmt.Sprintln(e.table.TableWidth(2), e.table.Width("a"), e.table.Width("zz"))
		}, headerWant(e.lay) + fmt.Sprintln(e.lay.ColW[0]+e.lay.ColW[1]+2, e.lay.ColW[0], 0)}
	}},
	{"shared table: align a row and basic formatting", func(e *tenv, tid int) inst {
		row := []string{e.text(tid, 0), "z"}
		return inst{func() string {
			b, err := e.table.FormatItemBasic(row, ";")
			res := fmt.Sprintln(b, err)
			f, err := e.table.AlignFormattedItem(append([]string(nil), row...))
			return res + fmt.Sprintln(f, err)
		}, fmt.Sprintln(row[0]+";z", nil) + fmt.Sprintln([]string{ref.Pad(ref.AlRight, row[0], vis(row[0]), e.lay.ColW[0]), ref.Pad(ref.AlCenter, "z", 1, e.lay.ColW[1])}, nil)}
	}},
	{"rune and string width", func(e *tenv, tid int) inst {
		a := e.text(tid, 0)
		plain := ref.Strip(a)
		return inst{func() string {
			c := runewidth.NewCondition()
			n := runewidth.StringWidth(plain)
			m := 0
			for _, r := range "a世é\u0301│👩" {
				m = m*3 + c.RuneWidth(r)
				m = m*3 + runewidth.DefaultCondition.RuneWidth(r)
			}
			return fmt.Sprintln(n, c.StringWidth(plain), m, runewidth.IsEastAsian())
		}, func() string {
			n := ref.StringWidth(ref.Plain, plain)
			m := 0
			for _, r := range "a世é\u0301│👩" {
				m = m*3 + ref.RuneWidth(ref.Plain, r)
				m = m*3 + ref.RuneWidth(ref.Plain, r)
			}
			return fmt.Sprintln(n, n, m, false)
		}()}
	}},
	{"segmentation", func(e *tenv, tid int) inst {
		s := e.text(tid, 0) + "👩\u200d🍳🇺🇸e\u0301\r\n"
		var want []string
		for _, cl := range ref.Clusters(s) {
			want = append(want, fmt.Sprintln(cl, ref.StepWidth(cl)))
		}
		for _, cl := range ref.Clusters(s) {
			want = append(want, cl)
		}
		return inst{func() string {
			var got []string
			rest, st := s, -1
			for rest != "" {
				var cl string
				var b int
				cl, rest, b, st = uniseg.StepString(rest, st)
				got = append(got, fmt.Sprintln(cl, b>>uniseg.ShiftWidth))
			}
			g := uniseg.NewGraphemes(s)
			for g.Next() {
				got = append(got, string(g.Runes()))
			}
			return strings.Join(got, "|")
		}, strings.Join(want, "|")}
	}},
	{"own condition with lookup table", func(e *tenv, tid int) inst {
		ea := tid%2 == 1
		cfg := ref.Plain
		if ea {
			cfg = ref.EA
		}
		return inst{func() string {
			c := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: true}
			s := fmt.Sprintln(c.StringWidth("│世a"))
			if e.sc.lut {
				c.CreateLUT()
			}
			return s + fmt.Sprintln(c.StringWidth("│世a"))
		}, fmt.Sprintln(ref.StringWidth(cfg, "│世a")) + fmt.Sprintln(ref.StringWidth(cfg, "│世a"))}
	}},
	{"long texts", func(e *tenv, tid int) inst {
		a := e.text(tid, 300)
		w := vis(a)
		t := table.NewTable(newSpec())
		return inst{func() string {
			f, err := t.FormatItem([]string{a, strings.Repeat("\x1b[1mq\x1b[0m", 30)})
			return fmt.Sprintln(f[0] == a, err, t.Width("a"), t.Width("b")) + table.AlignmentRight(a, uint16(w+150)) + "/" + table.AlignmentCenter(a, uint16(w+1200)) + "/" + table.AlignmentLeft("x", 700)
		}, fmt.Sprintln(true, nil, w, 30) + ref.Pad(ref.AlRight, a, w, w+150) + "/" + ref.Pad(ref.AlCenter, a, w, w+1200) + "/" + ref.Pad(ref.AlLeft, "x", 1, 700)}
	}},
}

func init() {
	ops = append(ops, op{"texts of no width", func(e *tenv, tid int) inst {
		t := table.NewTable(newSpec())
		w := 1 + tid
		return inst{func() string {
			f, err := t.FormatItem([]string{"", "\x1b[0m"})
			return table.AlignmentCenter("", uint16(w)) + "|" + table.AlignmentRight("\t", uint16(w)) + "|" + table.AlignmentLeft("", uint16(w)) + "|" + fmt.Sprintln(f, err, t.Width("a"), t.Width("b"))
		}, strings.Repeat(" ", w) + "|" + strings.Repeat(" ", w) + "\t|" + strings.Repeat(" ", w) + "|" + fmt.Sprintln([]string{"", "\x1b[0m"}, nil, 0, 0)}
	}})
}

// flood measures more texts nobody has seen than any cache of the library holds, without
// giving way in between.
var flood = op{"measure 10050 new texts at a stretch", func(e *tenv, tid int) inst {
	return inst{func() string {
		sched.Mute(true)
		defer sched.Mute(false)
		for i := 0; i < 10050; i++ {
			s := strconv.Itoa(e.nr) + "." + strconv.Itoa(i)
			if g, want := table.AlignmentLeft(s, uint16(len(s)+1)), s+" "; g != want {
				return g
			}
		}
		return "done"
	}, "done"}
}}

func scenarios(thorough bool) []*scenario {
	var out []*scenario
	bound, cap := 2, 4000
	if thorough {
		bound, cap = 3, 400000
	}
	add := func(phase string, fresh, shared, full bool, bound int, ix ...int) {
		sc := &scenario{phase: phase, fresh: fresh, shared: shared, full: full, bound: bound, cap: cap}
		var names []string
		for _, i := range ix {
			sc.ops = append(sc.ops, ops[i])
			names = append(names, ops[i].name)
		}
		sc.name = fmt.Sprintf("%s [%d preemptions, fresh texts %v, same texts %v, cache full %v]: %s", phase, bound, fresh, shared, full, strings.Join(names, " || "))
		out = append(out, sc)
	}
	for i := range ops {
		for j := i; j < len(ops); j++ {
			add("pairs", true, false, false, bound, i, j)
		}
	}
	for i := range ops {
		for j := i; j < len(ops); j++ {
			add("pairs, same texts", true, true, false, 1, i, j)
			add("pairs, known texts", false, false, false, 1, i, j)
			if thorough {
				add("pairs, same known texts", false, true, false, 2, i, j)
			}
		}
	}
	three := []int{0, 2, 3, 9, 11, 12}
	for a := range three {
		for b := a; b < len(three); b++ {
			for c := b; c < len(three); c++ {
				k := 1
				if thorough {
					k = 2
				}
				add("triples", true, false, false, k, three[a], three[b], three[c])
			}
		}
	}
	for i := range ops {
		for j := i; j < len(ops); j++ {
			k := 1
			if thorough {
				k = 2
			}
			add("pairs, cold start", true, false, false, k, i, j)
			out[len(out)-1].cold = true
		}
	}
	for _, j := range []int{13, 11, 2, 0} {
		add("lookup tables", true, false, false, 2, 13, j)
		out[len(out)-1].lut = true
	}
	for _, i := range []int{0, 2, 3, 8} {
		for _, j := range []int{0, 2, 4, 6} {
			add("pairs, full cache", true, false, true, bound-1, i, j)
			add("pairs, full cache, same texts", true, true, true, bound-1, i, j)
		}
	}
	for _, i := range []int{2, 11, 12, 14} {
		for _, j := range []int{0, 2, 6, 11, 14} {
			add("pairs, default lookup table", true, false, false, 1, i, j)
			out[len(out)-1].defLUT = true
		}
	}
	flooded := []int{0, 2, 15}
	if thorough {
		flooded = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15}
	}
	for _, i := range flooded {
		out = append(out, &scenario{phase: "known texts, many new ones in between", warm: true, full: true, bound: 1, cap: cap, ops: []op{ops[i], flood},
			name: "known texts, many new ones in between: " + ops[i].name + " || " + flood.name})
	}
	turns := func(n, q int, fresh, shared bool, ix ...int) {
		var all []int
		for k := 0; k < n; k++ {
			all = append(all, ix[k%len(ix)])
		}
		add(fmt.Sprintf("in turn, %d points each", q), fresh, shared, false, -1, all...)
		out[len(out)-1].phase = "goroutines in turn"
		out[len(out)-1].quantum = q
	}
	for i := range ops {
		for _, n := range []int{3, 4, 6, 8} {
			for _, q := range []int{1, 2, 3, 5, 8, 13} {
				turns(n, q, true, false, i)
				turns(n, q, true, true, i)
				turns(n, q, false, false, i)
			}
		}
		for j := 0; j < i; j++ {
			for _, q := range []int{1, 2, 4, 7} {
				turns(4, q, true, false, i, j)
				turns(8, q, true, q%2 == 0, i, j)
			}
		}
	}
	nb := len(ops)
	all := append(append([]op(nil), ops...), batteries...)
	battery := func(phase string, fresh, shared, full bool, bound int, i, j int) {
		sc := &scenario{phase: phase, fresh: fresh, shared: shared, full: full, bound: bound, cap: cap, ops: []op{all[i], all[j]}}
		sc.name = fmt.Sprintf("%s [%d preemptions, fresh texts %v, same texts %v, cache full %v]: %s || %s", phase, bound, fresh, shared, full, all[i].name, all[j].name)
		out = append(out, sc)
	}
	for i := nb; i < len(all); i++ {
		for j := 0; j <= i; j++ {
			// In turn, the same call of two goroutines is not ordered by the locks around it.
			for _, q := range []int{1, 2, 3} {
				if q == 1 || i == j {
					battery("batteries in turn", true, false, false, -1, i, j)
					out[len(out)-1].quantum = q
					out[len(out)-1].name += fmt.Sprintf(" [%d points each]", q)
				}
				if i == j {
					battery("batteries in turn, same texts", true, true, false, -1, i, j)
					out[len(out)-1].quantum = q
					out[len(out)-1].name += fmt.Sprintf(" [%d points each]", q)
					battery("batteries in turn, known texts", false, false, false, -1, i, j)
					out[len(out)-1].quantum = q
					out[len(out)-1].name += fmt.Sprintf(" [%d points each]", q)
				}
			}
			k := 0
			if (i == nb || i == nb+3) && (j < nb || thorough && (j == nb || j == nb+3)) {
				k = 1 // about a thousand scheduling points; the tables have up to twenty thousand
			}
			battery("batteries", true, false, false, k, i, j)
			if !thorough {
				k = 0
			}
			battery("batteries, same texts", true, true, false, k, i, j)
			battery("batteries, known texts", false, false, false, 0, i, j)
			battery("batteries, full cache", true, false, true, 0, i, j)
			battery("batteries, cold start", true, false, false, 0, i, j)
			out[len(out)-1].cold = true
		}
	}
	return out
}

func boundsText(tier string) string {
	if tier == "thorough" {
		return "16 call sequences; all pairs x all schedules with at most 3 preemptions (fresh texts; same and known texts 1-2), 56 triples of 6 sequences with at most 2, 32 pairs on a full cache with at most 2, all pairs from a cold start (a process for each execution) with at most 2; 6 batteries of calls with many kinds of inputs, paired with each other and with all sequences, in either order (alignments and widths: at most 1 preemption), fresh, same, known texts, full cache and cold start, and in turn (1-3 points each); 3-8 goroutines in turn (1-13 points each) over every sequence and pair; 12 sequences on known texts, interrupted at each point by 10050 new texts; 20 pairs with a table on the default condition, at most 1 preemption"
	}
	return "16 call sequences; all pairs x all schedules with at most 2 preemptions (same and known texts 1), 56 triples of 6 sequences with at most 1, 32 pairs on a full cache with at most 1, all pairs from a cold start (a process for each execution) with at most 1; 6 batteries of calls with many kinds of inputs, paired with each other and with all sequences, in either order (alignments and widths with the short sequences: at most 1 preemption), fresh, same, known texts, full cache and cold start, and in turn (1-3 points each); 3-8 goroutines in turn (1-13 points each) over every sequence and pair; 3 sequences on known texts, interrupted at each point by 10050 new texts; 20 pairs with a table on the default condition, at most 1 preemption"
}

// fillCache measures more distinct texts than any cache of the library holds.
func fillCache() {
	for i := 0; i < 10050; i++ {
		table.AlignmentLeft("fill"+strconv.Itoa(i), 0)
		table.AlignmentLeft("fill"+strconv.Itoa(i), 20)
	}
}
