package main

import (
	"fmt"
	"reflect"
	"strings"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

func init() {
	register(&Check{ID: "C05", Run: c05,
		Bounds: map[string]string{
			"rule":     "cases: (columns, cell texts, outcome of every getter step); non-trivial: two or more columns or a failing step",
			"quick":    "0-4 columns; each column: 4 texts (incl. empty and blank) x {ok, value fails, format fails}, names distinct or repeated; two items in a row; up to 257 columns with a failure at each place; basic formatting with 4 separators and each plain-string step ok or failing; 41 kinds of items x 41 kinds of values x 5 column types; 20 kinds of errors x 3 steps x 3 columns; 28 texts x 32 names x 7 separators; all sequences of 5 changes (item, getter, column) between calls",
			"thorough": "0-5 columns, same",
		}})
	register(&Check{ID: "C06", Run: c06, EnvEA: true,
		Bounds: map[string]string{
			"rule":     "cases: (alignments, widths, cells); non-trivial: some cell needs padding or the count is wrong",
			"quick":    "0-3 columns: alignment in {none,left,right,center,custom} x width in {0,1,4,7} x cell in {empty,1,wide,coloured}, every assignment; cell counts 0..columns+2; up to 257 columns; single column with every width 0..2000; all ordered pairs of 32 look-alike names, with the alignments and columns changed in between",
			"thorough": "0-3 columns with 6 widths and 5 cells, and 4 columns with 2 widths, 3 cells and 5 alignments",
		}})
	register(&Check{ID: "C07", Run: c07, EnvEA: true,
		Bounds: map[string]string{
			"rule":     "cases: (titles, short titles, widths, separator); non-trivial: the title does not fit or is not plain ASCII",
			"quick":    "one column: 16 titles x 16 short titles x widths 0..24 and 8 large ones x 3 separators; two columns: 5 titles x 4 short x 5 widths each; up to 257 columns; repeated names; width from formatting or from merging; titles of every length to 400 and near round numbers to 65535 around the column width; all ordered pairs of 32 look-alike names, titles changed in between",
			"thorough": "one column: widths 0..600; three columns: 4 titles x 3 short x 4 widths each",
		}})
	register(&Check{ID: "C21", Run: c21,
		Bounds: map[string]string{
			"rule":     "cases: operation sequences; non-trivial: three or more operations",
			"quick":    "all sequences to length 5 of 10 operations (add columns of 4 names through specification or tables, merge widths); after each all columns, names, counts and total widths for 8 margins are compared; 0..300 columns; all ordered pairs of 32 look-alike names; every margin 0..65535 x 0-4 columns x 8 widths",
			"thorough": "the same to length 6; 0..2000 columns",
		}})
}

type val struct{ n int }

type recGetter struct {
	col     int
	name    string
	mode    [2]int // per item: 0 ok, 1 value fails, 2 format fails
	texts   [2]string
	basic   [2]bool // plain string fails
	items   *[2]any
	vals    [2]*val
	problem *string
	errV    [2]error
	errF    [2]error
	errS    [2]error
}

func (g *recGetter) which(item any) int {
	for i := range g.items {
		if g.items[i] == item {
			return i
		}
	}
	*g.problem = fmt.Sprintf("column %d: getter called with a foreign item %v", g.col, item)
	return 0
}
func (g *recGetter) Value(item any) (any, error) {
	i := g.which(item)
	if g.mode[i] == 1 {
		return nil, g.errV[i]
	}
	return g.vals[i], nil
}
func (g *recGetter) ValueString(name string, item any) (string, error) {
	i := g.which(item)
	if name != g.name {
		*g.problem = fmt.Sprintf("column %d (%q): plain string requested under the name %q", g.col, g.name, name)
	}
	if g.basic[i] {
		return "junk", g.errS[i]
	}
	return g.texts[i], nil
}
func (g *recGetter) Format(item any, v any) (string, error) {
	i := g.which(item)
	if v != any(g.vals[i]) {
		*g.problem = fmt.Sprintf("column %d: formatting got value %v, not the one returned for this item", g.col, v)
	}
	if g.mode[i] == 2 {
		return "junk", g.errF[i]
	}
	return g.texts[i], nil
}

// colText makes a text that tells the columns apart, except that it stays
// empty or blank where the alternative is.
func colText(alt, mark string) string {
	if strings.TrimSpace(alt) == "" {
		return alt
	}
	return alt + mark
}

func c05(r *Run) {
	matrix(r)
	c05kinds(r)
	veryMany(r)
	r.Phase("formatting")
	alts := []string{"", "v", "\x1b[1m世\x1b[0m", " "}
	maxC := r.Pick(4, 5)
	for dup := 0; dup < 2; dup++ {
		for nc := 0; nc <= maxC; nc++ {
			wordsN(3*len(alts), nc, func(w []int) { // per column: text*3+mode
				if !r.Want() {
					return
				}
				r.State()
				spec := append([]int(nil), w...)
				r.Do(func() string {
					return fmt.Sprintf("%d columns, repeated names %d, per column (text*3+outcome; outcome 1 value fails, 2 format fails) %v", nc, dup, spec)
				}, func(c *C) {
					c05case(c, nc, dup, spec, alts)
				})
			})
		}
	}
	r.Phase("many columns")
	for _, nc := range manyCols {
		for fail := -1; fail < 2*nc; fail++ {
			for dup := 0; dup < 2; dup++ {
				if !r.Want() {
					continue
				}
				r.State()
				spec := make([]int, nc)
				for j := range spec {
					spec[j] = (j % len(alts)) * 3
				}
				if fail >= 0 {
					spec[fail/2] += 1 + fail%2
				}
				r.Do(func() string {
					return fmt.Sprintf("%d columns, repeated names %d, per column (text*3+outcome) %v", nc, dup, spec)
				}, func(c *C) { c05case(c, nc, dup, spec, alts) })
			}
		}
	}
	r.Phase("basic formatting")
	basic := func(sep string, nc int, spec []int) {
		r.Do(func() string {
			return fmt.Sprintf("basic, separator %q, per column (text*2+fails) %v", sep, spec)
		}, func(c *C) {
			c.Nontrivial(nc > 1)
			var problem string
			items := [2]any{&val{1}, &val{2}}
			t := table.NewTable(nil)
			want := ""
			var wantErr error
			for j, x := range spec {
				g := &recGetter{col: j, name: fmt.Sprintf("n%d", j/2), items: &items, problem: &problem}
				g.texts = [2]string{colText(alts[x/2], fmt.Sprint(j)), "other"}
				g.basic[0] = x%2 == 1
				g.errS[0] = fmt.Errorf("plain %d", j)
				t.AddColumn(&table.Column{Name: g.name, Getter: g, Alignment: alignment((j + x) % ref.NAl)})
				if wantErr == nil {
					if g.basic[0] {
						wantErr = g.errS[0]
					} else {
						if j > 0 {
							want += sep
						}
						want += g.texts[0]
					}
				}
			}
			if wantErr != nil {
				want = ""
			}
			got, err := t.FormatItemBasic(items[0], sep)
			c.Op(1)
			c.Outcome(got)
			if problem != "" {
				c.Fail("%s", problem)
			} else if err != wantErr || got != want {
				c.Fail("got %s, %v; want %s, %v", q(got), err, q(want), wantErr)
			}
		})
	}
	for _, sep := range []string{"", ",", " | ", "世"} {
		for nc := 0; nc <= maxC; nc++ {
			wordsN(2*len(alts), nc, func(w []int) { // text*2+fail
				if !r.Want() {
					return
				}
				r.State()
				basic(sep, nc, append([]int(nil), w...))
			})
		}
	}
	r.Phase("basic formatting of many columns")
	for _, nc := range manyCols {
		for fail := -1; fail < nc; fail++ {
			if !r.Want() {
				continue
			}
			r.State()
			spec := make([]int, nc)
			for j := range spec {
				spec[j] = (j % len(alts)) * 2
			}
			if fail >= 0 {
				spec[fail]++
			}
			basic(",", nc, spec)
		}
	}
}

// column counts beyond the exhaustive ones, around sizes code may treat specially
var manyCols = []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 26, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257}

func c05case(c *C, nc, dup int, spec []int, alts []string) {
	var problem string
	items := [2]any{&val{1}, &val{2}}
	t := table.NewTable(nil)
	gs := make([]*recGetter, nc)
	for j, x := range spec {
		name := fmt.Sprintf("n%d", j)
		if dup == 1 {
			name = fmt.Sprintf("n%d", j/2)
		}
		g := &recGetter{col: j, name: name, items: &items, problem: &problem}
		// the second item runs through the same outcomes shifted by one column
		y := spec[(j+1)%nc]
		g.mode = [2]int{x % 3, y % 3}
		g.texts = [2]string{colText(alts[x/3], fmt.Sprint(j)), colText(alts[y/3], fmt.Sprint(j)+"b")}
		for i := 0; i < 2; i++ {
			g.vals[i] = &val{100*j + i}
			g.errV[i] = fmt.Errorf("value %d of item %d", j, i)
			g.errF[i] = fmt.Errorf("format %d of item %d", j, i)
		}
		gs[j] = g
		t.AddColumn(&table.Column{Name: name, Title: "T", Getter: g, Type: reflect.TypeOf(""), Alignment: alignment((j + x) % ref.NAl)})
	}
	var kept [][]string
	var keptWant [][]string
	for i := 0; i < 2; i++ {
		want := []string{}
		var wantErr error
		for _, g := range gs {
			if g.mode[i] == 1 {
				wantErr = g.errV[i]
			} else if g.mode[i] == 2 {
				wantErr = g.errF[i]
			}
			if wantErr != nil {
				break
			}
			want = append(want, g.texts[i])
		}
		got, err := t.FormatItem(items[i])
		c.Op(1)
		c.Outcome(fmt.Sprint(got, err))
		c.Nontrivial(i == 0 && (nc > 1 || wantErr != nil))
		if problem != "" {
			c.Fail("%s", problem)
			return
		}
		if err != wantErr {
			c.Fail("item %d: error %v, want %v", i, err, wantErr)
			return
		}
		if wantErr != nil {
			if len(got) != 0 {
				c.Fail("item %d: cells %q returned with an error", i, got)
				return
			}
			continue
		}
		if len(got) != nc || strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			c.Fail("item %d: cells %q, want %q", i, got, want)
			return
		}
		kept = append(kept, got)
		keptWant = append(keptWant, want)
	}
	for i := range kept {
		if strings.Join(kept[i], "\x00") != strings.Join(keptWant[i], "\x00") {
			c.Fail("cells returned earlier changed to %q", kept[i])
		}
	}
	if items[0].(*val).n != 1 || items[1].(*val).n != 2 {
		c.Fail("item changed")
	}
}

func c06(r *Run) {
	c06more(r)
	veryMany(r)
	c06types(r)
	matrix(r)
	widths := []int{0, 1, 4, 7}
	cells := []string{"", "a", "世", "\x1b[1mbbb\x1b[0m"}
	if r.Thorough() {
		widths = append(widths, 2, 300)
		cells = append(cells, "│ c")
	}
	one := func(als, ws []int, row []string, extra int) {
		r.Do(func() string { return fmt.Sprintf("alignments %v, widths %v, cells %q", als, ws, row) }, func(c *C) {
			t := table.NewTable(nil)
			var got [][2]any
			for j := range als {
				name := fmt.Sprintf("c%d", j)
				al := alignment(als[j])
				if als[j] == ref.AlDots {
					al = func(s string, w uint16) string {
						got = append(got, [2]any{s, w})
						return fmt.Sprintf("<%s/%d>", s, w)
					}
				}
				t.AddColumn(&table.Column{Name: name, Alignment: al, Getter: cellGetter{j}})
				t.UpdateWidth(map[string]uint16{name: uint16(ws[j])})
			}
			in := append([]string(nil), row...)
			out, err := t.AlignFormattedItem(in)
			c.Op(1)
			if len(row) != len(als) {
				c.Nontrivial(true)
				if err == nil {
					c.Fail("%d cells for %d columns accepted", len(row), len(als))
				} else if strings.Join(in, "\x00") != strings.Join(row, "\x00") {
					c.Fail("a rejected row was changed to %q", in)
				}
				return
			}
			if err != nil || len(out) != len(row) {
				c.Fail("result %q, %v", out, err)
				return
			}
			for j := range als {
				want := row[j]
				w := ref.Visible(r.Cfg, row[j])
				switch als[j] {
				case ref.AlNil:
				case ref.AlDots:
					want = fmt.Sprintf("<%s/%d>", row[j], ws[j])
				default:
					want = ref.Pad(als[j], row[j], w, ws[j])
				}
				if out[j] != want {
					c.Fail("cell %d is %s, want %s", j, q(out[j]), q(want))
					return
				}
				if int(t.Width(fmt.Sprintf("c%d", j))) != ws[j] {
					c.Fail("width of column %d changed", j)
					return
				}
				c.Nontrivial(j == 0 && w < ws[j])
			}
			c.Outcome(strings.Join(out, "|"))
		})
	}
	r.Phase("one to three columns")
	nw, ncell := len(widths), len(cells)
	per := nw * ncell * ref.NAl
	max := 3
	dec := func(x int, pw, pc []int, cs []string) (al, w int, cell string) {
		return x % ref.NAl, pw[x/ref.NAl%len(pw)], cs[pc[x/ref.NAl/len(pw)]]
	}
	idx := make([]int, ncell)
	for i := range idx {
		idx[i] = i
	}
	for nc := 0; nc <= max; nc++ {
		p := per
		pw, pc := widths, idx
		if nc == 3 && !r.Thorough() {
			pw, pc = []int{0, 4}, []int{0, 1, 3}
			p = ref.NAl * 2 * 3
		} else if nc == 3 {
			pw, pc = []int{0, 4, 7}, []int{0, 1, 3}
			p = ref.NAl * 3 * 3
		}
		wordsN(p, nc, func(w []int) {
			if !r.Want() {
				return
			}
			r.State()
			als, ws, row := make([]int, nc), make([]int, nc), make([]string, nc)
			for j, x := range w {
				als[j], ws[j], row[j] = dec(x, pw, pc, cells)
			}
			one(als, ws, row, 0)
		})
	}
	if r.Thorough() {
		wordsN(ref.NAl*2*3, 4, func(w []int) {
			if !r.Want() {
				return
			}
			r.State()
			als, ws, row := make([]int, 4), make([]int, 4), make([]string, 4)
			for j, x := range w {
				als[j], ws[j], row[j] = dec(x, []int{1, 5}, []int{0, 1, 3}, cells)
			}
			one(als, ws, row, 0)
		})
	}
	r.Phase("many columns")
	for _, nc := range manyCols {
		for k := 0; k < 6; k++ {
			for _, d := range []int{0, -1, 1} {
				if !r.Want() {
					continue
				}
				r.State()
				als, ws, row := make([]int, nc), make([]int, nc), make([]string, nc+d)
				for j := range als {
					als[j], ws[j] = (j+k)%ref.NAl, (j*3+k)%11
				}
				for j := range row {
					row[j] = cells[(j/2+k)%len(cells)]
				}
				one(als, ws, row, 0)
			}
		}
	}
	r.Phase("wrong number of cells")
	for nc := 0; nc <= 4; nc++ {
		for k := 0; k <= nc+3; k++ {
			for al := 0; al < ref.NAl; al++ {
				if k == nc || !r.Want() {
					continue
				}
				r.State()
				als, ws, row := make([]int, nc), make([]int, nc), make([]string, k)
				for j := range als {
					als[j], ws[j] = al, 5
				}
				for j := range row {
					row[j] = fmt.Sprint("r", j)
				}
				one(als, ws, row, 0)
			}
		}
	}
	r.Phase("every width of one column")
	for w := 0; w <= 2000; w++ {
		for al := 0; al < ref.NAl; al++ {
			if !r.Want() {
				continue
			}
			r.State()
			one([]int{al}, []int{w}, []string{"世x"}, 0)
		}
	}
}

func c07(r *Run) {
	c07more(r)
	veryMany(r)
	c07odd(r)
	matrix(r)
	head := func(titles, shorts []string, ws []int, sep string, sameName, viaFormat bool) {
		r.Do(func() string {
			return fmt.Sprintf("titles %q, short %q, widths %v, separator %q, repeated names %v, via formatting %v", titles, shorts, ws, sep, sameName, viaFormat)
		}, func(c *C) {
			t := table.NewTable(nil)
			item := make([]string, len(titles))
			for j := range titles {
				name := fmt.Sprintf("c%d", j)
				if sameName {
					name = "c"
				}
				t.AddColumn(&table.Column{Name: name, Title: titles[j], ShortTitle: shorts[j], Getter: cellGetter{j}, Alignment: alignment(j % ref.NAl)})
				if viaFormat {
					item[j] = strings.Repeat("i", ws[j])
				} else {
					t.UpdateWidth(map[string]uint16{name: uint16(ws[j])})
				}
			}
			if viaFormat {
				if _, err := t.FormatItem(item); err != nil {
					c.Fail("%v", err)
					return
				}
			}
			want := ""
			nt := false
			for j := range titles {
				w := ws[j]
				if sameName {
					for _, x := range ws {
						if x > w {
							w = x
						}
					}
				}
				v := titles[j]
				if w > 0 {
					if ref.Visible(r.Cfg, v) > w {
						nt = true
						v = shorts[j]
						if ref.Visible(r.Cfg, v) > w {
							v = ""
						}
					}
					v = ref.Pad(ref.AlCenter, v, ref.Visible(r.Cfg, v), w)
				}
				want += v + sep
			}
			want += "\n"
			got := t.FormatHeader(sep)
			c.Op(1)
			c.Nontrivial(nt)
			c.Outcome(got)
			if got != want {
				c.Fail("header %s, want %s", q(got), q(want))
			}
		})
	}
	titles := []string{"", "A", "Name", "Number", "名前", "名", "Größe", "größer", "\x1b[1mBold\x1b[0m", "\x1b[1mB\x1b[0m", "e\u0301e\u0301", "a b c d e f", "│││", "👩\u200d🍳", "\u009b1mC1", "Имя"}
	seps := []string{"", " ", " | "}
	var ws []int
	for w := 0; w <= r.Pick(24, 600); w++ {
		ws = append(ws, w)
	}
	ws = append(ws, 127, 128, 255, 256, 257, 1000, 32768, 65535)
	r.Phase("one column")
	for _, a := range titles {
		for _, b := range titles {
			for _, w := range ws {
				for si, sep := range seps {
					if w > 30 && si > 0 || w >= 32768 && (a == "" || b != "A") {
						continue
					}
					if !r.Want() {
						continue
					}
					r.State()
					head([]string{a}, []string{b}, []int{w}, sep, false, w%2 == 1)
				}
			}
		}
	}
	r.Phase("several columns")
	n := r.Pick(2, 3)
	t2 := []string{"Name", "名前", "\x1b[1mBo\x1b[0m", "Größe", ""}
	s2 := []string{"", "N", "名", "long short"}
	w2 := []int{0, 1, 3, 5, 8}
	if r.Thorough() {
		t2, s2, w2 = t2[:4], s2[1:], w2[1:]
	}
	wordsN(len(t2)*len(s2)*len(w2), n, func(w []int) {
		for v := 0; v < 3; v++ {
			if r.Thorough() && v > 0 {
				continue
			}
			if !r.Want() {
				continue
			}
			r.State()
			a, b, ww := make([]string, n), make([]string, n), make([]int, n)
			for j, x := range w {
				a[j], b[j], ww[j] = t2[x%len(t2)], s2[x/len(t2)%len(s2)], w2[x/len(t2)/len(s2)]
			}
			head(a, b, ww, "|", v == 1, v == 2)
		}
	})
	r.Phase("many columns")
	for _, nc := range manyCols {
		for k := 0; k < 40; k++ {
			for v := 0; v < 3; v++ {
				if !r.Want() {
					continue
				}
				r.State()
				a, b, ww := make([]string, nc), make([]string, nc), make([]int, nc)
				for j := range a {
					a[j], b[j], ww[j] = titles[(j*5+k)%len(titles)], titles[(j+k*3)%len(titles)], (j*2+k)%9
				}
				head(a, b, ww, seps[k%3], v == 1, v == 2)
			}
		}
	}
	r.Phase("no columns")
	for _, sep := range seps {
		if r.Want() {
			r.State()
			head(nil, nil, nil, sep, false, false)
		}
	}
}

func c21(r *Run) {
	c21names(r)
	c21many(r)
	veryMany(r)
	matrix(r)
	r.Phase("operation sequences")
	names := []string{"a", "b", "", "ü"}
	margins := []int{0, 1, 2, 3, 7, 255, 32768, 65535}
	checkAll := func(c *C, step int, ts []*table.Table, spec *table.TableSpec, cols []*table.Column, widths []map[string]int) bool {
		for k, t := range ts {
			if t.ColumnCount() != len(cols) || len(t.Columns) != len(cols) {
				c.Fail("step %d: table %d counts %d columns, want %d", step, k, t.ColumnCount(), len(cols))
				return false
			}
			last := map[string]*table.Column{}
			for i, col := range cols {
				if t.Columns[i] != col {
					c.Fail("step %d: column %d of table %d is not the one added", step, i, k)
					return false
				}
				last[col.Name] = col
			}
			for _, n := range append([]string{"absent", "A"}, names...) {
				if t.HasColumn(n) != (last[n] != nil) || t.ColumnByName[n] != last[n] {
					c.Fail("step %d: name %q: known %v, want %v", step, n, t.HasColumn(n), last[n] != nil)
					return false
				}
			}
			for _, m := range margins {
				want := 0
				for _, col := range cols {
					want += widths[k][col.Name]
				}
				if len(cols) > 0 {
					want += m * (len(cols) - 1)
				}
				want = ref.Cap(want)
				if got := int(t.TableWidth(uint16(m))); got != want {
					c.Fail("step %d: total width for margin %d is %d, want %d", step, m, got, want)
					return false
				}
				c.Op(1)
			}
		}
		return true
	}
	words(10, r.Pick(5, 6), func(w []int) {
		for mode := 0; mode < 2; mode++ { // 0: own specification, 1: table without one
			if !r.Want() {
				continue
			}
			r.State()
			seq := append([]int(nil), w...)
			mode := mode
			r.Do(func() string {
				return fmt.Sprintf("mode %d, operations %v (0-3 add through spec, 4-5 add through table, 6-9 merge widths)", mode, seq)
			}, func(c *C) {
				c.Nontrivial(len(seq) > 2)
				var spec *table.TableSpec
				var ts []*table.Table
				if mode == 0 {
					spec = table.NewTableSpec()
					ts = []*table.Table{table.NewTable(spec), table.NewTable(spec)}
				} else {
					ts = []*table.Table{table.NewTable(nil)}
					spec = ts[0].TableSpec
				}
				var cols []*table.Column
				widths := []map[string]int{{}, {}}
				if !checkAll(c, -1, ts, spec, cols, widths) {
					return
				}
				for step, o := range seq {
					c.Op(1)
					switch {
					case o < 6:
						col := &table.Column{Name: names[o%4]}
						if o < 4 {
							spec.AddColumn(col)
						} else {
							ts[len(ts)-1].AddColumn(col)
						}
						cols = append(cols, col)
					default:
						u := []map[string]uint16{{"a": 3}, {"b": 65535, "": 1}, {"a": 40000, "ü": 30000}, {"a": 65530}}[o-6]
						k := o % len(ts)
						for n, v := range u {
							if int(v) > widths[k][n] {
								widths[k][n] = int(v)
							}
						}
						ts[k].UpdateWidth(u)
					}
					if !checkAll(c, step, ts, spec, cols, widths) {
						return
					}
				}
				c.Outcome(fmt.Sprint(len(cols), widths))
			})
		}
	})
	r.Phase("separate specifications")
	r.Case(func() string { return "tables without a specification do not share one" }, func(c *C) {
		a, b := table.NewTable(nil), table.NewTable(nil)
		a.AddColumn(&table.Column{Name: "a"})
		if b.ColumnCount() != 0 || b.HasColumn("a") {
			c.Fail("column added to one table appears in another")
		}
	})
	r.Phase("many columns")
	for n := 0; n <= r.Pick(300, 2000); n++ {
		if !r.Want() {
			continue
		}
		r.State()
		r.Do(func() string { return fmt.Sprintf("%d columns", n) }, func(c *C) {
			t := table.NewTable(nil)
			u := map[string]uint16{}
			sum := 0
			for i := 0; i < n; i++ {
				name := fmt.Sprint("k", i)
				t.AddColumn(&table.Column{Name: name})
				u[name] = uint16(i % 13 * 7)
				sum += i % 13 * 7
			}
			t.UpdateWidth(u)
			for _, m := range margins {
				want := sum
				if n > 0 {
					want += m * (n - 1)
				}
				if got := int(t.TableWidth(uint16(m))); got != ref.Cap(want) {
					c.Fail("total width for margin %d is %d, want %d", m, got, ref.Cap(want))
					return
				}
				c.Op(1)
			}
			c.OutcomeN(sum)
		})
	}
}
