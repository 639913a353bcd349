package main

import (
	"fmt"
	"reflect"
	"strings"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

// ---- the matrix: every combination of a number of columns, a number of items, a kind of
// texts, a pattern of alignments and a kind of column, put to each property ----

type world struct{ nc, n, kind, alp, colk int }

const (
	worldKinds = 13
	worldAls   = 6
	worldCols  = 4
)

var worldKindNames = []string{"short", "shrinking", "growing", "81 to 90 characters, ending in a newline", "over 200 bytes with blanks around", "over 1000 characters", "wide and combining", "colored", "equal", "empty but one", "invalid bytes and controls", "numbers", "lines"}

func (w world) text(i, j int) string {
	switch w.kind {
	case 0:
		return strings.Repeat("s", (i*7+j*3)%5)
	case 1:
		if x := 60 - i*5 - j; x > 0 {
			return strings.Repeat("d", x)
		}
		return "d"
	case 2:
		return strings.Repeat("g", 1+(i+j)%90)
	case 3:
		return strings.Repeat("n", 80+(i+j)%11) + "\n"
	case 4:
		return "  " + strings.Repeat("b", 200+(i*3+j)%9) + " \t "
	case 5:
		return strings.Repeat("L", 1000+(i*5+j)%60)
	case 6:
		return strings.Repeat("世", (i+j)%4) + "e\u0301" + strings.Repeat("👩\u200d🍳", i%3)
	case 7:
		return fmt.Sprintf("\x1b[3%dm%s\x1b[0m", j%8, strings.Repeat("c", (i*3+j)%7))
	case 8:
		return "same"
	case 9:
		if i == w.n-1 && j == w.nc-1 {
			return "something"
		}
		return ""
	case 10:
		return []string{"\xff", "a\x00b", "\t", "\x7fz", "\xe4\xb8", "\u0301", "\u200d"}[(i*2+j)%7]
	case 11:
		return fmt.Sprint([]any{i * 17, -i, float64(i*j) / 4, "1,000", "+5"}[(i+j)%5])
	}
	return []string{"a\nbb", "\n", "x", "longer line\r\nz"}[(i+j*3)%4]
}

func (w world) al(j int) int {
	if w.alp == 5 {
		return (j*3 + 1) % ref.NAl
	}
	return w.alp
}

func (w world) name(j int) string {
	if w.colk >= 2 {
		return fmt.Sprint(trickyNames[j%len(trickyNames)], "/", j)
	}
	return fmt.Sprint("c", j)
}

func (w world) String() string {
	return fmt.Sprintf("%d columns of kind %d aligned by pattern %d, %d items of %s texts", w.nc, w.colk, w.alp, w.n, worldKindNames[w.kind])
}

func (w world) spec(text func(item any, j int) string) *table.TableSpec {
	s := table.NewTableSpec()
	for j := 0; j < w.nc; j++ {
		col := &table.Column{Name: w.name(j), Alignment: alignment(w.al(j)), Getter: cellGetter{j}}
		switch w.colk {
		case 1:
			col.Title, col.Type = "T"+strings.Repeat("t", j%9), colType(j)
		case 2:
			col.Title, col.ShortTitle = strings.Repeat("世", j%12), "s"+strings.Repeat("s", j%5)
		case 3:
			col.Title, col.ShortTitle, col.Type = col.Name, "\x1b[1m"+strings.Repeat("m", j%7)+"\x1b[0m", colType(j+3)
		}
		if text != nil {
			j := j
			col.Getter = &funcGetter{
				value:  func(item any) (any, error) { return item, nil },
				format: func(item, _ any) (string, error) { return text(item, j), nil },
				str:    func(_ string, item any) (string, error) { return text(item, j), nil },
			}
		}
		s.AddColumn(col)
	}
	return s
}

func (w world) rows() (out [][]string) {
	for i := 0; i < w.n; i++ {
		row := make([]string, w.nc)
		for j := range row {
			row[j] = w.text(i, j)
		}
		out = append(out, row)
	}
	return
}

// measure is the reference width, remembered.
func (w world) measure(r *Run) func(string) int {
	m := map[string]int{}
	return func(s string) int {
		x, ok := m[s]
		if !ok {
			x = ref.Cap(ref.Visible(r.Cfg, s))
			m[s] = x
		}
		return x
	}
}

func (w world) pad(al int, s string, have, width int) string {
	switch al {
	case ref.AlNil:
		return s
	case ref.AlDots:
		return dots(s, uint16(width))
	}
	return ref.Pad(al, s, have, width)
}

func (w world) header(vis func(string) int, s *table.TableSpec, cw []int, sep string) string {
	var b strings.Builder
	for j, col := range s.Columns {
		v := col.Title
		if cw[j] > 0 {
			if vis(v) > cw[j] {
				v = col.ShortTitle
				if vis(v) > cw[j] {
					v = ""
				}
			}
			v = ref.Pad(ref.AlCenter, v, vis(v), cw[j])
		}
		b.WriteString(v + sep)
	}
	return b.String() + "\n"
}

// worlds runs f on every world of the matrix that is within its size.
func worlds(r *Run, ns []int, size int, f func(c *C, w world)) {
	r.Phase("columns x items x texts x alignments x column kinds")
	for _, nc := range []int{1, 2, 3, 5, 9, 13, 17, 33, 65, 101, 130} {
		for _, n := range ns {
			for kind := 0; kind < worldKinds; kind++ {
				for alp := 0; alp < worldAls; alp++ {
					for colk := 0; colk < worldCols; colk++ {
						w := world{nc, n, kind, alp, colk}
						long := 20
						switch kind {
						case 2, 3:
							long = 90
						case 4:
							long = 200
						case 5:
							long = 1000
						}
						if nc*n*long > size && n > 1 || (alp == ref.AlDots || alp == 5) && r.Cfg != ref.Plain || !r.Want() {
							continue
						}
						r.State()
						r.Do(w.String, func(c *C) {
							c.Nontrivial(n > 1)
							f(c, w)
						})
					}
				}
			}
		}
	}
}

// prepared is a table that has formatted the rows, with the widths it should have.
func (w world) prepared(c *C, rows [][]string, vis func(string) int) (*table.Table, []int) {
	t := table.NewTable(w.spec(nil))
	cw := make([]int, w.nc)
	for _, row := range rows {
		if _, err := t.FormatItem(row); err != nil {
			c.Fail("FormatItem: %v", err)
		}
		for j, s := range row {
			if x := vis(s); x > cw[j] {
				cw[j] = x
			}
		}
	}
	return t, cw
}

func (w world) checkWidths(c *C, t *table.Table, cw []int, when string) bool {
	for j, x := range cw {
		if got := int(t.Width(w.name(j))); got != x {
			c.Fail("%s: width of column %d is %d, want %d", when, j, got, x)
			return false
		}
	}
	return true
}

var worldNs = []int{1, 2, 3, 8, 20, 51, 130}

func matrix(r *Run) {
	switch current {
	case "C04":
		worlds(r, worldNs, 60000, func(c *C, w world) {
			rows, vis := w.rows(), w.measure(r)
			spec := w.spec(nil)
			t, o := table.NewTable(spec), table.NewTable(spec)
			cw, none := make([]int, w.nc), make([]int, w.nc)
			step := func(i int) bool {
				if _, err := t.FormatItem(rows[i]); err != nil {
					c.Fail("%v", err)
					return false
				}
				c.Op(1)
				for j, s := range rows[i] {
					if x := vis(s); x > cw[j] {
						cw[j] = x
					}
				}
				return (w.nc*w.n > 500 && i%7 > 0) || w.checkWidths(c, t, cw, fmt.Sprintf("after item %d", i))
			}
			for i := range rows {
				if !step(i) {
					return
				}
			}
			for i := len(rows) - 1; i >= 0; i -= 1 + len(rows)/3 { // earlier ones again
				if !step(i) {
					return
				}
			}
			up := map[string]uint16{}
			for j := range cw {
				up[w.name(j)] = uint16(3 + j%40)
				if 3+j%40 > cw[j] {
					cw[j] = 3 + j%40
				}
			}
			t.UpdateWidth(up)
			if w.checkWidths(c, t, cw, "after merging widths") && step(0) {
				w.checkWidths(c, t, cw, "at the end")
				w.checkWidths(c, o, none, "another table")
			}
			c.OutcomeN(cw[w.nc-1])
		})
	case "C05":
		worlds(r, []int{1, 3, 20}, 60000, func(c *C, w world) {
			rows := w.rows()
			t := table.NewTable(w.spec(nil))
			u := table.NewTable(w.spec(func(item any, j int) string { return w.text(item.(int), j) }))
			sep := []string{"", ",", "\n", "; "}[w.colk]
			for i, row := range rows {
				orig := append([]string(nil), row...)
				for k := 0; k < 2; k++ {
					var f []string
					var b string
					var e1, e2 error
					if k == 0 {
						f, e1 = t.FormatItem(row)
						b, e2 = t.FormatItemBasic(row, sep)
					} else {
						f, e1 = u.FormatItem(i)
						b, e2 = u.FormatItemBasic(i, sep)
					}
					c.Op(2)
					if e1 != nil || e2 != nil || !reflect.DeepEqual(f, orig) || b != strings.Join(orig, sep) || !reflect.DeepEqual(row, orig) {
						c.Fail("item %d: cells %s, basic %s, %v %v, want %s", i, q(fmt.Sprint(f)), q(b), e1, e2, q(fmt.Sprint(orig)))
						return
					}
				}
			}
			c.OutcomeN(len(rows[0][0]))
		})
	case "C06", "C25":
		worlds(r, []int{1, 3, 20, 51}, 30000, func(c *C, w world) {
			rows, vis := w.rows(), w.measure(r)
			t, cw := w.prepared(c, rows, vis)
			if c.Failed() {
				return
			}
			head := t.FormatHeader("")
			hw := 0
			for j := range cw {
				if cw[j] == 0 {
					hw += vis(t.Columns[j].Title)
				} else {
					hw += cw[j]
				}
			}
			if x := ref.Visible(r.Cfg, head); current == "C25" && x != hw && w.colk != 3 {
				c.Fail("header %s is %d cells wide, want %d", q(head), x, hw)
				return
			}
			for i, row := range rows {
				f, err := t.FormatItem(row)
				if err == nil {
					f, err = t.AlignFormattedItem(f)
				}
				c.Op(1)
				if err != nil || len(f) != w.nc {
					c.Fail("item %d: %q, %v", i, f, err)
					return
				}
				for j, s := range row {
					if want := w.pad(w.al(j), s, vis(s), cw[j]); f[j] != want {
						c.Fail("item %d, column %d: %s, want %s", i, j, q(f[j]), q(want))
						return
					}
				}
			}
			w.checkWidths(c, t, cw, "at the end")
			if bad, err := t.AlignFormattedItem(make([]string, w.nc+1)); current == "C06" && (err == nil || len(bad) > 0) {
				c.Fail("a row of %d cells was aligned", w.nc+1)
			}
			c.OutcomeN(cw[w.nc-1])
		})
	case "C07":
		worlds(r, []int{1, 3, 20}, 30000, func(c *C, w world) {
			rows, vis := w.rows(), w.measure(r)
			t, cw := w.prepared(c, rows, vis)
			for k := 0; k < 3; k++ {
				for _, sep := range []string{"", "|", " \n"} {
					c.Op(1)
					if got, want := t.FormatHeader(sep), w.header(vis, t.TableSpec, cw, sep); got != want {
						c.Fail("separator %q: header %s, want %s", sep, q(got), q(want))
						return
					}
				}
				up := map[string]uint16{}
				for j := range cw {
					if (j+k)%2 == 0 {
						cw[j] += []int{3, 1200}[k&1]
						up[w.name(j)] = uint16(cw[j])
					}
				}
				t.UpdateWidth(up)
			}
			c.OutcomeN(cw[w.nc-1])
		})
	case "C21":
		worlds(r, []int{1, 3}, 60000, func(c *C, w world) {
			rows, vis := w.rows(), w.measure(r)
			t, cw := w.prepared(c, rows, vis)
			sum := 0
			for _, x := range cw {
				sum += x
			}
			for _, m := range []int{0, 1, 2, 3, 7, 255, 1000, 65535} {
				want := ref.Cap(sum + (w.nc-1)*m)
				c.Op(1)
				if got := int(t.TableWidth(uint16(m))); got != want {
					c.Fail("total width for margin %d is %d, want %d", m, got, want)
					return
				}
			}
			if t.ColumnCount() != w.nc || len(t.Columns) != w.nc {
				c.Fail("%d columns", t.ColumnCount())
			}
			for j := 0; j < w.nc; j++ {
				if n := w.name(j); !t.HasColumn(n) || t.ColumnByName[n] != t.Columns[j] || t.Columns[j].Name != n || t.HasColumn(n+"x") {
					c.Fail("column %d is not found under its name", j)
					return
				}
			}
			c.OutcomeN(sum)
		})
	case "C14":
		worlds(r, []int{1, 2, 20, 60}, 12000, func(c *C, w world) {
			rows, vis := w.rows(), w.measure(r)
			for own := 0; own < 3; own++ {
				// the list was formatted by the table, or by another one, or in part
				var t *table.Table
				switch own {
				case 0:
					t, _ = w.prepared(c, rows, vis)
				case 1:
					t = table.NewTable(w.spec(nil))
					t.UpdateWidth(map[string]uint16{w.name(0): 2, w.name(w.nc - 1): 5})
				case 2:
					t, _ = w.prepared(c, rows[w.n/2:], vis)
				}
				backing := make([][]string, w.n)
				var l list
				for i, row := range rows {
					backing[i] = append(append([]string(nil), row...), "spare")
					l = append(l, backing[i][:w.nc])
				}
				snap, cols := fmt.Sprintf("%q", backing), snapSpec(t)
				one := 0
				for j := 0; j < w.nc; j++ {
					one += int(t.Width(w.name(j))) + 1
				}
				var first []string
				for round := 0; round < 2; round++ {
					k := 0
					see := func(what, got string) bool {
						c.Op(1)
						if round == 0 {
							first = append(first, got)
						} else if first[k] != got {
							c.Fail("%s gives %s, the first time it gave %s", what, q(got), q(first[k]))
							return false
						}
						k++
						if cols2 := snapSpec(t); cols2 != cols {
							c.Fail("%s changed the columns or widths to %s from %s", what, clip(cols2), clip(cols))
							return false
						}
						return true
					}
					for m := 0; m < 4; m++ {
						for _, max := range []int{0, 2*one + 1, 100000} {
							if !see("merging", mergeStr(t, l, m&2 == 2, max, "|", m&1 == 1)) {
								return
							}
						}
					}
					basic, err := t.FormatItemBasic(rows[0], ",")
					if !see("the header", t.FormatHeader("|")) || !see("basic formatting", fmt.Sprint(basic, err)) || !see("the total width", fmt.Sprint(t.TableWidth(2))) {
						return
					}
					for j := 0; j < w.nc && j < 3; j++ {
						if !see("aligning a text", table.AlignmentLeft(l[0][j], 9)+table.AlignmentRight(l[0][j], 9)+table.AlignmentCenter(l[0][j], 300)) {
							return
						}
					}
				}
				if s := fmt.Sprintf("%q", backing); s != snap {
					c.Fail("items changed to %s from %s", q(s), q(snap))
					return
				}
			}
		})
	}
}

// matrixMerge: the same combinations for merging.
func matrixMerge(r *Run, emit func(l *lay)) {
	r.Phase("columns x items x texts x alignments")
	lines := current == "C08" || current == "C09"
	for _, nc := range []int{1, 2, 3, 5, 9, 17, 33} {
		for _, n := range []int{1, 2, 3, 8, 20, 51} {
			for kind := 0; kind < worldKinds; kind++ {
				if (kind == 3 || kind == 12) && !lines || kind == 5 && nc*n > 60 || nc*n > 500 {
					continue
				}
				for alp := 0; alp < 3; alp++ {
					for m := 0; m < 4; m++ {
						for mi := 0; mi < 3; mi++ {
							if !r.Want() {
								continue
							}
							w := world{nc, n, kind, alp, 0}
							sep := []string{" ", "|", "", "--"}[(nc+n+kind+alp)%4]
							l := oddLay(r, w.rows(), sep, 0, m, alp)
							one := nc - 1
							for _, x := range l.ColW {
								one += x
							}
							l.Max = []int{one, 2*one + len(sep), 3*one + 2*len(sep) - 1}[mi]
							emit(l)
						}
					}
				}
			}
		}
	}
}

// ---- C01, C02, C17, C18, C20: a run of one kind of text, one of another, a run of a
// third, in every combination ----

var matrixUnits = []string{
	"a", " ", "\t", "世", "é", "e\u0301", "\u0301", "\u200d", "👩\u200d🍳", "🇺🇸", "🇺", "☺\ufe0f", "☎\ufe0e", "\x1b[1m", "\u009b1;31m", "\x1b", "\xff", "\xe4\xb8", "\r\n", "\n", "ᄀ", "각", "\u0903", "│", "\x00", "\u2e3b", "[1m", "\u0600", "1", "👩",
}

func textMatrix(r *Run, one func(s string)) {
	r.Phase("a run, another kind of text, a run of a third")
	lens := []int{1, 2, 17, 70}
	for _, a := range matrixUnits {
		for _, la := range lens {
			x := strings.Repeat(a, la)
			for _, b := range matrixUnits {
				for _, d := range matrixUnits {
					for _, ld := range lens {
						if la+ld > 75 && !r.Thorough() && (la+ld)%4 != 0 || !r.Want() {
							continue
						}
						one(x + b + strings.Repeat(d, ld))
					}
				}
			}
		}
	}
	r.Phase("two runs in turn")
	for _, a := range matrixUnits {
		for _, b := range matrixUnits {
			for _, n := range []int{5, 9, 17, 33, 65, 129, 260, 520, 1030} {
				for _, p := range []int{1, 4} {
					if !r.Want() {
						continue
					}
					u := strings.Repeat(a, p) + b
					k := n / (p + 1)
					one(strings.Repeat(u, k))
					one(strings.Repeat(u, k) + b)
					one(b + strings.Repeat(a, n) + b)
				}
			}
		}
	}
}
