package main

import (
	"fmt"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verifmc/ref"
)

func init() {
	register(&Check{ID: "C23", Run: c23, EnvEA: true, Bounds: map[string]string{
		"rule":     "cases: histories; non-trivial: a condition is created after a package setting was changed, or a package setting or another condition is changed after one was created",
		"quick":    "every history of length 4 over {toggle package East Asian, toggle package strict, X := new, Y := new, toggle X East Asian, toggle X strict, build X, toggle default East Asian, build default, build by the package function, X := a copy of the default one, Y := a copy of X}; after each step one code point of every width combination and 4 texts are compared for each condition, at the end every code point next to a width change; every history of length 5 without the table builds",
		"thorough": "every history of length 5 with and of length 7 without table builds",
	}, Assume: []string{"after a setting change a condition that has a table is unspecified until it is rebuilt (documented in CreateLUT)"}})
	register(&Check{ID: "C24", Run: c24, Bounds: map[string]string{
		"rule":     "cases: (texts of two iterators, interleaving of calls on them); non-trivial: both iterators are in use and one has a cluster of several code points or ends",
		"quick":    "9 x 9 texts x every sequence of 6 calls over {A.Next, A.Runes, B.Next, B.Runes, scribble over the last runes returned, new A}; every slice returned is compared again at the end",
		"thorough": "every sequence of 8 calls",
	}})
	register(&Check{ID: "C25", Run: c25, EnvEA: true, Bounds: map[string]string{
		"rule":     "cases: (table, items, separator); non-trivial: two or more columns or a title that does not fit",
		"quick":    "1 column x 1-3 items, 2 columns x 1-2 items, 3 columns x 1 item over 7 texts, x every combination of the three built-in alignments x 5 title choices x 3 separators; 4-40 columns; with and without a header, merge or width update in between",
		"thorough": "1 column x 1-4 items, 2 columns x 1-2 items over 9 texts, 3 columns x 1-2 items over 5 texts, all titles combined",
	}})
}

func c23(r *Run) {
	rs := map[[4]int]rune{}
	var few []rune
	for x := rune(0); x < ref.NCP; x++ {
		var k [4]int
		for c := range k {
			k[c] = ref.RuneWidth(ref.Cfg(c), x)
		}
		if _, ok := rs[k]; !ok {
			rs[k] = x
			few = append(few, x)
		}
	}
	edge := edges()
	texts := []string{"a│½", "☺️世", "👩\u200d🍳◊", "☎⚡\u0301"}
	ops := []string{"toggle package East Asian", "toggle package strict", "X := new", "Y := new", "toggle X East Asian", "toggle X strict", "build X", "toggle default East Asian", "build default", "build by the package function", "X := copy of default", "Y := copy of X"}
	type mc struct {
		c   *runewidth.Condition
		cfg ref.Cfg
		tab ref.Cfg // settings its table was built for, or -1
	}
	if r.Cfg == ref.Plain {
		askAgain(r)
		veryMany(r)
	}
	r.Phase("histories")
	def := runewidth.DefaultCondition
	history := func(w []int) {
		if !r.Want() {
			return
		}
		r.State()
		w = append([]int(nil), w...)
		r.Do(func() string {
			var s []string
			for _, o := range w {
				s = append(s, ops[o])
			}
			return strings.Join(s, ", ")
		}, func(c *C) {
			savedEA, savedStrict, saved := runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral, *def
			defer func() {
				runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = savedEA, savedStrict
				*def = saved
				runewidth.DefaultCondition = def
			}()
			var x, y *mc
			d := &mc{def, cfgOf(def), -1}
			pkg := cfgOf(def)
			nt, changed := false, false
			for i, o := range w {
				switch o {
				case 0:
					runewidth.EastAsianWidth = !runewidth.EastAsianWidth
					pkg ^= 1
					changed = true
					nt = nt || x != nil || y != nil
				case 1:
					runewidth.StrictEmojiNeutral = !runewidth.StrictEmojiNeutral
					pkg ^= 2
					changed = true
					nt = nt || x != nil || y != nil
				case 2:
					x = &mc{runewidth.NewCondition(), pkg, -1}
					nt = nt || changed
				case 3:
					y = &mc{runewidth.NewCondition(), pkg, -1}
					nt = nt || changed
				case 4, 5, 6:
					if x == nil {
						return // the same as a shorter history
					}
					nt = nt || y != nil
					switch o {
					case 4:
						x.c.EastAsianWidth = !x.c.EastAsianWidth
						x.cfg ^= 1
					case 5:
						x.c.StrictEmojiNeutral = !x.c.StrictEmojiNeutral
						x.cfg ^= 2
					case 6:
						x.c.CreateLUT()
						x.tab = x.cfg
					}
				case 7:
					d.c.EastAsianWidth = !d.c.EastAsianWidth
					d.cfg ^= 1
					nt = nt || x != nil || y != nil
				case 8:
					d.c.CreateLUT()
					d.tab = d.cfg
				case 9:
					runewidth.CreateLUT() // does nothing if there is a table
					if d.tab < 0 {
						d.tab = d.cfg
					}
				case 10:
					cp := *d.c
					x = &mc{&cp, d.cfg, d.tab}
				case 11:
					if x == nil {
						return
					}
					cp := *x.c
					y = &mc{&cp, x.cfg, x.tab}
				}
				c.Op(1)
				cps := few
				if i == len(w)-1 {
					cps = edge
				}
				for k, m := range []*mc{d, x, y} {
					if m == nil {
						continue
					}
					name := fmt.Sprintf("%s after %d steps", []string{"default", "X", "Y"}[k], i+1)
					if cfgOf(m.c) != m.cfg {
						c.Fail("%s has the settings %s, want %s", name, cfgName(cfgOf(m.c)), cfgName(m.cfg))
						return
					}
					if m.tab >= 0 && m.tab != m.cfg {
						continue
					}
					if compareAll(c, m.c, m.cfg, name, cps); c.Failed() {
						return
					}
					for _, s := range texts {
						c.Op(1)
						if g, want := m.c.StringWidth(s), ref.StringWidth(m.cfg, s); g != want {
							c.Fail("%s (%s): StringWidth(%s) = %d, want %d", name, cfgName(m.cfg), q(s), g, want)
							return
						}
						if k == 0 {
							if g, want := runewidth.StringWidth(s), ref.StringWidth(m.cfg, s); g != want {
								c.Fail("%s (%s): package-level StringWidth(%s) = %d, want %d", name, cfgName(m.cfg), q(s), g, want)
								return
							}
						}
					}
				}
				if runewidth.DefaultCondition != def {
					c.Fail("DefaultCondition was replaced after %d steps", i+1)
					return
				}
				if runewidth.EastAsianWidth != (pkg&1 == 1) || runewidth.StrictEmojiNeutral != (pkg&2 == 0) {
					c.Fail("the package settings changed by themselves after %d steps", i+1)
					return
				}
			}
			c.Nontrivial(nt)
			out := int(pkg)*4 + int(d.cfg)
			for _, m := range []*mc{x, y} {
				out *= 8
				if m != nil {
					out += 1 + int(m.cfg)
				}
			}
			c.OutcomeN(out)
		})
	}
	if r.Cfg == ref.Plain || r.Thorough() {
		wordsN(len(ops), r.Pick(4, 5), history)
	}
	r.Phase("histories without tables")
	noTab := []int{0, 1, 2, 3, 4, 5, 7}
	wordsN(len(noTab), r.Pick(5, 7), func(w []int) {
		h := make([]int, len(w))
		for i, k := range w {
			h[i] = noTab[k]
		}
		history(h)
	})
}

func c24(r *Run) {
	texts := []string{"", "a", "ab", "e\u0301a", "🇺🇸🇺", "👩\u200d🍳x", "\r\n\n", "\xff\xc3", "각\u0903"}
	ops := []string{"A.Next", "A.Runes", "B.Next", "B.Runes", "scribble", "A := new"}
	type it struct {
		g   *uniseg.Graphemes
		cl  []string
		pos int // -1: before the first
	}
	c24more(r)
	c24huge(r)
	veryMany(r)
	r.Phase("interleaved iterators")
	for _, ta := range texts {
		for _, tb := range texts {
			ca, cb := ref.Clusters(ta), ref.Clusters(tb)
			wordsN(len(ops), r.Pick(6, 8), func(w []int) {
				if !r.Want() {
					return
				}
				r.State()
				w = append([]int(nil), w...)
				r.Do(func() string {
					var s []string
					for _, o := range w {
						s = append(s, ops[o])
					}
					return fmt.Sprintf("A over %+q, B over %+q: %s", ta, tb, strings.Join(s, ", "))
				}, func(c *C) {
					its := [2]*it{{uniseg.NewGraphemes(ta), ca, -1}, {uniseg.NewGraphemes(tb), cb, -1}}
					type kept struct {
						got  []rune
						want string
					}
					var keep []kept
					nt := false
					for i, o := range w {
						c.Op(1)
						switch o {
						case 0, 2:
							x := its[o/2]
							x.pos++
							if x.pos > len(x.cl) {
								x.pos = len(x.cl)
							}
							if g := x.g.Next(); g != (x.pos < len(x.cl)) {
								c.Fail("call %d, %s = %v, want %v", i+1, ops[o], g, !g)
								return
							}
							nt = nt || x.pos == len(x.cl)
						case 1, 3:
							x := its[o/2]
							g := x.g.Runes()
							want := ""
							if x.pos >= 0 && x.pos < len(x.cl) {
								want = x.cl[x.pos]
							}
							if want == "" && g != nil {
								c.Fail("call %d, %s = %+q, want nil", i+1, ops[o], string(g))
								return
							}
							if !same(g, []rune(want)) {
								c.Fail("call %d, %s = %+q, want %+q", i+1, ops[o], string(g), want)
								return
							}
							nt = nt || len(g) > 1
							keep = append(keep, kept{g, string([]rune(want))})
						case 4:
							if n := len(keep); n > 0 {
								g := keep[n-1].got
								for k := range g {
									g[k] = 'Z'
								}
								keep[n-1].want = strings.Repeat("Z", len(g))
							}
						case 5:
							its[0] = &it{uniseg.NewGraphemes(ta), ca, -1}
						}
					}
					for _, k := range keep {
						if string(k.got) != k.want {
							c.Fail("runes returned earlier changed to %+q, they were %+q", string(k.got), k.want)
							return
						}
					}
					c.Nontrivial(nt)
					c.OutcomeN(len(keep)*100 + (its[0].pos+1)*10 + its[1].pos + 1)
				})
			})
		}
	}
}

func c25(r *Run) {
	matrix(r)
	cells := []string{"", "a", "世", "bb-bb", "\x1b[1mx\x1b[0m", "e\u0301", "│"}
	titles := []string{"", "N", "Name", "名前と番号", "\x1b[4mT\x1b[0m"}
	aligns := []int{ref.AlLeft, ref.AlRight, ref.AlCenter}
	seps := []string{" ", "|", " │ "}
	one := func(items [][]string, al, ti []int, sep string, between int) {
		if !r.Want() {
			return
		}
		r.State()
		nc := len(al)
		r.Do(func() string {
			return fmt.Sprintf("items %s, alignments %v, titles %v, separator %q, in between %d", q(fmt.Sprint(items)), al, ti, sep, between)
		}, func(c *C) {
			t := table.NewTable(nil)
			for j := 0; j < nc; j++ {
				t.AddColumn(&table.Column{Name: fmt.Sprint("c", j), Title: titles[ti[j]], ShortTitle: "s", Getter: cellGetter{j}, Alignment: alignment(aligns[al[j]])})
			}
			var rows list
			for i, it := range items {
				f, err := t.FormatItem(append([]string{}, it...))
				c.Op(1)
				if err != nil || len(f) != nc {
					c.Fail("FormatItem(%q) = %q, %v", it, f, err)
					return
				}
				rows = append(rows, append([]string{}, f...))
				if i == 0 {
					switch between {
					case 1:
						t.FormatHeader(sep)
					case 2:
						t.MergeRowsHorizontal(&strings.Builder{}, rows, 40, sep, true)
					case 3:
						t.UpdateWidth(map[string]uint16{"c0": 3})
					}
				}
			}
			w := make([]int, nc)
			for j := range w {
				if j == 0 && between == 3 {
					w[j] = 3
				}
				for _, it := range items {
					if v := ref.Visible(r.Cfg, it[j]); v > w[j] {
						w[j] = v
					}
				}
			}
			head := t.FormatHeader(sep)
			c.Op(1)
			c.Outcome(head)
			rest := head
			nt := nc > 1
			upto := nc
			for j := 0; j < nc; j++ {
				if w[j] == 0 {
					upto = j // a column of width zero shows its bare title
					break
				}
				// the header cell ends where the column's width is used up and the separator begins
				k := -1
				for p := 0; p+len(sep) <= len(rest); p++ {
					if rest[p:p+len(sep)] == sep && ref.Visible(r.Cfg, rest[:p]) == w[j] {
						k = p
						break
					}
				}
				if k < 0 {
					c.Fail("header %s: column %d is not %d cells followed by the separator", q(head), j+1, w[j])
					return
				}
				nt = nt || !strings.Contains(rest[:k], titles[ti[j]])
				rest = rest[k+len(sep):]
			}
			if upto == nc && rest != "\n" {
				c.Fail("header %s: %s is left after %d columns", q(head), q(rest), nc)
				return
			}
			for i := range rows {
				a, err := t.AlignFormattedItem(append([]string{}, rows[i]...))
				c.Op(1)
				if err != nil || len(a) != nc {
					c.Fail("AlignFormattedItem(%q) = %q, %v", rows[i], a, err)
					return
				}
				for j := range a {
					if v := ref.Visible(r.Cfg, a[j]); v != w[j] {
						c.Fail("row %d, column %d: %s is %d cells wide, the header's column has %d", i+1, j+1, q(a[j]), v, w[j])
						return
					}
					if !strings.Contains(a[j], items[i][j]) {
						c.Fail("row %d, column %d: %s does not hold %s", i+1, j+1, q(a[j]), q(items[i][j]))
						return
					}
				}
			}
			c.Nontrivial(nt)
		})
	}
	space := func(nc, ni, ncell, ntit int) {
		r.Phase(fmt.Sprintf("%d columns, %d items", nc, ni))
		wordsN(ncell, nc*ni, func(w []int) {
			items := make([][]string, ni)
			for i := range items {
				for j := 0; j < nc; j++ {
					items[i] = append(items[i], cells[w[i*nc+j]])
				}
			}
			wordsN(len(aligns), nc, func(al []int) {
				al = append([]int(nil), al...)
				wordsN(ntit, nc, func(ti []int) {
					for si, sep := range seps {
						one(items, al, append([]int(nil), ti...), sep, (si+ti[0]+al[0])%4)
					}
				})
			})
		})
	}
	if r.Thorough() {
		cells = append(cells, "\u009b1m世│\x1b[m", "👩\u200d🍳")
	}
	n := len(cells)
	space(1, 1, n, 5)
	space(1, 2, n, 5)
	space(1, 3, n, 5)
	space(2, 1, n, 5)
	space(2, 2, r.Pick(5, n), r.Pick(3, 4))
	space(3, 1, r.Pick(5, n), r.Pick(3, 5))
	if r.Thorough() {
		space(1, 4, n, 5)
		space(3, 2, 5, 2)
	}
	c25more(r)
	r.Phase("many columns")
	for nc := 4; nc <= 40; nc++ {
		for k := 0; k < 20; k++ {
			items := make([][]string, 3)
			al, ti := make([]int, nc), make([]int, nc)
			for j := 0; j < nc; j++ {
				al[j], ti[j] = (j+k)%3, (j*k+k)%5
				for i := range items {
					items[i] = append(items[i], strings.Repeat(cells[1+(i*j+k)%6], 1+(j+i*k)%3))
				}
			}
			for _, sep := range seps {
				one(items, al, ti, sep, k%4)
			}
		}
	}
}
