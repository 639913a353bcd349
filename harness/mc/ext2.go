package main

import (
	"fmt"
	"sort"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"

	"verifmc/ref"
)

// ---- C08 to C12: contents of cells, rows and separators ----

// texts that code may treat specially
var oddTexts = []string{
	"", " ", "  ", "x", " x", "x ", "%", "%d", "100%", "%!s(x)", "%%", "\\", "\\n", `"q"`, "'", "`", "<b>", "&amp;", "\t", "x\ty", "\r", "\x00", "x\x00y", "\x7f", "\x1b",
	"\xff", "\xff\xfe", "\ufffd", "\u00a0", "\u3000", "\u200b", "\u200d", "\ufeff", "\u2028", "e\u0301", "\u0301", "\u0903x", "世界", "│", "─", "👩\u200d🍳", "🇺", "🇺🇸", "ᄀ", "가", "שלום", "\u202ex",
	"\x1b[31mr\x1b[0m", "\x1b[31m", "\u009b1m", "nil", "<nil>", "...", "…", "-", "|", "0", "$1", "${x}", "{{.}}", "x,y", "a b", "x\\", "#",
}

var oddLines = []string{"\n", "x\n", "\nx", "x\ny", "\r\n", "\n\n"}

var oddSeps = []string{
	"", " ", "   ", "\t", "\t|\t", "|\t", "%", "%s", "%%", "%d ", "\\", "\x00", "\x1b[0m", "\x1b[7m \x1b[0m", "│", " │ ", "\u3000", "\u3000\u3000", "\u3000|\u3000", "あ|い", "｜｜", "e\u0301", "👩\u200d🍳", "\xff", "x", "xy", ". ", "──", "\u00a0", "\u200b", "\r", "&", "$1", "1", "  |  ", "===", "\u0301",
}

func asciiSep(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] > '~' {
			return false
		}
	}
	return true
}

func oddLay(r *Run, rows [][]string, sep string, max, mode, al int) *lay {
	l := &lay{odd: true, Layout: ref.Layout{Cells: rows, Sep: sep, Max: max, Compact: mode&1 == 1, Vertical: mode&2 == 2}}
	for i, row := range rows {
		l.W = append(l.W, nil)
		for j, s := range row {
			w := ref.Visible(r.Cfg, s)
			l.W[i] = append(l.W[i], w)
			if j == len(l.ColW) {
				l.ColW = append(l.ColW, 0)
				kinds := ref.NAl
				if r.Cfg != ref.Plain {
					kinds-- // the custom alignment does not know the setting
				}
				l.Al = append(l.Al, (al+j)%kinds)
			}
			if w > l.ColW[j] {
				l.ColW[j] = w
			}
		}
	}
	return l
}

func genContents(r *Run, emit func(l *lay)) {
	lines := current == "C08" || current == "C09" // judged without counting lines
	seps := oddSeps
	if current == "C11" {
		seps = nil
		for _, s := range oddSeps {
			if asciiSep(s) {
				seps = append(seps, s)
			}
		}
	}
	texts := oddTexts
	if lines {
		texts = append(append([]string{}, oddTexts...), oddLines...)
	}
	maxes := func(rows [][]string, sep string) []int {
		one := 0
		for _, row := range rows {
			w := len(row) - 1
			for _, s := range row {
				w += ref.Visible(r.Cfg, s)
			}
			if w > one {
				one = w
			}
		}
		return []int{0, 2*one + len(sep), 3*one + 2*len(sep) + 1}
	}
	r.Phase("odd texts in cells")
	for ai, a := range texts {
		for bi, b := range texts {
			for nc := 1; nc <= 2; nc++ {
				rows := [][]string{{a}, {b}, {"k"}, {b}, {a}}
				if nc == 2 {
					rows = [][]string{{a, b}, {b, a}, {a, a}, {"k", b}, {b, "k"}, {a, b}, {a, b}}
				}
				sep := seps[(ai*7+bi*3)%len(seps)]
				for mi, max := range maxes(rows, sep) {
					for m := 0; m < 4; m++ {
						if r.Want() {
							emit(oddLay(r, rows, sep, max, m, ai+bi+mi))
						}
					}
				}
			}
		}
	}
	r.Phase("odd separators")
	for si, sep := range seps {
		for ai, a := range texts {
			for n := 1; n <= 5; n++ {
				var rows [][]string
				for i := 0; i < n; i++ {
					rows = append(rows, []string{[]string{a, "kk", "z"}[i%3], []string{"y", a}[i%2]})
				}
				for _, max := range maxes(rows, sep) {
					for m := 0; m < 4; m++ {
						if r.Want() {
							emit(oddLay(r, rows, sep, max, m, ai+si+n))
						}
					}
				}
			}
		}
	}
	r.Phase("equal rows")
	vals := []string{"k", "", "世"}
	for nc := 1; nc <= 2; nc++ {
		for n := 0; n <= []int{0, 7, 4}[nc]; n++ {
			wordsN([]int{0, 3, 4}[nc], n, func(w []int) {
				rows := make([][]string, n)
				for i, k := range w {
					if nc == 1 {
						rows[i] = []string{vals[k]}
					} else {
						rows[i] = []string{vals[k&1], vals[k>>1]}
					}
				}
				for _, sep := range []string{" ", "|"} {
					for max := 0; max <= 14; max += 2 {
						for m := 0; m < 4; m++ {
							if r.Want() {
								emit(oddLay(r, rows, sep, max, m, n))
							}
						}
					}
				}
			})
		}
	}
}

// genManyGroups: layouts of hundreds and thousands of groups.
func genManyGroups(r *Run, emit func(l *lay)) {
	r.Phase("many groups")
	for _, g := range []int{100, 127, 129, 200, 255, 256, 257, 300, 400, 512, 513, 1025, 2100} {
		for nc := 1; nc <= 2; nc++ {
			for _, extra := range []int{0, 1, g / 2, g, g + 3} {
				for m := 0; m < 4; m++ {
					for d := 0; d < 2; d++ {
						if !r.Want() {
							continue
						}
						n := g + extra
						l := &lay{big: true, Layout: ref.Layout{Sep: []string{"", " "}[d], Compact: m&1 == 1, Vertical: m&2 == 2}}
						l.ColW = make([]int, nc)
						for i := 0; i < n; i++ {
							var a []int
							var b []string
							for j := 0; j < nc; j++ {
								x := 4 + (i*i+i*7+j*3)%5
								a, b = append(a, x), append(b, bigText(i, j, x))
								if x > l.ColW[j] {
									l.ColW[j] = x
								}
							}
							l.W, l.Cells = append(l.W, a), append(l.Cells, b)
						}
						for j := range l.ColW {
							l.Al = append(l.Al, (j+g+extra)%ref.NAl)
						}
						l.Max = l.ContentWidth(g)
						if !l.Compact {
							l.Max = g*(l.RowWidth()+len(l.Sep)) - len(l.Sep)
						}
						l.Max -= (extra + m) & 1
						emit(l)
					}
				}
			}
		}
	}
	r.Phase("one very wide item")
	for _, n := range []int{2, 5, 8, 12} {
		for p := 0; p < n; p++ {
			for _, wide := range []int{100, 127, 128, 200, 255, 256, 257, 300, 511, 700, 1025, 4097, 32768, 50000} {
				for nc := 1; nc <= 2; nc++ {
					for g := 2; g <= n; g++ {
						for m := 0; m < 4; m++ {
							if wide > 5000 && (nc > 1 || n == 8) || m&1 == 0 && g != 2 || !r.Want() {
								continue
							}
							l := &lay{big: true, Layout: ref.Layout{Sep: []string{"", " ", "--"}[(n+p+g)%3], Compact: m&1 == 1, Vertical: m&2 == 2}}
							l.ColW = make([]int, nc)
							for i := 0; i < n; i++ {
								var a []int
								var b []string
								for j := 0; j < nc; j++ {
									x := 4 + (i+j)%2
									if i == p && j == nc-1 {
										x = wide
									}
									a, b = append(a, x), append(b, bigText(i, j, x))
									if x > l.ColW[j] {
										l.ColW[j] = x
									}
								}
								l.W, l.Cells = append(l.W, a), append(l.Cells, b)
							}
							for j := range l.ColW {
								l.Al = append(l.Al, (j+g+n+p)%ref.NAl)
							}
							l.Max = l.ContentWidth(g) - p&1
							emit(l)
						}
					}
				}
			}
		}
	}
	r.Phase("thousands of groups")
	for _, n := range []int{8193, 16385, 20000, 40000} {
		for _, w := range []int{1, 4} {
			for _, sep := range []string{"", " "} {
				for _, max := range []int{30000, 65535, 1 << 20} {
					for m := 0; m < 4; m++ {
						if w == 1 && current != "C11" && current != "C09" || current == "C12" || !r.Want() {
							continue
						}
						l := &lay{big: true, Layout: ref.Layout{ColW: []int{w}, Al: []int{m % ref.NAl}, Sep: sep, Max: max, Compact: m&1 == 1, Vertical: m&2 == 2}}
						for i := 0; i < n; i++ {
							l.W = append(l.W, []int{w})
							if w == 1 {
								l.Cells = append(l.Cells, []string{ids[i%60 : i%60+1]})
							} else {
								l.Cells = append(l.Cells, []string{bigText(i, 0, w)})
							}
						}
						emit(l)
					}
				}
			}
		}
	}
}

// renderRaw is the output as it is.
func (l *lay) renderRaw(c *C) string {
	t, items := l.build(c)
	out := mergeStr(t, items, l.Vertical, l.Max, l.Sep, l.Compact)
	c.Op(1 + len(items))
	return out
}

// reads says whether out holds the items in the reading order of g groups, with nothing
// but blanks, padding and separators in between. Cells may hold anything, so all ways of
// reading are followed.
func (l *lay) reads(out string, g int) bool {
	at := map[int]bool{0: true}
	gap := func() {
		var todo []int
		for p := range at {
			todo = append(todo, p)
		}
		for len(todo) > 0 {
			p := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for _, s := range []string{" ", ".", l.Sep} {
				if s != "" && strings.HasPrefix(out[p:], s) && !at[p+len(s)] {
					at[p+len(s)] = true
					todo = append(todo, p+len(s))
				}
			}
		}
	}
	lit := func(s string) {
		next := map[int]bool{}
		for p := range at {
			if strings.HasPrefix(out[p:], s) {
				next[p+len(s)] = true
			}
		}
		at = next
	}
	for i := 0; i < l.Lines(g); i++ {
		for k := 0; k < g; k++ {
			it := l.Item(g, i, k)
			if it < 0 {
				break
			}
			for _, s := range l.Cells[it] {
				gap()
				if s != "" {
					lit(s)
				}
			}
		}
		gap()
		lit("\n")
		if len(at) == 0 {
			return false
		}
	}
	return at[len(out)]
}

func judge08odd(r *Run, l *lay, c *C) {
	out := l.renderRaw(c)
	if c.Failed() {
		return
	}
	if l.N() == 0 {
		if out != "" {
			c.Fail("an empty list wrote %s", q(out))
		}
		return
	}
	for g := 1; g <= l.N(); g++ {
		if l.reads(out, g) {
			c.OutcomeN(g*1000 + l.Lines(g))
			c.Nontrivial(g > 1)
			return
		}
	}
	c.Fail("no number of groups explains %s", q(out))
}

func judge09odd(r *Run, l *lay, c *C) {
	out := l.renderRaw(c)
	if c.Failed() || l.N() == 0 {
		return
	}
	exact := l.exactGroups()
	for _, g := range l.candidates(l.N() + 1) {
		if exact > 0 && l.Lines(exact) == l.Lines(g) && g != min(exact, l.N()+1) {
			continue
		}
		for _, per := range []bool{false, true} {
			if (!per || l.Compact) && l.Render(g, per) == out {
				c.Nontrivial(g > 1)
				c.OutcomeN(g*1000 + len(out))
				return
			}
		}
	}
	c.Fail("output is no grid of padded cells: %s; for example %d groups should give %s", q(out), l.PlainGroups(), q(l.Render(min(l.PlainGroups(), l.N()+1), false)))
}

// ---- C03: more texts that look alike, wide texts again ----

func c03more(r *Run, fresh func() string) {
	r.Phase("wide texts measured again")
	for _, n := range roundLengths(64, 70001) {
		for _, u := range []string{"x", "世", "x\x1b[0m"} {
			if n*len(u) > 150000 || !r.Want() {
				continue
			}
			r.State()
			tag := fresh()
			r.Do(func() string { return fmt.Sprintf("%s and %d times %s, measured 4 times", tag, n, q(u)) }, func(c *C) {
				c.Nontrivial(true)
				s := tag + strings.Repeat(u, n)
				w := min(ref.Visible(r.Cfg, s), 65535)
				for i := 0; i < 4; i++ {
					c.expect(i, i%3, s, w)
				}
				for i, t := range []string{s + " ", s, s[:len(s)-1], s + "\t", s + "世", s} {
					c.expect(4+i, i%3, t, min(ref.Visible(r.Cfg, t), 65535))
				}
				c.OutcomeN(w)
			})
		}
	}
	r.Phase("odd texts")
	for ai, a := range oddTexts {
		for bi, b := range oddTexts {
			for k := 0; k < 3; k++ {
				if !r.Want() {
					continue
				}
				r.State()
				tag := fresh()
				x, y := tag+a, tag+b
				switch k {
				case 1:
					x, y = a+tag, b+tag
				case 2:
					x, y = tag+a+b, tag+b+a
				}
				r.Do(func() string { return fmt.Sprintf("%s then %s then both again", q(x), q(y)) }, func(c *C) {
					c.Nontrivial(true)
					wx, wy := ref.Visible(r.Cfg, x), ref.Visible(r.Cfg, y)
					c.expect(0, (ai+bi)%3, x, wx)
					c.expect(1, bi%3, y, wy)
					c.expect(2, ai%3, x, wx)
					c.expect(3, 0, y, wy)
					c.OutcomeN(wx*100 + wy)
				})
			}
		}
	}
}

// ---- C16, C18, C23: the same question again after a change ----

func askAgain(r *Run) {
	edge := edges()
	r.Phase("the same code point before and after a change")
	for from := ref.Cfg(0); from < 4; from++ {
		for to := ref.Cfg(0); to < 4; to++ {
			for kind := 0; kind < 4; kind++ {
				if !r.Want() {
					continue
				}
				r.State()
				r.Do(func() string {
					return fmt.Sprintf("%s, then %s, %s", cfgName(from), cfgName(to), []string{"one condition changed", "two conditions in turn", "another code point in between", "a new condition each time"}[kind])
				}, func(c *C) {
					c.Nontrivial(from != to)
					set := func(co *runewidth.Condition, cfg ref.Cfg) {
						co.EastAsianWidth, co.StrictEmojiNeutral = cfg&1 == 1, cfg&2 == 0
					}
					a, b := cond(from), cond(to)
					for i, x := range edge {
						seq := []struct {
							co  *runewidth.Condition
							cfg ref.Cfg
							r   rune
						}{{a, from, x}, {a, to, x}, {a, to, x}, {a, from, x}}
						switch kind {
						case 1:
							seq[1].co, seq[2].co = b, b
						case 2:
							seq[1].r = edge[(i*31+7)%len(edge)]
							seq[2].cfg = from
						case 3:
							for k := range seq {
								seq[k].co = cond(from)
							}
						}
						for k, s := range seq {
							if kind != 1 {
								set(s.co, s.cfg)
							}
							c.Op(1)
							if g, w := s.co.RuneWidth(s.r), ref.RuneWidth(s.cfg, s.r); g != w {
								c.Fail("question %d: RuneWidth(U+%04X) = %d, want %d (%s)", k+1, s.r, g, w, cfgName(s.cfg))
								return
							}
						}
						str := string(x)
						for k, s := range seq {
							if kind != 1 {
								set(s.co, s.cfg)
							}
							c.Op(1)
							if g, w := s.co.StringWidth(str), ref.StringWidth(s.cfg, str); g != w {
								c.Fail("question %d: StringWidth(%+q) = %d, want %d (%s)", k+1, str, g, w, cfgName(s.cfg))
								return
							}
						}
					}
				})
			}
		}
	}
	r.Phase("the same code point before and after building tables")
	few := map[[4]int]rune{}
	for x := rune(0); x < ref.NCP; x++ {
		var k [4]int
		for c := range k {
			k[c] = ref.RuneWidth(ref.Cfg(c), x)
		}
		if _, ok := few[k]; !ok || x == '世' {
			few[k] = x
		}
	}
	var fl []rune
	for _, x := range few {
		fl = append(fl, x)
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i] < fl[j] })
	for from := ref.Cfg(0); from < 4; from++ {
		for to := ref.Cfg(0); to < 4; to++ {
			for _, x := range fl {
				if !r.Want() {
					continue
				}
				r.State()
				r.Do(func() string {
					return fmt.Sprintf("U+%04X: %s, build, %s, build, asked each time", x, cfgName(from), cfgName(to))
				}, func(c *C) {
					c.Nontrivial(from != to)
					a := cond(from)
					see := func(cfg ref.Cfg, what string) {
						c.Op(2)
						if g, w := a.RuneWidth(x), ref.RuneWidth(cfg, x); g != w {
							c.Fail("%s: RuneWidth(U+%04X) = %d, want %d", what, x, g, w)
						}
						if g, w := a.StringWidth(string(x)), ref.StringWidth(cfg, string(x)); g != w {
							c.Fail("%s: StringWidth(%+q) = %d, want %d", what, string(x), g, w)
						}
					}
					see(from, "before")
					a.CreateLUT()
					see(from, "with a table")
					a.EastAsianWidth, a.StrictEmojiNeutral = to&1 == 1, to&2 == 0
					a.CreateLUT()
					see(to, "with the table built again")
					a.CreateLUT()
					see(to, "with the table built a third time")
				})
			}
		}
	}
}

// ---- C01, C17, C18, C20: every byte and every kind of code point in long texts ----

func longKinds(r *Run, one func(s string)) {
	r.Phase("every small code point in long texts")
	for cp := rune(0); cp < 0x180; cp++ {
		for _, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097} {
			for _, at := range []int{0, n / 2, n} {
				if n > 300 && at != n/2 || !r.Want() {
					continue
				}
				one(strings.Repeat("a", at) + string(cp) + strings.Repeat("b", n-at))
			}
		}
	}
	r.Phase("runs of every kind of code point")
	for _, x := range reps(false) {
		for _, n := range roundLengths(20, 1025) {
			for _, f := range []string{"", "a"} {
				if r.Want() {
					one(f + strings.Repeat(string(x), n))
				}
			}
		}
	}
}

// endedClusters: long clusters whose last members decide.
func endedClusters(f func(s string)) {
	bases := []string{"", "a", "世", "☺", "👩", "ᄀ", "🇺", "\u0600", "\n", "\u2e3b"}
	for _, n := range []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1000} {
		for _, b := range bases {
			for _, u := range []string{"\u0301", "\u200d", "\u0308\u200d", "\u0600", "ᄀ", "🏻"} {
				x := b + strings.Repeat(u, n)
				for _, e := range []string{"\u0903", "\ufe0f", "\ufe0e", "👩", "\u200d👩", "ᅡ", "世", "\u0903\ufe0f", "\ufe0f\u0903", "\ufe0e\u0301"} {
					f(x + e)
				}
			}
		}
	}
}

// ---- C25: more cells, titles and separators ----

func c25more(r *Run) {
	r.Phase("odd texts in cells and titles")
	plain := func(s string) bool { return !strings.ContainsAny(s, "\n") }
	for ai, a := range oddTexts {
		for bi, b := range oddTexts {
			for k := 0; k < 3; k++ {
				if !r.Want() || !plain(a) || !plain(b) {
					continue
				}
				r.State()
				al := (ai + bi + k) % 3
				r.Do(func() string { return fmt.Sprintf("cell %s, title %s, alignment %d, shape %d", q(a), q(b), al, k) }, func(c *C) {
					t := table.NewTable(nil)
					t.AddColumn(&table.Column{Name: "n", Title: b, ShortTitle: "s", Getter: cellGetter{0}, Alignment: alignment(1 + al)})
					t.AddColumn(&table.Column{Name: "m", Title: "M", Getter: cellGetter{1}, Alignment: alignment(1 + (al+1)%3)})
					rows := [][]string{{a, "mm"}, {b + a, "m"}}
					if k == 1 {
						rows = [][]string{{a, "m"}}
					} else if k == 2 {
						rows = [][]string{{"w" + b, "m"}, {a, "\x1b[1mm\x1b[0m"}}
					}
					w := []int{0, 0}
					var fs [][]string
					for _, row := range rows {
						f, err := t.FormatItem(row)
						if err != nil || len(f) != 2 {
							c.Fail("FormatItem(%q) = %q, %v", row, f, err)
							return
						}
						fs = append(fs, append([]string{}, f...))
						for j, s := range row {
							if v := ref.Visible(r.Cfg, s); v > w[j] {
								w[j] = v
							}
						}
					}
					for i, f := range fs {
						x, err := t.AlignFormattedItem(append([]string{}, f...))
						c.Op(2)
						if err != nil || len(x) != 2 {
							c.Fail("AlignFormattedItem(%q) = %q, %v", f, x, err)
							return
						}
						for j := range x {
							// the text with blanks on both sides, as many as are missing
							n := len(x[j]) - len(rows[i][j])
							if !strings.Contains(x[j], rows[i][j]) || n != w[j]-ref.Visible(r.Cfg, rows[i][j]) || strings.Trim(strings.Replace(x[j], rows[i][j], "", 1), " ") != "" {
								c.Fail("row %d, column %d: %s does not fill %d cells with %s", i+1, j+1, q(x[j]), w[j], q(rows[i][j]))
								return
							}
						}
					}
					h := t.FormatHeader("|")
					title := b
					if w[0] > 0 && ref.Visible(r.Cfg, b) > w[0] {
						title = "s"
					}
					want := title
					if w[0] > 0 {
						want = ref.Pad(ref.AlCenter, title, ref.Visible(r.Cfg, title), w[0])
					}
					want += "|" + ref.Pad(ref.AlCenter, "M", 1, w[1]) + "|\n"
					c.Nontrivial(w[0] > 0)
					c.Outcome(h)
					if h != want {
						c.Fail("header %s, want %s", q(h), q(want))
					}
				})
			}
		}
	}
}
