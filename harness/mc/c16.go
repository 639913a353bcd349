package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/ilius/go-table/runewidth"

	"verifmc/ref"
)

func init() {
	register(&Check{ID: "C16", Run: c16, Bounds: map[string]string{
		"rule":     "cases: (setting, lookup table or not, 256 code points), (setting, value outside the code points), histories; non-trivial: the block has a code point that is not of width 1, or the history builds a table after a change",
		"quick":    "every code point 0..10FFFF x 4 settings x {no table, table, rebuilt table}; 40,000 values outside; every history of length 4 over {toggle East Asian, toggle strict, build table of A, build table of B, new condition} with all range-boundary code points compared after each step and every code point at the end if the last step was on A; every history of length 3 on the default condition incl. the package-level build",
		"thorough": "as quick with histories of length 6, and 1,000,000 values outside",
	}, Assume: []string{
		"width data: /verif/harness/ref/golden/runewidth13.txt, cross-checked against perl's Unicode database (DESIGN.md)",
		"after a setting change a condition that has a table is unspecified until it is rebuilt (documented in CreateLUT)"}})
	register(&Check{ID: "C18", Run: c18, EnvEA: true, Bounds: map[string]string{
		"rule":     "cases: strings, each under 4 settings x table or not, and through the package-level function; non-trivial: some cluster has more than one code point or a width other than 1",
		"quick":    "one representative for each (grapheme class, 4 widths) combination, strings to length 3; 15 chosen members to length 5; every code point in 4 contexts; byte strings over 12 bytes to length 4; clusters of up to 1000 code points; 10 parts at every position to 200; long runs",
		"thorough": "representatives (first, last of each combination) to length 3, first to length 4; 15 members to length 6; every code point in 12 contexts; bytes to length 6; clusters of up to 1000 code points; 10 parts at every position to 1500",
	}})
}

func cond(cfg ref.Cfg) *runewidth.Condition {
	return &runewidth.Condition{EastAsianWidth: cfg&1 == 1, StrictEmojiNeutral: cfg&2 == 0}
}

func cfgOf(c *runewidth.Condition) ref.Cfg {
	var x ref.Cfg
	if c.EastAsianWidth {
		x |= 1
	}
	if !c.StrictEmojiNeutral {
		x |= 2
	}
	return x
}

func cfgName(c ref.Cfg) string {
	return [...]string{"narrow, strict emoji", "East Asian, strict emoji", "narrow, loose emoji", "East Asian, loose emoji"}[c]
}

// edges are the code points next to a change of width in any setting.
func edges() []rune {
	var out []rune
	same := func(a, b rune) bool {
		for c := ref.Cfg(0); c < 4; c++ {
			if ref.RuneWidth(c, a) != ref.RuneWidth(c, b) {
				return false
			}
		}
		return true
	}
	out = append(out, 0)
	for r := rune(1); r < ref.NCP; r++ {
		if !same(r-1, r) {
			if out[len(out)-1] != r-1 {
				out = append(out, r-1)
			}
			out = append(out, r)
		}
	}
	return append(out, ref.NCP-1)
}

func compareAll(c *C, co *runewidth.Condition, cfg ref.Cfg, what string, cps []rune) {
	if cps == nil {
		for r := rune(0); r < ref.NCP; r++ {
			if g, w := co.RuneWidth(r), ref.RuneWidth(cfg, r); g != w {
				c.Fail("%s (%s): RuneWidth(U+%04X) = %d, want %d", what, cfgName(cfg), r, g, w)
				return
			}
		}
		c.Op(ref.NCP)
	}
	for _, r := range cps {
		if g, w := co.RuneWidth(r), ref.RuneWidth(cfg, r); g != w {
			c.Fail("%s (%s): RuneWidth(U+%04X) = %d, want %d", what, cfgName(cfg), r, g, w)
			return
		}
	}
	for _, r := range outside {
		if g := co.RuneWidth(r); g != 0 {
			c.Fail("%s (%s): RuneWidth(%d), no code point, = %d, want 0", what, cfgName(cfg), r, g)
			return
		}
	}
	c.Op(len(cps) + len(outside))
}

var outside = []rune{-1, -2, -0x10ffff, -0x110000, math.MinInt32, math.MinInt32 + 1, 0x110000, 0x110001, 0x1fffff, 0x200041, 0x7fffffff, 1 << 24, 1<<24 + 0x4e00}

func c16(r *Run) {
	for cfg := ref.Cfg(0); cfg < 4; cfg++ {
		for mode := 0; mode < 3; mode++ {
			r.Phase("code points, " + []string{"no table", "table", "rebuilt table"}[mode])
			var co *runewidth.Condition
			get := func() *runewidth.Condition {
				if co == nil {
					co = cond(cfg)
					if mode == 1 {
						co.CreateLUT()
					}
					if mode == 2 {
						co = cond(3 - cfg)
						co.CreateLUT()
						co.EastAsianWidth, co.StrictEmojiNeutral = cfg&1 == 1, cfg&2 == 0
						co.CreateLUT()
					}
				}
				return co
			}
			for b := rune(0); b < ref.NCP; b += 256 {
				if !r.Want() {
					continue
				}
				r.State()
				r.Do(func() string { return fmt.Sprintf("U+%04X..U+%04X, %s", b, b+255, cfgName(cfg)) }, func(c *C) {
					co := get()
					h, nt := 0, false
					for x := b; x < b+256; x++ {
						g, w := co.RuneWidth(x), ref.RuneWidth(cfg, x)
						if g != w {
							c.Fail("RuneWidth(U+%04X) = %d, want %d", x, g, w)
							return
						}
						h = h*3 + g
						nt = nt || g != 1
					}
					c.Op(256)
					c.Nontrivial(nt)
					c.OutcomeN(h)
				})
			}
			r.Phase("values outside, " + []string{"no table", "table", "rebuilt table"}[mode])
			n := r.Pick(40000, 1000000)
			step := int64(math.MaxUint32) / int64(n)
			for i := 0; i < n; i += 500 {
				if !r.Want() {
					continue
				}
				r.State()
				r.Do(func() string { return fmt.Sprintf("values outside, block %d, %s", i, cfgName(cfg)) }, func(c *C) {
					co := get()
					c.Nontrivial(true)
					for k := i; k < i+500; k++ {
						for _, x := range []rune{rune(int32(uint32(int64(k) * step))), 0x110000 + rune(k), rune(-1 - k), math.MaxInt32 - rune(k), math.MinInt32 + rune(k)} {
							if x >= 0 && x < ref.NCP {
								continue
							}
							if g := co.RuneWidth(x); g != 0 {
								c.Fail("RuneWidth(%d) = %d, want 0", x, g)
								return
							}
							c.Op(1)
						}
					}
				})
			}
		}
	}

	askAgain(r)

	edge := edges()
	// A is mutated, B has its own settings and table, D is a condition created on the way.
	r.Phase("histories of conditions")
	ops := []string{"A: toggle East Asian", "A: toggle strict", "A: build", "B: build", "D := new condition"}
	for start := ref.Cfg(0); start < 4; start++ {
		wordsN(len(ops), r.Pick(4, 6), func(w []int) {
			if !r.Want() {
				return
			}
			r.State()
			w = append([]int(nil), w...)
			r.Do(func() string {
				var s []string
				for _, o := range w {
					s = append(s, ops[o])
				}
				return fmt.Sprintf("A starts %s, B opposite: %s", cfgName(start), strings.Join(s, ", "))
			}, func(c *C) {
				a, b := cond(start), cond(3-start)
				var d *runewidth.Condition
				tab := ref.Cfg(-1) // settings A's table was built for
				cfg := start
				rebuilt := false
				for i, o := range w {
					switch o {
					case 0:
						a.EastAsianWidth = !a.EastAsianWidth
						cfg ^= 1
					case 1:
						a.StrictEmojiNeutral = !a.StrictEmojiNeutral
						cfg ^= 2
					case 2:
						rebuilt = rebuilt || (tab >= 0 && tab != cfg)
						a.CreateLUT()
						tab = cfg
					case 3:
						b.CreateLUT()
					case 4:
						d = runewidth.NewCondition()
						if i == 0 {
							d.CreateLUT()
						}
					}
					c.Op(1)
					if tab < 0 || tab == cfg {
						compareAll(c, a, cfg, fmt.Sprintf("A after %d steps", i+1), edge)
					}
					compareAll(c, b, 3-start, fmt.Sprintf("B after %d steps", i+1), edge)
					if d != nil {
						compareAll(c, d, ref.Plain, fmt.Sprintf("D after %d steps", i+1), edge)
					}
					if a.EastAsianWidth != (cfg&1 == 1) || a.StrictEmojiNeutral != (cfg&2 == 0) || cfgOf(b) != 3-start {
						c.Fail("settings changed by themselves after %d steps", i+1)
					}
					if c.Failed() {
						return
					}
				}
				c.Nontrivial(rebuilt)
				if (tab < 0 || tab == cfg) && w[len(w)-1] < 3 {
					compareAll(c, a, cfg, "A at the end", nil)
				}
				c.OutcomeN(int(cfg)*8 + int(tab) + 1)
			})
		})
	}

	r.Phase("histories of the default condition")
	pops := []string{"toggle East Asian", "toggle strict", "package CreateLUT", "DefaultCondition.CreateLUT", "other condition: build"}
	orig := *runewidth.DefaultCondition
	origp := runewidth.DefaultCondition
	wordsN(len(pops), r.Pick(3, 6), func(w []int) {
		if !r.Want() {
			return
		}
		r.State()
		w = append([]int(nil), w...)
		r.Do(func() string {
			var s []string
			for _, o := range w {
				s = append(s, pops[o])
			}
			return strings.Join(s, ", ")
		}, func(c *C) {
			fresh := orig
			*origp = fresh
			defer func() { *origp = orig }()
			a := runewidth.DefaultCondition
			cfg := cfgOf(a)
			tab := ref.Cfg(-1)
			for i, o := range w {
				switch o {
				case 0:
					a.EastAsianWidth = !a.EastAsianWidth
					cfg ^= 1
				case 1:
					a.StrictEmojiNeutral = !a.StrictEmojiNeutral
					cfg ^= 2
				case 2:
					runewidth.CreateLUT()
					if tab < 0 {
						tab = cfg
					}
				case 3:
					a.CreateLUT()
					tab = cfg
				case 4:
					x := cond(cfg ^ 1)
					x.CreateLUT()
				}
				c.Op(1)
				if tab < 0 || tab == cfg {
					compareAll(c, a, cfg, fmt.Sprintf("default condition after %d steps", i+1), edge)
				}
				if c.Failed() {
					return
				}
			}
			c.Nontrivial(tab >= 0)
			c.OutcomeN(100 + int(cfg)*8 + int(tab) + 1)
		})
	})
}

// reps are representatives of every (class, widths in the 4 settings, wide, emoji
// presentation) combination.
func reps(last bool) []rune {
	type key struct {
		cl, w int
		a, b  bool
	}
	first := map[key]rune{}
	lastOf := map[key]rune{}
	var order []key
	for r := rune(0); r < ref.NCP; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		k := key{cl: ref.Class(r), a: ref.Wide(r), b: ref.EPres(r)}
		for c := ref.Cfg(0); c < 4; c++ {
			k.w = k.w*3 + ref.RuneWidth(c, r)
		}
		if _, ok := first[k]; !ok {
			first[k] = r
			order = append(order, k)
		}
		lastOf[k] = r
	}
	var out []rune
	for _, k := range order {
		out = append(out, first[k])
		if last && lastOf[k] != first[k] {
			out = append(out, lastOf[k])
		}
	}
	return out
}

// classReps has members of every class that often stand next to each other.
var classReps = []string{"a", "\r", "\n", "\u200b", "\u0301", "\u200d", "🇺", "\u0600", "\u0903", "ᄀ", "ᅡ", "ᆨ", "가", "각", "👩"}

var oddBytes = []string{"a", "\x80", "\xbf", "\xc3", "\xcc", "\x81", "\xe2", "\x9f", "\xf0", "\xed", "\xa0", "\xff"}

func c18(r *Run) {
	var conds [8]*runewidth.Condition
	for i := range conds {
		conds[i] = cond(ref.Cfg(i & 3))
		if i >= 4 {
			conds[i].CreateLUT()
		}
	}
	def := runewidth.DefaultCondition
	one := func(s string) {
		r.State()
		r.Do(func() string { return "width of " + q(s) }, func(c *C) {
			out := 0
			var want [4]int
			for cfg := ref.Cfg(0); cfg < 4; cfg++ {
				want[cfg] = ref.StringWidth(cfg, s)
				out = out*64 + want[cfg]
			}
			for i, co := range conds {
				if g := co.StringWidth(s); g != want[i&3] {
					c.Fail("StringWidth = %d, want %d (%s, table %v)", g, want[i&3], cfgName(ref.Cfg(i&3)), i >= 4)
					return
				}
			}
			if g := runewidth.StringWidth(s); g != want[r.Cfg] {
				c.Fail("package-level StringWidth = %d, the default condition has %d", g, want[r.Cfg])
				return
			}
			c.Op(9)
			c.OutcomeN(out)
			c.Nontrivial(want[0] != len(s))
		})
	}
	rs := reps(false)
	r.Phase("class and width representatives")
	words(len(rs), r.Pick(3, 4), func(w []int) {
		if !r.Want() {
			return
		}
		x := make([]rune, len(w))
		for i, k := range w {
			x[i] = rs[k]
		}
		one(string(x))
	})
	if r.Thorough() {
		r2 := reps(true)
		words(len(r2), 3, func(w []int) {
			if !r.Want() {
				return
			}
			x := make([]rune, len(w))
			for i, k := range w {
				x[i] = r2[k]
			}
			one(string(x))
		})
	}
	r.Phase("class strings")
	words(len(classReps), r.Pick(5, 6), func(w []int) {
		if r.Want() {
			one(cat(classReps, w))
		}
	})
	r.Phase("every code point")
	ctx := []string{"%s", "a%sb", "👩\u200d%s", "%s\u0301\u200d👩"}
	for _, k := range classReps {
		ctx = append(ctx, k+"%s", "%s"+k)
	}
	if r.Thorough() {
		ctx = append(ctx, "\u0301%s", "\u0600%s", "🇺%s", "%s🇸", "ᄀ%s", "%sᆨ", "世%s世", "%s\ufe0f")
	}
	for cp := rune(0); cp < ref.NCP; cp++ {
		if cp >= 0xd800 && cp < 0xe000 {
			continue
		}
		for _, f := range ctx {
			if r.Want() {
				one(strings.Replace(f, "%s", string(cp), 1))
			}
		}
	}
	r.Phase("byte strings")
	words(len(oddBytes), r.Pick(4, 6), func(w []int) {
		if r.Want() {
			one(cat(oddBytes, w))
		}
	})
	r.Phase("long clusters and parts at every position")
	any := func(s string) {
		if r.Want() {
			one(s)
		}
	}
	longClusters(any)
	endedClusters(any)
	placed(specials, r.Pick(200, 1500), any)
	r.Phase("long runs")
	for n := 0; n <= r.Pick(300, 2000); n++ {
		for _, u := range []string{"a", "世", "🇺", "e\u0301", "👩\u200d", "ᄀ", "│", "\xff", "\u200b"} {
			if r.Want() {
				one(strings.Repeat(u, n))
			}
		}
	}
	for _, n := range []int{65535, 65536, 70000} {
		for _, u := range []string{"a", "世"} {
			if r.Want() {
				one(strings.Repeat(u, n))
			}
		}
	}

	longKinds(r, one)
	textMatrix(r, one)
	specialPoints(r, one)
	hugeTexts(r, one)
	askAgain(r)

	r.Phase("package function follows the default condition")
	texts := []string{"", "a", "│", "世", "☺", "👩\u200d🍳", "é│☺世", "\u0301", "½◊"}
	wordsN(5, r.Pick(4, 6), func(w []int) {
		if !r.Want() {
			return
		}
		r.State()
		w = append([]int(nil), w...)
		r.Do(func() string { return fmt.Sprintf("default condition history %v", w) }, func(c *C) {
			saved := *def
			defer func() { *def = saved; runewidth.DefaultCondition = def }()
			lut := false
			for i, o := range w {
				d := runewidth.DefaultCondition
				switch o {
				case 0:
					d.EastAsianWidth = !d.EastAsianWidth
				case 1:
					d.StrictEmojiNeutral = !d.StrictEmojiNeutral
				case 2:
					d.CreateLUT()
					lut = true
				case 3:
					runewidth.DefaultCondition = cond(ref.Cfg(i & 3))
					lut = false
				case 4:
					_ = runewidth.NewCondition()
				}
				if lut && o < 2 {
					runewidth.DefaultCondition.CreateLUT()
				}
				cfg := cfgOf(runewidth.DefaultCondition)
				for _, s := range texts {
					want := ref.StringWidth(cfg, s)
					if g := runewidth.StringWidth(s); g != want {
						c.Fail("after %d steps StringWidth(%s) = %d, the default condition (%s) has %d", i+1, q(s), g, cfgName(cfg), want)
						return
					}
					c.Op(1)
				}
			}
			c.Nontrivial(true)
		})
	})
}
