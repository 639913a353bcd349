package main

import (
	"fmt"
	"strings"

	"github.com/ilius/go-table/runewidth/uniseg"

	"verifmc/ref"
)

func init() {
	register(&Check{ID: "C17", Run: func(r *Run) { segSpace(r, judge17) }, Bounds: map[string]string{
		"rule":     "cases: strings, iterated with Graphemes and with StepString; non-trivial: some cluster has more than one code point",
		"quick":    "all strings to length 6 over the 15 grapheme classes; to length 3 over every (class, width) combination; every code point before and after a member of each class and in 6 longer contexts; all byte strings to length 2, 12 bytes to length 5; clusters of up to 1000 code points; 10 parts at every position to 200; runs of up to 160",
		"thorough": "classes to length 7; combinations to length 4; every code point between members of each pair of classes from a set of 6; all byte strings to length 3, 12 bytes to length 6; clusters of up to 1000 code points; 10 parts at every position to 1500; runs of up to 1200",
	}, Assume: []string{"grapheme classes: /verif/harness/ref/golden/gcb14.txt, cross-checked against perl's Unicode database (DESIGN.md)"}})
	register(&Check{ID: "C20", Run: func(r *Run) { segSpace(r, judge20) }, Bounds: map[string]string{
		"rule":     "cases: strings stepped with StepString, resumed afresh at every cluster boundary; non-trivial: more than one cluster, one of them of several code points",
		"quick":    "the string space of C17 (quick), with U+FE0E, U+FE0F and both em dashes added to length 5",
		"thorough": "the string space of C17 (thorough), with the additional members to length 6",
	}, Assume: []string{"grapheme classes, wide and emoji-presentation data: /verif/harness/ref/golden, cross-checked against perl's Unicode database (DESIGN.md)"}})
}

func segSpace(r *Run, judge func(r *Run, s string, c *C)) {
	one := func(s string) {
		r.State()
		r.Do(func() string { return "string " + q(s) }, func(c *C) { judge(r, s, c) })
	}
	r.Phase("class strings")
	words(len(classReps), r.Pick(6, 7), func(w []int) {
		if r.Want() {
			one(cat(classReps, w))
		}
	})
	r.Phase("selectors and dashes")
	sel := []string{"a", "\u0301", "\ufe0e", "\ufe0f", "\u200d", "👩", "☺", "🇺", "世", "\u2e3a", "\u2e3b", "ᄀ", "ᅡ", "\u0903", "\n", "\u0600", "🏻", "\ufffd"}
	words(len(sel), r.Pick(4, 6), func(w []int) {
		if r.Want() {
			one(cat(sel, w))
		}
	})
	if !r.Thorough() {
		words(12, 5, func(w []int) {
			if r.Want() {
				one(cat(sel, w))
			}
		})
	}
	r.Phase("class and width representatives")
	rs := reps(false)
	words(len(rs), r.Pick(3, 4), func(w []int) {
		if !r.Want() {
			return
		}
		x := make([]rune, len(w))
		for i, k := range w {
			x[i] = rs[k]
		}
		one(string(x))
	})
	r.Phase("every code point")
	longer := [][2]string{{"", ""}, {"👩", "👩"}, {"👩", "\u200d👩"}, {"👩\u200d", ""}, {"🇺", "🇸🇺"}, {"\u0600", "ᆨ"}, {"a\u0301", "\u0903"}}
	var ctx [][2]string
	for _, k := range classReps {
		ctx = append(ctx, [2]string{k, ""}, [2]string{"", k})
	}
	ctx = append(ctx, longer...)
	if r.Thorough() {
		for _, a := range []string{"a", "👩", "🇺", "ᄀ", "\u0600", "가"} {
			for _, b := range []string{"\u0301", "\u200d👩", "🇸", "ᅡ", "ᆨ", "\u0903"} {
				ctx = append(ctx, [2]string{a, b})
			}
		}
	}
	for cp := rune(0); cp < ref.NCP; cp++ {
		if cp >= 0xd800 && cp < 0xe000 {
			continue
		}
		for _, f := range ctx {
			if r.Want() {
				one(f[0] + string(cp) + f[1])
			}
		}
	}
	r.Phase("byte strings")
	words(len(oddBytes), r.Pick(5, 6), func(w []int) {
		if r.Want() {
			one(cat(oddBytes, w))
		}
	})
	words(256, r.Pick(2, 3), func(w []int) {
		if r.Want() {
			b := make([]byte, len(w))
			for i, x := range w {
				b[i] = byte(x)
			}
			one(string(b))
		}
	})
	for _, pre := range []string{"👩", "🇺", "ᄀ", "\r", "\u0600", "e\u0301", "👩\u200d"} {
		for a := 0; a < 256; a++ {
			for _, post := range []string{"", "👩", "🇸", "ᅡ", "\u0301", "\u200d", "\n"} {
				if r.Want() {
					one(pre + string([]byte{byte(a)}) + post)
				}
			}
		}
	}
	r.Phase("long clusters and parts at every position")
	any := func(s string) {
		if r.Want() {
			one(s)
		}
	}
	longClusters(any)
	endedClusters(any)
	placed(specials, r.Pick(200, 1500), any)
	longKinds(r, one)
	textMatrix(r, one)
	specialPoints(r, one)
	hugeTexts(r, one)
	r.Phase("runs")
	units := []string{"a", "🇺", "👩\u200d", "👩", "e\u0301", "\u0301", "ᄀ", "ᅡ", "ᆨ", "각", "\r\n", "\r", "\u0600", "\u0903", "世", "👩🏻\u200d", "\xff", "\u200d", "🇺a", "🇺🇸"}
	for n := 0; n <= r.Pick(160, 1200); n++ {
		for _, u := range units {
			for _, tail := range []string{"", "👩", "🇺", "\u0301"} {
				if r.Want() {
					one(strings.Repeat(u, n) + tail)
				}
			}
		}
	}
}

func same(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func judge17(r *Run, s string, c *C) {
	want := ref.Clusters(s)
	g := uniseg.NewGraphemes(s)
	if x := g.Runes(); x != nil {
		c.Fail("Runes before the first Next = %q, want nil", string(x))
		return
	}
	mask, nt := 1, false
	for i, w := range want {
		if !g.Next() {
			c.Fail("the iterator ends after %d clusters, want %d: %q", i, len(want), clip(fmt.Sprintf("%+q", want)))
			return
		}
		x := g.Runes()
		if wr := []rune(w); !same(x, wr) {
			c.Fail("cluster %d is %+q, want %+q", i, string(x), w)
			return
		}
		nt = nt || len(x) > 1
		mask = mask<<3 | len(x)&7
	}
	for k := 0; k < 2; k++ {
		if g.Next() {
			c.Fail("the iterator goes on after %d clusters with %+q", len(want), string(g.Runes()))
			return
		}
		if x := g.Runes(); len(x) != 0 {
			c.Fail("Runes after the end = %+q", string(x))
			return
		}
	}
	rest, st := s, -1
	for i, w := range want {
		var cl string
		cl, rest, _, st = uniseg.StepString(rest, st)
		if cl != w {
			c.Fail("step %d gives %+q, want %+q", i, cl, w)
			return
		}
	}
	if rest != "" {
		c.Fail("%+q is left after the last cluster", rest)
		return
	}
	c.Op(2*len(want) + 3)
	c.Nontrivial(nt)
	c.OutcomeN(mask)
}

func judge20(r *Run, s string, c *C) {
	if s == "" {
		cl, rest, b, _ := uniseg.StepString("", -1)
		if cl != "" || rest != "" || b>>uniseg.ShiftWidth != 0 {
			c.Fail("stepping through an empty string yields %q, %q, %d", cl, rest, b)
		}
		c.Op(1)
		return
	}
	// the clusters of the iterator
	var it []string
	pos := 0
	g := uniseg.NewGraphemes(s)
	want := ref.Clusters(s)
	for g.Next() {
		x := g.Runes()
		if len(it) >= len(want) {
			c.Fail("the iterator goes on after %d clusters", len(want))
			return
		}
		n := len(want[len(it)]) // bytes: the runes may be replacement characters
		if !same(x, []rune(want[len(it)])) {
			c.Fail("the iterator yields %+q, want %+q", string(x), want[len(it)])
			return
		}
		it = append(it, s[pos:pos+n])
		pos += n
	}
	if len(it) != len(want) {
		c.Fail("the iterator yields %d clusters, want %d", len(it), len(want))
		return
	}
	widths := make([]int, len(it))
	nt, out := false, 1
	for i, cl := range it {
		widths[i] = ref.StepWidth(cl)
		nt = nt || len([]rune(cl)) > 1
		out = out<<3 | widths[i]&7
	}
	pos = 0
	nstart := len(it)
	if nstart > 40 {
		nstart = 40
		if len(it) > 5000 {
			nstart = 2
		}
	}
	for start := 0; start < nstart; start++ {
		rest, st := s[pos:], -1
		end := len(it)
		for i := start; i < end; i++ {
			var cl string
			var b int
			cl, rest, b, st = uniseg.StepString(rest, st)
			if cl != it[i] {
				c.Fail("started afresh at byte %d, step %d gives %+q, want %+q", pos, i-start, cl, it[i])
				return
			}
			if b>>uniseg.ShiftWidth != widths[i] {
				c.Fail("started afresh at byte %d, cluster %+q has width %d, want %d", pos, cl, b>>uniseg.ShiftWidth, widths[i])
				return
			}
		}
		if rest != "" {
			c.Fail("started afresh at byte %d, %+q is left after the last cluster", pos, rest)
			return
		}
		c.Op(end - start)
		pos += len(it[start])
	}
	c.Nontrivial(nt && len(it) > 1)
	c.OutcomeN(out)
}
