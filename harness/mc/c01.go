package main

import (
	"fmt"
	"strings"

	"verifmc/ref"
)

// token texts whose widths are known by themselves: they neither merge with a
// neighbour nor change meaning next to one. {plain width, East Asian width}
var tokens = []struct {
	s      string
	w, wEA int
}{
	{"a", 1, 1}, {" ", 1, 1}, {"世", 2, 2}, {"e\u0301", 1, 1}, {"👩\u200d🍳", 2, 2}, {"│", 1, 2},
	{"\x1b[31m", 0, 0}, {"\x1b[0m", 0, 0}, {"\u009b1m", 0, 0}, {"\x1b[38;5;208m", 0, 0}, {"\t", 0, 0},
	{"7", 1, 1}, {"m", 1, 1}, {"[", 1, 1}, {"각", 2, 2}, {"🇺🇸", 1, 1}, {"\x1b[2K", 0, 0},
}

func tokStr(w []int) (string, int, int) {
	var b strings.Builder
	x, y := 0, 0
	for _, i := range w {
		b.WriteString(tokens[i].s)
		x += tokens[i].w
		y += tokens[i].wEA
	}
	return b.String(), x, y
}

func init() {
	register(&Check{ID: "C01", Run: c01, EnvEA: true,
		Bounds: map[string]string{
			"rule":     "cases: texts built from each alphabet; non-trivial: the text contains an ANSI sequence, a zero-width or a wide character",
			"quick":    "17 tokens to length 4; escape alphabet of 12 characters to length 5; whole escape grammar with up to 3 parameters; marks/joiners next to sequences to length 4; every code point in 3 contexts; clusters of up to 1000 code points; 16 parts at every position to 300; runs of length 0..1200 and near powers of two to 70000; all with and without East Asian setting",
			"thorough": "17 tokens to length 5; escape alphabet to length 6; whole escape grammar with up to 3 parameters; marks/joiners to length 5; every code point in 6 contexts; clusters of up to 1000 code points; 16 parts at every position to 2000; runs of length 0..5000 and near powers of two to 140000",
		},
		Assume: []string{"reference cell widths: Unicode 13 East Asian Width / combining names and Unicode 14 grapheme classes in /verif/harness/ref/golden, cross-checked against perl's Unicode database"}})
}

// visibleCase compares the width of s, as seen through alignment and a table, with want.
func visibleCase(r *Run, s string, want int, nontrivial bool) {
	r.Do(func() string { return "visible width of " + q(s) }, func(c *C) {
		c.Nontrivial(nontrivial)
		want := ref.Cap(want)
		if got, ok := pad(c, s); ok {
			c.OutcomeN(got)
			if got != want && !(want > 2*len(s)+24) {
				c.Fail("alignment treats it as %d cells wide, should be %d", got, want)
				return
			}
		}
		if got, ok := colWidth(c, s); ok && got != want {
			c.Fail("a table records width %d, should be %d", got, want)
		}
	})
}

func c01(r *Run) {
	ea := r.Cfg == ref.EA
	r.Phase("token strings")
	words(len(tokens), r.Pick(4, 5), func(w []int) {
		if !r.Want() {
			return
		}
		r.State()
		s, x, y := tokStr(w)
		if ea {
			x = y
		}
		visibleCase(r, s, x, x != len(s))
	})

	r.Phase("escape alphabet")
	alpha := []string{"\x1b", "\u009b", "[", ";", "1", "m", "s", "?", "世", "(", "B", "\x9b"}
	words(len(alpha), r.Pick(5, 6), func(w []int) {
		if !r.Want() {
			return
		}
		r.State()
		s := cat(alpha, w)
		visibleCase(r, s, ref.Visible(r.Cfg, s), strings.ContainsAny(s, "\x1b\u009b"))
	})

	r.Phase("escape grammar")
	prefixes := []string{""}
	for _, a := range "[()#;?" {
		prefixes = append(prefixes, string(a))
	}
	for _, a := range "[()#;?" {
		for _, b := range "[()#;?" {
			prefixes = append(prefixes, string(a)+string(b))
		}
	}
	prefixes = append(prefixes, "[[[", "[?(", "###", "[?[?", "[[[[[", "(((((((((", strings.Repeat("#", 20), strings.Repeat("[?", 40))
	params := []string{""}
	nums := []string{"", "7", "38", "255", "9999"}
	for _, a := range nums[1:] {
		params = append(params, a)
		for _, b := range nums {
			params = append(params, a+";"+b)
			for _, d := range nums {
				params = append(params, a+";"+b+";"+d)
			}
		}
	}
	params = append(params, "38;2;255;128;0", "0;;;;1", "1;2;3;4;5;6;7;8;9;10", "1"+strings.Repeat(";2", 15), "1"+strings.Repeat(";2", 16), "38"+strings.Repeat(";255", 40), "1"+strings.Repeat(";", 70), "0"+strings.Repeat(";9999", 300))
	for _, intro := range []string{"\x1b", "\u009b"} {
		for _, p := range prefixes {
			for _, n := range params {
				for _, f := range ref.Finals() {
					if f >= '0' && f <= '9' {
						continue // a final digit may be read as part of the number before it
					}
					if !r.Want() {
						continue
					}
					r.State()
					esc := intro + p + n + string(f)
					s := "x" + esc + "世y" + esc
					visibleCase(r, s, 4, true)
				}
			}
		}
	}

	c01near(r)

	r.Phase("marks and joiners around sequences")
	marks := []string{"a", "\x1b[1m", "\u009b0m", "\u0301", "\u0903", "\u0591", "\u200d", "👩", "🍳", "🇺", "ᄀ", "ᅡ", "\u0600", "\n", "\r", "\ufe0f", "\xff"}
	words(len(marks), r.Pick(4, 5), func(w []int) {
		if !r.Want() {
			return
		}
		r.State()
		s := cat(marks, w)
		visibleCase(r, s, ref.Visible(r.Cfg, s), strings.ContainsAny(s, "\x1b\u009b"))
	})

	r.Phase("every code point")
	ctx := []string{"%s", "x%sy", "世\x1b[1m%s\x1b[0m"}
	if r.Thorough() {
		ctx = append(ctx, "\x1b[1m%s", "👩\u200d%s", "%s\u0301\u009bm")
	}
	for cp := rune(0); cp < ref.NCP; cp++ {
		if cp >= 0xd800 && cp < 0xe000 {
			continue
		}
		for _, f := range ctx {
			if !r.Want() {
				continue
			}
			r.State()
			s := strings.Replace(f, "%s", string(cp), 1)
			r.Do(func() string { return fmt.Sprintf("visible width of %s (U+%04X)", q(s), cp) }, func(c *C) {
				c.Nontrivial(ref.RuneWidth(r.Cfg, cp) != 1 || f != "%s")
				want := ref.Visible(r.Cfg, s)
				if got, ok := pad(c, s); ok && got != want {
					c.Fail("measured %d cells, should be %d", got, want)
				}
			})
		}
	}

	r.Phase("long clusters and parts at every position")
	any := func(s string) {
		if r.Want() {
			r.State()
			visibleCase(r, s, ref.Visible(r.Cfg, s), true)
		}
	}
	longClusters(any)
	endedClusters(any)
	longKinds(r, func(s string) {
		r.State()
		visibleCase(r, s, ref.Visible(r.Cfg, s), true)
	})
	hugeTexts(r, func(s string) {
		r.State()
		visibleCase(r, s, ref.Visible(r.Cfg, s), true)
	})
	textMatrix(r, func(s string) {
		r.State()
		visibleCase(r, s, ref.Visible(r.Cfg, s), true)
	})
	placed(append([]string{"\x1b[1m", "\u009b31m世", "\x1b[38;5;1me\u0301\x1b[0m", "\x1b[s", "\x1b", "\x1b[1m\u0301"}, specials...), r.Pick(300, 2000), any)

	r.Phase("long runs")
	units := []struct {
		s     string
		w, ea int
	}{{"a", 1, 1}, {"世", 2, 2}, {"│", 1, 2}, {"e\u0301", 1, 1}, {"\x1b[1mz", 1, 1}}
	var lens []int
	for n := 0; n <= r.Pick(1200, 5000); n++ {
		lens = append(lens, n)
	}
	for _, p := range []int{2048, 4096, 8192, 10000, 16384, 32768, 65536} {
		for d := -2; d <= 2; d++ {
			lens = append(lens, p+d)
		}
	}
	lens = append(lens, 32767*2, 70000, 131071, 131072, 131073, 196608, 262144, 1<<20)
	if r.Thorough() {
		lens = append(lens, 131071, 131072, 131073, 140000)
	}
	for _, n := range lens {
		for _, u := range units {
			if n > 5000 && u.s == "\x1b[1mz" && n != 65536 {
				continue
			}
			if !r.Want() {
				continue
			}
			r.State()
			w := u.w
			if ea {
				w = u.ea
			}
			visibleCase(r, strings.Repeat(u.s, n), n*w, n > 255)
		}
	}
}

// c01near: texts that are nearly sequences, or sequences with something nearly part of
// them: every final character, every pair after the introducer, other introducers,
// other prefixes, parameters and intermediates, strings of other kinds of sequence.
func c01near(r *Run) {
	one := func(s string) {
		if !r.Want() {
			return
		}
		r.State()
		visibleCase(r, s, ref.Visible(r.Cfg, s), true)
	}
	intros := []string{"\x1b", "\u009b"}
	r.Phase("every character as the last of a sequence")
	for _, in := range intros {
		for _, p := range []string{"", "[", "[?", "(", ")", "#", ";", "?", "[[", "[;"} {
			for _, n := range []string{"", "1", "1;2", "38;5;208", "9999", "10000", "1;10000", "0", ";", "1;", ";1", "1;;2", "00", "12345678", "1:2", "4:3", "38:2::1:2:3", "1,2", "1.5", "-1", " 1", "1 ", "!", "$", "'", "\"", "%", "*", "+", ">1", "=1", "<0;1;2", "?1", "1?", "&", "/"} {
				for f := rune(0); f < 0x180; f++ {
					one("x" + in + p + n + string(f) + "世y")
				}
			}
		}
	}
	r.Phase("every pair of characters after the introducer")
	for _, in := range intros {
		for _, p := range []string{"", "[", "[1"} {
			for a := rune(0); a < 128; a++ {
				for b := rune(0); b < 128; b++ {
					one("世" + in + p + string(a) + string(b) + "z")
				}
			}
		}
	}
	r.Phase("every code point as the introducer, and before and after a sequence")
	for cp := rune(0); cp < ref.NCP; cp++ {
		if cp >= 0xd800 && cp < 0xe000 || cp > 0x3400 && cp < 0xa000 || cp > 0xac00 && cp < 0xd7a4 || cp > 0x20000 && cp < 0xe0000 || cp > 0xf0000 {
			continue
		}
		one(string(cp) + "[31m世")
		one("a\x1b[31m" + string(cp) + "\u009b0m")
	}
	for b := 0; b < 256; b++ {
		for _, t := range []string{"[1m", "1m", "[m", "m", "(B", "c", "=", "]0;t\a", "[?25h"} {
			one("a" + string([]byte{byte(b)}) + t + "z")
			one("a\xc2" + string([]byte{byte(b)}) + t + "z")
			one("a\x1b" + string([]byte{byte(b)}) + t + "z")
			one("a\x1b[" + string([]byte{byte(b)}) + t + "z")
			one("a\x1b[1" + string([]byte{byte(b)}) + t + "z")
			one("a" + "\x1b[1m" + string([]byte{byte(b)}) + t + "z")
		}
	}
	r.Phase("sequences of other kinds")
	ends := []string{"", "\a", "\x1b\\", "\u009c", "\x9c", "\x1b", "\n", "m", "\x1b[0m"}
	for _, a := range []string{"\x1b]", "\u009d", "\x1bP", "\u0090", "\x1b_", "\u009f", "\x1b^", "\u009e", "\x1bX", "\u0098", "\x1b[", "\u009b", "\x1bN", "\x1bO", "\x1b%", "\x1b ", "\x1b*", "\x1b+", "\x1b-", "\x1b.", "\x1b/", "\x1b[[", "\\x1b[", "\\e[", "\\033[", "^[[", "\u241b[", "\x1b\x1b[", "\x1b\u009b", "\u009b\x1b[", "&#27;["} {
		for _, b := range []string{"", "0;title", "8;;http://example.com/a?b=1;2", "8;;", "2;世界", "52;c;Zm9v", "31", "31m", "1$r", "G", "38;2;1;2;3", "?25", ">4;1", "1 q", " F", "200~", "999999999999999999999999"} {
			for _, e := range ends {
				for _, z := range []string{"", "x", "世界", "\u0301", "5m", "\x1b]8;;" + e} {
					one(a + b + e + z)
					one("é" + a + b + e + z)
				}
			}
		}
	}
	r.Phase("around a sequence")
	ws := []string{"", " ", "  ", "\t", "\r", "\n", "\r\n", "\v", "\f", "\b", "\a", "\x00", "\x7f", "\u00a0", "\u200b", "\u200c", "\u200e", "\ufeff", "\u2028", "\u3000", "\ufe0f", "\ufe0e", "\u20e3", "\U000e0001", "\U000e007f", "🏻", "m", ";", "0", "[", "0m", ";1m", "\\", "\u0085", "\u00ad"}
	for _, e := range []string{"\x1b[1m", "\u009b0m", "\x1b[m", "\x1b(B", "\x1bc", "\x1b[2J", "\x1b[38;5;1m", "\x1b[10;10H", "\x1b[?25l", "\x1b=", "\x1b7", "\x1b[6n"} {
		for _, a := range ws {
			for _, b := range ws {
				for _, f := range []string{"", "x", "世", "☎"} {
					one(f + a + e + b)
					one(a + e + b + f + e + a)
				}
			}
		}
	}
}
