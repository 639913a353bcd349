package main

import (
	"fmt"
	"strings"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

func init() {
	register(&Check{ID: "C02", Run: c02, EnvEA: true,
		Bounds: map[string]string{
			"rule":     "cases: (text, target width), each run through the three alignment functions; non-trivial: some padding is due",
			"quick":    "17 tokens to length 3 x target widths 0..13; 23 kinds of bytes, blanks and marks to length 3 around their width; every code point; every target width 0..65535 x 6 texts; texts of 0..600 cells x targets within 3 of them; texts of 65530..65540 to 1048583 cells x boundary targets",
			"thorough": "17 tokens to length 4 x target widths 0..13; every target width 0..65535 x 14 texts; texts of 0..3000 cells x targets within 4; texts around 65536 and 131072 cells x boundary targets",
		}})
}

func alignCase(r *Run, s string, w, target int) {
	r.Do(func() string { return fmt.Sprintf("align %s (%d cells) to %d", q(s), w, target) }, func(c *C) {
		c.Nontrivial(target > w)
		for _, al := range []int{ref.AlLeft, ref.AlRight, ref.AlCenter} {
			got := alignment(al)(s, uint16(target))
			c.Op(1)
			want := ref.Pad(al, s, w, target)
			if got != want {
				c.Fail("%s gives %s, want %s", alNames[al], q(got), q(want))
				return
			}
		}
		n := target - w
		if n < 0 {
			n = 0
		}
		c.OutcomeN(n)
	})
}

func c02(r *Run) {
	ea := r.Cfg == ref.EA
	r.Phase("token strings x small targets")
	words(len(tokens), r.Pick(3, 4), func(w []int) {
		for target := 0; target <= 13; target++ {
			if !r.Want() {
				continue
			}
			r.State()
			s, x, y := tokStr(w)
			if ea {
				x = y
			}
			alignCase(r, s, x, target)
		}
	})
	r.Phase("bytes and blanks")
	// anything that may be taken for removable: the text has to come out byte for byte
	odd := []string{"a", " ", "\n", "\r", "\r\n", "\x00", "\x7f", "\xff", "\xc3", "\x80", "\xed\xa0\x80", "\u00a0", "\u3000", "\u200b", "\ufeff", "\u00ad", "\u0301", "\x1b", "\x1b[", "\u2028", "e\u0301", "\u00e9", "\ufffd"}
	words(len(odd), r.Pick(3, 4), func(w []int) {
		for d := -1; d <= 6; d++ {
			if d > 1 && d < 5 || !r.Want() {
				continue
			}
			s := cat(odd, w)
			x := ref.Visible(r.Cfg, s)
			if x+d < 0 {
				continue
			}
			r.State()
			alignCase(r, s, x, x+d)
		}
	})
	r.Phase("every code point")
	for cp := rune(0); cp <= 0x10ffff; cp += 16 {
		if !r.Want() {
			continue
		}
		r.State()
		r.Do(func() string {
			return fmt.Sprintf("code points U+%04X to U+%04X, alone and between letters", cp, cp+15)
		}, func(c *C) {
			c.Nontrivial(true)
			for x := cp; x < cp+16; x++ {
				for _, s := range []string{string(x), "a" + string(x) + "b"} {
					w := ref.Visible(r.Cfg, s)
					for _, al := range []int{ref.AlLeft, ref.AlRight, ref.AlCenter} {
						c.Op(1)
						if got, want := alignment(al)(s, uint16(w+3)), ref.Pad(al, s, w, w+3); got != want {
							c.Fail("%s of %s to %d gives %s, want %s", alNames[al], q(s), w+3, q(got), q(want))
							return
						}
					}
				}
			}
		})
	}
	c02more(r)
	textMatrix(r, func(s string) {
		r.State()
		w := ref.Visible(r.Cfg, s)
		alignCase(r, s, w, w+1+len(s)%3)
		alignCase(r, s, w, w)
	})
	r.Phase("every target width")
	texts := []string{"", "a", "世界", "\x1b[31mred\x1b[0m", "e\u0301│", "   "}
	if r.Thorough() {
		texts = append(texts, "ab", "abc", "\t", "👩\u200d🍳x", "🇺🇸", strings.Repeat("q", 255), strings.Repeat("q", 256), strings.Repeat("世", 200))
	}
	for _, s := range texts {
		w := ref.Visible(r.Cfg, s)
		for target := 0; target <= 65535; target++ {
			if !r.Want() {
				continue
			}
			r.State()
			alignCase(r, s, w, target)
		}
	}
	r.Phase("long texts x near targets")
	d := r.Pick(3, 4)
	for n := 0; n <= r.Pick(600, 3000); n++ {
		for dd := -d; dd <= d; dd++ {
			if n+dd < 0 || !r.Want() {
				continue
			}
			r.State()
			alignCase(r, strings.Repeat("y", n), n, n+dd)
		}
	}
	r.Phase("texts at the 16-bit limit")
	for _, n := range []int{32767, 32768, 65530, 65533, 65534, 65535, 65536, 65537, 65540, 65541, 65600, 131071, 131072, 131073, 196608, 262144, 300000, 1 << 20, 1<<20 + 7} {
		for _, target := range []int{0, 1, 5, 8, 255, 32767, 32768, 65533, 65534, 65535} {
			if !r.Want() {
				continue
			}
			r.State()
			alignCase(r, strings.Repeat("z", n), n, target)
		}
	}
}

var _ = table.AlignmentLeft
