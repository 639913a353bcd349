package main

import (
	"strings"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

// cellGetter yields the j-th text of an item that is a []string.
type cellGetter struct{ j int }

func (g cellGetter) Value(item any) (any, error) { return item.([]string)[g.j], nil }
func (g cellGetter) ValueString(name string, item any) (string, error) {
	return item.([]string)[g.j], nil
}
func (g cellGetter) Format(item any, v any) (string, error) { return v.(string), nil }

func dots(s string, width uint16) string {
	return ref.Pad(ref.AlDots, s, ref.Visible(ref.Plain, s), int(width))
}

func alignment(kind int) table.Alignment {
	switch kind {
	case ref.AlLeft:
		return table.AlignmentLeft
	case ref.AlRight:
		return table.AlignmentRight
	case ref.AlCenter:
		return table.AlignmentCenter
	case ref.AlDots:
		return dots
	}
	return nil
}

var alNames = []string{"none", "left", "right", "center", "dots"}

// list is a FormattedItemList.
type list [][]string

func (l list) Len() int           { return len(l) }
func (l list) Get(i int) []string { return l[i] }

// pad measures what the library thinks s is wide, through AlignmentLeft.
func pad(c *C, s string) (int, bool) {
	const room = 24
	target := 2*len(s) + room
	if target > 65535 {
		target = 65535
	}
	out := table.AlignmentLeft(s, uint16(target))
	c.Op(1)
	if !strings.HasPrefix(out, s) || strings.Trim(out[len(s):], " ") != "" {
		c.Fail("AlignmentLeft(%s, %d) = %s: not the text followed by spaces", q(s), target, q(out))
		return 0, false
	}
	return target - (len(out) - len(s)), true
}

// colWidth measures s through a table.
func colWidth(c *C, s string) (int, bool) {
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "c", Getter: cellGetter{0}})
	t := table.NewTable(spec)
	f, err := t.FormatItem([]string{s})
	c.Op(1)
	if err != nil || len(f) != 1 || f[0] != s {
		c.Fail("FormatItem of one cell %s = %q, %v", q(s), f, err)
		return 0, false
	}
	return int(t.Width("c")), true
}

// words enumerates all sequences over an alphabet of size k with length 0..max in order
// of length.
func words(k, max int, f func(w []int)) {
	for n := 0; n <= max; n++ {
		w := make([]int, n)
		for {
			f(w)
			i := n - 1
			for i >= 0 {
				w[i]++
				if w[i] < k {
					break
				}
				w[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}

// wordsN enumerates all sequences of exactly length n.
func wordsN(k, n int, f func(w []int)) {
	w := make([]int, n)
	for {
		f(w)
		i := n - 1
		for i >= 0 {
			w[i]++
			if w[i] < k {
				break
			}
			w[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func cat(alpha []string, w []int) string {
	var b strings.Builder
	for _, i := range w {
		b.WriteString(alpha[i])
	}
	return b.String()
}

// longClusters enumerates texts with one cluster of up to a thousand code points.
func longClusters(f func(s string)) {
	var ns []int
	for n := 1; n <= 66; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000)
	bases := []string{"", "a", "世", "│", "☺", "👩", "ᄀ", "가", "🇺", "\u0600", "9", "\n"}
	units := []string{"\u0301", "\u0903", "\u200d", "\ufe0f", "🏻", "\u200d👩", "\u200d\u0301", "ᅡ", "ᆨ"}
	for _, n := range ns {
		for _, b := range bases {
			for _, u := range units {
				x := strings.Repeat(u, n)
				f(b + x)
				f("x" + b + x + "世")
			}
			for _, u := range []string{"\u0600", "ᄀ", "🇺"} {
				x := strings.Repeat(u, n)
				f(x + b)
				f(x + b + "\u0301y")
			}
		}
	}
}

// placed enumerates texts with one special part at every position of a long text.
func placed(parts []string, max int, f func(s string)) {
	for k := 0; k <= max; k++ {
		for _, p := range parts {
			for _, tail := range []int{0, 1, 70} {
				f(strings.Repeat("a", k) + p + strings.Repeat("b", tail))
			}
		}
	}
}

var specials = []string{"世", "│", "e\u0301", "👩\u200d🍳", "🇺🇸", "가", "\xff", "\u200b", "\r\n", "☺\ufe0f"}
