package ref

import "unicode/utf8"

// boundary says whether UAX #29 puts a boundary before position i of cls (0 < i < len),
// reading the rules in order. ri is the number of regional indicators right before it.
func boundary(cls []int, i, ri int) bool {
	a, b := cls[i-1], cls[i]
	ctl := func(c int) bool { return c == Control || c == CR || c == LF }
	switch {
	case a == CR && b == LF: // GB3
		return false
	case ctl(a): // GB4
		return true
	case ctl(b): // GB5
		return true
	case a == L && (b == L || b == V || b == LV || b == LVT): // GB6
		return false
	case (a == LV || a == V) && (b == V || b == T): // GB7
		return false
	case (a == LVT || a == T) && b == T: // GB8
		return false
	case b == Extend || b == ZWJ: // GB9
		return false
	case b == SpacingMark: // GB9a
		return false
	case a == Prepend: // GB9b
		return false
	}
	if a == ZWJ && b == ExtPict { // GB11
		j := i - 2
		for j >= 0 && cls[j] == Extend {
			j--
		}
		if j >= 0 && cls[j] == ExtPict {
			return false
		}
	}
	if a == RI && b == RI { // GB12, GB13
		if ri%2 == 1 {
			return false
		}
	}
	return true // GB999
}

// Clusters splits s into its grapheme clusters.
func Clusters(s string) []string {
	var out []string
	var cls []int
	var pos []int
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		cls = append(cls, Class(r))
		pos = append(pos, i)
		i += n
	}
	start, ri := 0, 0
	for i := 1; i < len(cls); i++ {
		if cls[i-1] == RI {
			ri++
		} else {
			ri = 0
		}
		if boundary(cls, i, ri) {
			out = append(out, s[start:pos[i]])
			start = pos[i]
		}
	}
	if len(s) > 0 {
		out = append(out, s[start:])
	}
	return out
}

func printable(b byte) bool { return b >= 0x20 && b < 0x7f }

// StringWidth sums, over clusters, the width of the first code point that has one.
func StringWidth(c Cfg, s string) int {
	total := 0
	// There is always a boundary between two printable ASCII characters, so runs of
	// them need no segmentation.
	start := 0
	for i := 0; i+1 < len(s); i++ {
		if printable(s[i]) && printable(s[i+1]) {
			if start == i {
				total++
			} else {
				total += segWidth(c, s[start:i+1])
			}
			start = i + 1
		}
	}
	return total + segWidth(c, s[start:])
}

func segWidth(c Cfg, s string) int {
	total := 0
	for _, cl := range Clusters(s) {
		for _, r := range cl {
			if w := RuneWidth(c, r); w > 0 {
				total += w
				break
			}
		}
	}
	return total
}

func runeStepWidth(r rune) int {
	switch Class(r) {
	case Control, CR, LF, Extend, ZWJ:
		return 0
	case RI:
		return 2
	case ExtPict:
		if EPres(r) {
			return 2
		}
		return 1
	}
	switch {
	case r == 0x2e3a:
		return 3
	case r == 0x2e3b:
		return 4
	case Wide(r):
		return 2
	}
	return 1
}

// StepWidth is the monospace width stepping reports for one cluster.
func StepWidth(cluster string) int {
	rs := []rune(cluster)
	if len(rs) == 0 {
		return 0
	}
	if len(rs) == 1 {
		return runeStepWidth(rs[0])
	}
	switch Class(rs[0]) {
	case RI, L:
		return runeStepWidth(rs[0])
	case ExtPict:
		if rs[len(rs)-1] == 0xfe0e {
			return 1
		}
		return 2
	}
	w := runeStepWidth(rs[0])
	for _, r := range rs[1:] {
		if r == 0xfe0f {
			w = 2
		} else {
			w += runeStepWidth(r)
		}
	}
	return w
}
