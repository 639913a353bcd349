package ref

import "strings"

// Align kinds.
const (
	AlNil = iota
	AlLeft
	AlRight
	AlCenter
	AlDots // a custom alignment: dots around
	NAl
)

// Pad pads s, w cells wide, to target as alignment kind al does.
func Pad(al int, s string, w, target int) string {
	n := target - w
	if n <= 0 {
		return s
	}
	switch al {
	case AlRight:
		return strings.Repeat(" ", n) + s
	case AlCenter:
		left := (n + 1) / 2
		return strings.Repeat(" ", left) + s + strings.Repeat(" ", n-left)
	case AlDots:
		return s + strings.Repeat(".", n)
	}
	return s + strings.Repeat(" ", n)
}

// Layout is one merge call.
type Layout struct {
	ColW     []int // the table's widths
	Al       []int
	Cells    [][]string
	W        [][]int // visible width of each cell
	Sep      string
	Max      int
	Compact  bool
	Vertical bool
}

func (l *Layout) N() int { return len(l.Cells) }
func (l *Layout) C() int { return len(l.ColW) }

// Limit is the effective maximum width.
func (l *Layout) Limit() int {
	if l.Max < 0 {
		return 0
	}
	if l.Max > 65535 {
		return 65535
	}
	return l.Max
}

// RowWidth is one padded row.
func (l *Layout) RowWidth() int {
	w := l.C() - 1
	for _, x := range l.ColW {
		w += x
	}
	return w
}

// PlainGroups is the largest number of groups that fits, at least one.
func (l *Layout) PlainGroups() int {
	d := l.RowWidth() + len(l.Sep)
	if d <= 0 {
		return 1
	}
	g := (l.Limit() + len(l.Sep)) / d
	if g < 1 {
		g = 1
	}
	return g
}

// Item returns the index of the item on a line in a group for g groups, or -1.
func (l *Layout) Item(g, line, group int) int {
	i := line*g + group
	if l.Vertical {
		i = group*l.Lines(g) + line
	}
	if i >= l.N() {
		return -1
	}
	return i
}

// Lines is the number of lines for g groups.
func (l *Layout) Lines(g int) int { return (l.N() + g - 1) / g }

// GroupWidths gives, for g groups, the widest content per group and column. Groups
// beyond the number of items are empty and left out.
func (l *Layout) GroupWidths(g int) [][]int {
	m := g
	if m > l.N() {
		m = l.N()
	}
	out := make([][]int, m)
	for k := range out {
		out[k] = make([]int, l.C())
		for line := 0; line < l.Lines(g); line++ {
			if i := l.Item(g, line, k); i >= 0 {
				for c := range out[k] {
					if l.W[i][c] > out[k][c] {
						out[k][c] = l.W[i][c]
					}
				}
			}
		}
	}
	return out
}

// ContentWidth is the width of a line of g groups as wide as their content.
func (l *Layout) ContentWidth(g int) int {
	t := len(l.Sep)*(g-1) + (l.C()-1)*g
	for _, ws := range l.GroupWidths(g) {
		for _, w := range ws {
			t += w
		}
	}
	return t
}

// Fits says whether g groups as wide as their content fit the limit.
func (l *Layout) Fits(g int) bool { return l.ContentWidth(g) <= l.Limit() }

// CompactGroups is the number of groups compact mode settles on. A horizontal layout
// is not told apart beyond one group more than there are items.
func (l *Layout) CompactGroups() (g int, compacted bool) {
	g = l.PlainGroups()
	for {
		n := g + 1
		if l.Vertical {
			// the last group must hold an item
			if l.N() == 0 || (n-1)*l.Lines(n) > l.N()-1 {
				return
			}
		} else if compacted && n > l.N()+1 {
			return
		}
		if !l.Fits(n) {
			return
		}
		g = n
		compacted = true
	}
}

// Render writes the lines for g groups, with the table's widths or per-group widths.
func (l *Layout) Render(g int, perGroup bool) string {
	var b strings.Builder
	var gw [][]int
	if perGroup {
		gw = l.GroupWidths(g)
	}
	for line := 0; line < l.Lines(g); line++ {
		for k := 0; k < g; k++ {
			if k > 0 {
				b.WriteString(l.Sep)
			}
			i := l.Item(g, line, k)
			if i < 0 {
				break
			}
			for c := range l.ColW {
				if c > 0 {
					b.WriteByte(' ')
				}
				w := l.ColW[c]
				if perGroup {
					w = gw[k][c]
				}
				b.WriteString(Pad(l.Al[c], l.Cells[i][c], l.W[i][c], w))
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}
