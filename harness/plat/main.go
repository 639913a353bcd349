// Command plat is built for each platform variant of the library. It reports how it
// started up, and digests of what the library does on a fixed battery of inputs.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"strconv"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"
)

type getter struct{ j int }

func (g getter) Value(item any) (any, error)                       { return item.([]string)[g.j], nil }
func (g getter) ValueString(name string, item any) (string, error) { return item.([]string)[g.j], nil }
func (g getter) Format(item any, v any) (string, error)            { return v.(string), nil }

type list [][]string

func (l list) Len() int           { return len(l) }
func (l list) Get(i int) []string { return l[i] }

// Probe is what a start-up looks like.
type Probe struct {
	EA, Def, New, Fun bool
	Amb, Col          int
}

const ambiguous = "│½○αЯ①§…"

func probe() {
	o := Probe{EA: runewidth.EastAsianWidth, Def: runewidth.DefaultCondition.EastAsianWidth,
		New: runewidth.NewCondition().EastAsianWidth, Fun: runewidth.IsEastAsian(), Amb: runewidth.StringWidth(ambiguous)}
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "c", Getter: getter{0}})
	t := table.NewTable(spec)
	t.FormatItem([]string{ambiguous})
	o.Col = int(t.Width("c"))
	json.NewEncoder(os.Stdout).Encode(&o)
}

// pages asks for every code page in one process.
func pages() {
	var yes []int
	for p := 0; p <= 65535; p++ {
		os.Setenv("WINSYS_OUT", strconv.Itoa(p))
		if runewidth.IsEastAsian() {
			yes = append(yes, p)
		}
	}
	json.NewEncoder(os.Stdout).Encode(yes)
}

func words(k, max int, f func(w []int)) {
	for n := 0; n <= max; n++ {
		w := make([]int, n)
		for {
			f(w)
			i := n - 1
			for i >= 0 && w[i] == k-1 {
				w[i] = 0
				i--
			}
			if i < 0 {
				break
			}
			w[i]++
		}
	}
}

var parts = []string{"a", "\u0301", "\u200d", "👩", "☺", "🇺", "世", "\u2e3b", "ᄀ", "ᅡ", "ᆨ", "가", "각", "\u0903", "\n", "\r", "\u0600", "\ufe0f", "\ufe0e", "\xff", "│", "\x1b[31m", "\u009b0m", "9"}

var confs = []runewidth.Condition{{}, {EastAsianWidth: true}, {StrictEmojiNeutral: true}, {EastAsianWidth: true, StrictEmojiNeutral: true}}

// battery prints one line for each block: its name, the number of operations and a digest
// of everything they returned.
func battery(depth int) {
	block := func(name string, f func(put func(a ...any), op func())) {
		h := fnv.New64a()
		n := 0
		put := func(a ...any) { fmt.Fprintln(h, a...) }
		func() {
			defer func() {
				if e := recover(); e != nil {
					put("panic")
				}
			}()
			f(put, func() { n++ })
		}()
		fmt.Printf("%s\t%d\t%016x\n", name, n, h.Sum64())
	}
	for k := range confs {
		block(fmt.Sprintf("rune widths, setting %d", k), func(put func(a ...any), op func()) {
			c := runewidth.Condition{EastAsianWidth: confs[k].EastAsianWidth, StrictEmojiNeutral: confs[k].StrictEmojiNeutral}
			b := make([]byte, 0, 0x120000)
			for i := 0; i < 2; i++ {
				b = b[:0]
				for r := rune(-10); r < 0x110010; r++ {
					b = append(b, byte('0'+c.RuneWidth(r)))
					op()
				}
				for _, r := range []rune{math.MinInt32, math.MaxInt32, -0x110000, 1 << 24, 1 << 30} {
					b = append(b, byte('0'+c.RuneWidth(r)))
				}
				put(string(b))
				c.CreateLUT()
			}
		})
	}
	for a := range parts {
		block(fmt.Sprintf("clusters of texts starting %q", parts[a]), func(put func(a ...any), op func()) {
			words(len(parts), depth-1, func(w []int) {
				s := parts[a]
				for _, k := range w {
					s += parts[k]
				}
				op()
				g := uniseg.NewGraphemes(s)
				for g.Next() {
					put(string(g.Runes()))
				}
				for rest, st, n := s, -1, 0; rest != "" && n <= len(s); n++ {
					var c string
					var b int
					c, rest, b, st = uniseg.StepString(rest, st)
					put(c, b>>uniseg.ShiftWidth)
				}
				for k := range confs {
					put(confs[k].StringWidth(s))
				}
			})
		})
		block(fmt.Sprintf("alignment of texts starting %q", parts[a]), func(put func(a ...any), op func()) {
			words(len(parts), depth-1, func(w []int) {
				s := parts[a]
				for _, k := range w {
					s += parts[k]
				}
				op()
				for _, n := range []uint16{0, 1, 4, 7} {
					put(table.AlignmentLeft(s, n), table.AlignmentRight(s, n), table.AlignmentCenter(s, n))
				}
			})
		})
	}
	seps := []string{"", " ", " | ", "│"}
	maxes := []int{math.MinInt, math.MinInt32, -65537, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 24, 40, 80, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 30, math.MaxInt32, math.MaxInt}
	aligns := []table.Alignment{nil, table.AlignmentLeft, table.AlignmentRight, table.AlignmentCenter}
	for nc := 0; nc <= 3; nc++ {
		for n := 0; n <= 2+2*depth; n++ {
			if nc == 3 && n > 6 {
				continue
			}
			block(fmt.Sprintf("tables of %d columns and %d items", nc, n), func(put func(a ...any), op func()) {
				for pat := 0; pat < 6; pat++ {
					for _, wide := range []int{0, 2, 255, 65535} {
						spec := table.NewTableSpec()
						for j := 0; j < nc; j++ {
							spec.AddColumn(&table.Column{Name: string(rune('a' + j)), Title: "Title"[:1+(pat+j)%5], ShortTitle: "T", Getter: getter{j}, Alignment: aligns[(pat+j)%4]})
						}
						t := table.NewTable(spec)
						var l list
						for i := 0; i < n; i++ {
							row := make([]string, nc)
							for j := range row {
								row[j] = strings.Repeat("x", (i*pat+j+pat*pat)%4)
								if (i+pat)%5 == 4 {
									row[j] += "世\x1b[0m"
								}
							}
							f, err := t.FormatItem(row)
							put(strings.Join(f, "|"), err == nil)
							l = append(l, f)
						}
						if wide > 0 && nc > 0 {
							t.UpdateWidth(map[string]uint16{"a": uint16(wide)})
						}
						for _, m := range []uint16{0, 1, 255, 65535} {
							put(t.TableWidth(m))
						}
						put(t.FormatHeader("|"))
						if (wide == 255 && pat > 1) || (wide > 255 && (pat != 1 || n > 2)) {
							continue
						}
						for _, sep := range seps {
							for _, max := range maxes {
								for mode := 0; mode < 4; mode++ {
									var b strings.Builder
									op()
									if mode < 2 {
										t.MergeRowsHorizontal(&b, l, max, sep, mode == 1)
									} else {
										t.MergeRowsVertical(&b, l, max, sep, mode == 3)
									}
									put(b.String())
								}
							}
						}
					}
				}
			})
		}
	}
}

func main() {
	switch os.Args[1] {
	case "probe":
		probe()
	case "pages":
		pages()
	case "battery":
		n, _ := strconv.Atoi(os.Args[2])
		battery(n)
	default:
		os.Exit(2)
	}
}
