// Package ref holds the reference models. They share no code with go-table.
package ref

import (
	_ "embed"
	"strconv"
	"strings"
	"sync"
)

//go:embed golden/runewidth13.txt
var goldenRW string

//go:embed golden/gcb14.txt
var goldenGCB string

//go:embed golden/wide14.txt
var goldenWide string

//go:embed golden/epres14.txt
var goldenEPres string

// Grapheme cluster break classes (UAX #29 table 2, plus Extended_Pictographic).
const (
	XX = iota
	CR
	LF
	Control
	Extend
	ZWJ
	RI
	Prepend
	SpacingMark
	L
	V
	T
	LV
	LVT
	ExtPict
	NClass
)

var ClassName = [NClass]string{"XX", "CR", "LF", "Control", "Extend", "ZWJ", "RegionalIndicator", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "ExtendedPictographic"}

const NCP = 0x110000

var (
	rw    []byte // two bits per setting: width of setting i is rw>>(2i)&3
	gcb   []byte
	wide  []byte
	epres []byte
	once  sync.Once
)

func each(s string, f func(a, b int, v string)) {
	for _, l := range strings.Split(s, "\n") {
		p := strings.Fields(l)
		if len(p) != 3 {
			continue
		}
		a, e1 := strconv.ParseInt(p[0], 16, 32)
		b, e2 := strconv.ParseInt(p[1], 16, 32)
		if e1 != nil || e2 != nil {
			panic("bad golden line " + l)
		}
		f(int(a), int(b), p[2])
	}
}

func load() {
	rw = make([]byte, NCP)
	gcb = make([]byte, NCP)
	wide = make([]byte, NCP)
	epres = make([]byte, NCP)
	for i := range rw {
		rw[i] = 0b01010101
	}
	each(goldenRW, func(a, b int, v string) {
		var x byte
		for i := 0; i < 4; i++ {
			x |= (v[i] - '0') << (2 * i)
		}
		for ; a <= b; a++ {
			rw[a] = x
		}
	})
	cls := map[string]byte{}
	for i, n := range ClassName {
		cls[n] = byte(i)
	}
	each(goldenGCB, func(a, b int, v string) {
		c, ok := cls[v]
		if !ok {
			panic("bad class " + v)
		}
		for ; a <= b; a++ {
			gcb[a] = c
		}
	})
	each(goldenWide, func(a, b int, v string) {
		for ; a <= b; a++ {
			wide[a] = 1
		}
	})
	each(goldenEPres, func(a, b int, v string) {
		for ; a <= b; a++ {
			epres[a] = 1
		}
	})
}

// Cfg is a width setting: bit 0 East Asian width, bit 1 "strict emoji" off.
type Cfg int

const (
	Plain   Cfg = 0
	EA      Cfg = 1
	Loose   Cfg = 2
	EALoose Cfg = 3
)

// RuneWidth is the published width of a code point under a setting.
func RuneWidth(c Cfg, r rune) int {
	once.Do(load)
	if r < 0 || r >= NCP {
		return 0
	}
	return int(rw[r]>>(2*uint(c))) & 3
}

// Class is the grapheme cluster break class.
func Class(r rune) int {
	once.Do(load)
	if r < 0 || r >= NCP {
		return XX
	}
	return int(gcb[r])
}

func Wide(r rune) bool  { once.Do(load); return r >= 0 && r < NCP && wide[r] == 1 }
func EPres(r rune) bool { once.Do(load); return r >= 0 && r < NCP && epres[r] == 1 }
