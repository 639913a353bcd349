package main

import (
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"strings"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

func init() {
	register(&Check{ID: "C03", Run: c03, EnvEA: true,
		Bounds: map[string]string{
			"rule":     "cases: histories of measurements; every measurement in a history is compared with the text-only reference; non-trivial: the history measures some text twice or two texts that look alike",
			"quick":    "all ordered pairs of measurements of all token strings to length 2; look-alike families (same length, prefix, suffix, stripped form, case, hash of parts) of text lengths up to 4097 in all ordered pairs; pairs that 7 common 32-bit digests cannot tell apart; all ordered pairs of byte rearrangements of 3 texts; all sequences to length 5 over 4 fresh texts x 3 ways of measuring; cache-filling histories: measure, add k other texts for k near 1, 2, 5000, 10000, 20000, 32768, 65537, measure again, in all orders of 3 probe texts",
			"thorough": "as quick with sequences to length 6, families up to 4100 and k sweep near every thousand up to 21000",
		},
		Assume: []string{"the width configuration does not change during a history (statement)"}})
}

// three ways of asking for a width
func ask(c *C, way int, s string, target int) int {
	c.Op(1)
	switch way {
	case 0:
		return target - (len(table.AlignmentLeft(s, uint16(target))) - len(s))
	case 1:
		return target - (len(table.AlignmentCenter(s, uint16(target))) - len(s))
	}
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "c", Getter: cellGetter{0}})
	t := table.NewTable(spec)
	if _, err := t.FormatItem([]string{s}); err != nil {
		c.Fail("FormatItem: %v", err)
	}
	return int(t.Width("c"))
}

func (c *C) expect(step int, way int, s string, want int) {
	target := want + 40
	if target > 65535 {
		target = 65535
	}
	if got := ask(c, way, s, target); got != want {
		c.Fail("step %d: %s measured %d cells, should be %d", step, q(s), got, want)
	}
}

var digests = []struct {
	name string
	f    func(s string) uint64
}{
	{"fnv32", func(s string) uint64 { h := fnv.New32(); h.Write([]byte(s)); return uint64(h.Sum32()) }},
	{"fnv32a", func(s string) uint64 { h := fnv.New32a(); h.Write([]byte(s)); return uint64(h.Sum32()) }},
	{"crc32", func(s string) uint64 { return uint64(crc32.ChecksumIEEE([]byte(s))) }},
	{"crc32c", func(s string) uint64 { return uint64(crc32.Checksum([]byte(s), castagnoli)) }},
	{"adler32", func(s string) uint64 { return uint64(adler32.Checksum([]byte(s))) }},
	{"times 31", func(s string) uint64 {
		var h uint32
		for i := 0; i < len(s); i++ {
			h = h*31 + uint32(s[i])
		}
		return uint64(h)
	}},
	{"djb2", func(s string) uint64 {
		h := uint32(5381)
		for i := 0; i < len(s); i++ {
			h = h*33 + uint32(s[i])
		}
		return uint64(h)
	}},
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// collide finds up to n pairs of a narrow and a wide text of equal length and digest, by
// a deterministic birthday search.
func collide(f func(string) uint64, n int) (out [][2]string) {
	const m = 1 << 17
	seen := make(map[uint64]int, m)
	narrow := func(i int) string { return fmt.Sprintf("n%07d-abc", i*7) }
	wide := func(i int) string { return fmt.Sprintf("w%07d-世", i*3) }
	for i := 0; i < m; i++ {
		seen[f(narrow(i))] = i
	}
	for i := 0; i < 4*m && len(out) < n; i++ {
		if k, ok := seen[f(wide(i))]; ok {
			out = append(out, [2]string{narrow(k), wide(i)})
		}
	}
	return
}

func permutations(s string) []string {
	seen := map[string]bool{}
	var out []string
	var rec func(pre string, rest []byte)
	rec = func(pre string, rest []byte) {
		if len(rest) == 0 {
			if !seen[pre] {
				seen[pre] = true
				out = append(out, pre)
			}
			return
		}
		for i := range rest {
			r2 := append(append([]byte(nil), rest[:i]...), rest[i+1:]...)
			rec(pre+string(rest[i:i+1]), r2)
		}
	}
	rec("", []byte(s))
	return out
}

func c03(r *Run) {
	ea := r.Cfg == ref.EA
	fresh := func() string { // unique within the worker, always 9 cells
		r.seq++
		return fmt.Sprintf("%09d", r.seq)
	}

	r.Phase("ordered pairs of short texts")
	type tx struct {
		s string
		w int
	}
	var short []tx
	words(len(tokens), 2, func(w []int) {
		s, x, y := tokStr(w)
		if ea {
			x = y
		}
		short = append(short, tx{s, x})
	})
	for _, a := range short {
		for _, b := range short {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return "measure " + q(a.s) + " then " + q(b.s) + " then both again" }, func(c *C) {
				c.Nontrivial(len(a.s) == len(b.s))
				for i, t := range []tx{a, b, a, b} {
					c.expect(i, 0, t.s, t.w)
				}
				c.OutcomeN(a.w*100 + b.w)
			})
		}
	}

	r.Phase("look-alike families")
	var lens []int
	for n := 0; n <= 40; n++ {
		lens = append(lens, n)
	}
	for _, p := range []int{48, 63, 64, 65, 80, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 4095, 4096, 4097} {
		lens = append(lens, p)
	}
	if r.Thorough() {
		for n := 41; n < 600; n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 4100, 8191, 8192, 8193, 16384)
	}
	for _, n := range lens {
		// same byte length and shared prefix/suffix, different widths
		base := strings.Repeat("k", n)
		mk := func(at int, mid string) string { return base[:at] + mid + base[at:] }
		var fam []string
		for _, at := range []int{0, n / 2, n} {
			fam = append(fam, mk(at, "abc"), mk(at, "世"), mk(at, "ABC"), mk(at, "\x1b[m"), mk(at, "\x1b[A"), mk(at, "\x1b[a"), mk(at, "\x00\x01\x02"))
		}
		fam = append(fam, base, base+" ", " "+base, "\x1b[1m"+base, base+"\x1b[0m")
		for i := range fam {
			for j := range fam {
				if !r.Want() {
					continue
				}
				r.State()
				tag := fresh()
				a, b := tag+fam[i], tag+fam[j]
				if (i+j)%3 == 0 { // the same text with blanks around it
					b = []string{" ", "\t ", "\n", "  "}[(i+j)%4] + a + []string{"", " ", "\u3000"}[i%3]
				}
				r.Do(func() string { return fmt.Sprintf("family length %d: %s, %s, then both again", n, q(a), q(b)) }, func(c *C) {
					c.Nontrivial(true)
					wa, wb := ref.Visible(r.Cfg, a), ref.Visible(r.Cfg, b)
					c.expect(0, 0, a, wa)
					c.expect(1, 2, b, wb)
					c.expect(2, 1, a, wa)
					c.expect(3, 0, b, wb)
				})
			}
		}
	}

	r.Phase("colliding digests")
	// Pairs of texts of different width that a weak digest cannot tell apart.
	for hi, h := range digests {
		for pi, p := range collide(h.f, 12) {
			for way := 0; way < 2; way++ {
				if !r.Want() {
					continue
				}
				r.State()
				a, b := p[way], p[1-way]
				r.Do(func() string {
					return fmt.Sprintf("%s collision %d.%d: %s, %s, then both again", h.name, hi, pi, q(a), q(b))
				}, func(c *C) {
					c.Nontrivial(true)
					wa, wb := ref.Visible(r.Cfg, a), ref.Visible(r.Cfg, b)
					c.expect(0, 0, a, wa)
					c.expect(1, 2, b, wb)
					c.expect(2, 1, a, wa)
					c.expect(3, 0, b, wb)
				})
			}
		}
	}

	r.Phase("rearranged texts")
	// all orders of the bytes of a few texts: same length, same bytes, different widths
	for _, base := range []string{"\x1b[1mx", "世ab", "e\u0301z"} {
		ps := permutations(base)
		for _, a := range ps {
			for _, b := range ps {
				if !r.Want() {
					continue
				}
				r.State()
				r.Do(func() string { return fmt.Sprintf("%s then %s then both again", q(a), q(b)) }, func(c *C) {
					c.Nontrivial(true)
					wa, wb := ref.Visible(r.Cfg, a), ref.Visible(r.Cfg, b)
					c.expect(0, 0, a, wa)
					c.expect(1, 0, b, wb)
					c.expect(2, 0, a, wa)
				})
			}
		}
	}

	r.Phase("sequences over fresh texts")
	pool := func(tag string) []tx {
		return []tx{{tag, 9}, {tag + "世", 11}, {"\x1b[1m" + tag + "\x1b[0m", 9}, {strings.Repeat("\t", int(r.seq%50)+1) + strings.Repeat("\x1b[0m", 3), 0}}
	}
	words(12, r.Pick(5, 6), func(w []int) {
		if !r.Want() {
			return
		}
		r.State()
		p := pool(fresh())
		ops := append([]int(nil), w...)
		r.Do(func() string { return fmt.Sprintf("sequence (way*4+text) %v over %s", ops, q(fmt.Sprint(p))) }, func(c *C) {
			c.Nontrivial(len(ops) > 1)
			for i, op := range ops {
				c.expect(i, op/4, p[op%4].s, p[op%4].w)
			}
		})
	})

	c03more(r, fresh)

	r.Phase("cache filling histories")
	var ks []int
	for _, b := range []int{1, 2, 5000, 10000, 20000} {
		for d := -2; d <= 2; d++ {
			if b+d > 0 {
				ks = append(ks, b+d)
			}
		}
	}
	if r.Thorough() {
		for k := 1000; k <= 21000; k += 1000 {
			ks = append(ks, k-1, k, k+1)
		}
		for d := -40; d <= 40; d++ {
			ks = append(ks, 10000+d)
		}
	}
	ks = append(ks, 32768, 65537)
	perms := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, k := range ks {
		for _, p := range perms {
			for _, q2 := range perms {
				if (k > 21000 && (p != q2 || p[0] > p[2])) || !r.Want() {
					continue
				}
				r.State()
				tag := fresh()
				probes := []tx{{tag + "a", 10}, {"世" + tag, 11}, {"\x1b[3m" + tag + "\x1b[0m", 9}}
				r.Do(func() string {
					return fmt.Sprintf("measure probes in order %v, then %d other texts, then probes in order %v; tag %s", p, k, q2, tag)
				}, func(c *C) {
					c.Nontrivial(true)
					for i, x := range p {
						c.expect(i, 0, probes[x].s, probes[x].w)
					}
					for i := 0; i < k && !c.Failed(); i++ {
						f := fresh()
						if i%3 == 1 {
							c.expect(3+i, 0, "世"+f, 11)
						} else {
							c.expect(3+i, 0, f, 9)
						}
						if i == k/2 { // touch one in the middle
							c.expect(3+i, 0, probes[q2[0]].s, probes[q2[0]].w)
						}
					}
					for i, x := range q2 {
						c.expect(3+k+i, 0, probes[x].s, probes[x].w)
					}
				})
			}
		}
	}
}
