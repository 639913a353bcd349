package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"reflect"
	"strings"
	"time"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

// names that code may confuse with one another
var trickyNames = []string{
	"", " ", "a", "A", "a ", " a", "a\t", "a\n", "\uff41", "\u00e9", "e\u0301", "a.b", "a-b", "a_b", "ab", "名", "\xff", "\xfe", "\ufffd", "\x1b[1ma\x1b[0m",
	"a\x00", "a\x00b", "0", "1", "nil", "*", "%s", "%d",
	strings.Repeat("n", 40), strings.Repeat("n", 41), strings.Repeat("n", 300) + "x", strings.Repeat("n", 300) + "y",
}

// lengths at which code may change its mind: all small ones and the surroundings of round
// numbers
func roundLengths(dense, max int) (out []int) {
	for n := 0; n <= dense; n++ {
		out = append(out, n)
	}
	seen := map[int]bool{}
	add := func(n int) {
		for d := -1; d <= 1; d++ {
			if n+d > dense && n+d <= max && !seen[n+d] {
				seen[n+d] = true
				out = append(out, n+d)
			}
		}
	}
	for p := 1; p <= max; p *= 2 {
		add(p)
	}
	for p := 10; p <= max; p *= 10 {
		add(p)
		add(2 * p)
		add(3 * p)
		add(5 * p)
	}
	return out
}

// ---- C04: names, sizes, long histories ----

func c04names(r *Run) {
	r.Phase("names that look alike")
	for _, a := range trickyNames {
		for _, b := range trickyNames {
			if a == b || !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("columns %q and %q", a, b) }, func(c *C) {
				c.Nontrivial(true)
				spec := table.NewTableSpec()
				spec.AddColumn(&table.Column{Name: a, Getter: cellGetter{0}})
				t := table.NewTable(spec)
				want := map[string]int{}
				see := func(step string) bool {
					c.Op(1)
					for _, n := range trickyNames {
						if got := int(t.Width(n)); got != want[n] {
							c.Fail("%s: width of %q is %d, want %d", step, n, got, want[n])
							return false
						}
					}
					return true
				}
				format := func(cells ...string) bool {
					if _, err := t.FormatItem(cells); err != nil {
						c.Fail("%v", err)
						return false
					}
					return true
				}
				if !format("abc") {
					return
				}
				want[a] = 3
				if !see("one column formatted") {
					return
				}
				t.UpdateWidth(map[string]uint16{b: 5}) // not a column yet
				want[b] = 5
				if !see("width merged for a name without column") {
					return
				}
				spec.AddColumn(&table.Column{Name: b, Getter: cellGetter{1}})
				if !see("second column added") || !format("ab", "世世世世") {
					return
				}
				want[b] = 8
				if !see("two columns formatted") {
					return
				}
				t.UpdateWidth(map[string]uint16{a: 9, b: 2})
				want[a] = 9
				see("widths merged")
				c.Outcome(a + b)
			})
		}
	}
}

func c04sizes(r *Run) {
	r.Phase("cells of every length")
	for _, n := range roundLengths(1200, 70000) {
		for k := 0; k < 3; k++ {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("a cell of %d characters of kind %d, after and before others", n, k) }, func(c *C) {
				c.Nontrivial(n > 0)
				s := strings.Repeat([]string{"x", "世", "\x1b[1mx\x1b[0m"}[k], n)
				w := ref.Cap(n * []int{1, 2, 1}[k])
				t := table.NewTable(nil)
				t.AddColumn(&table.Column{Name: "c", Getter: cellGetter{0}})
				t.AddColumn(&table.Column{Name: "d", Getter: cellGetter{1}, Alignment: table.AlignmentRight})
				m, md := 0, 0
				for i, it := range [][]string{{"", s}, {s, "ab"}, {"abc", ""}, {s, s}} {
					if _, err := t.FormatItem(it); err != nil {
						c.Fail("%v", err)
						return
					}
					c.Op(1)
					x, xd := []int{0, w, 3, w}[i], []int{w, 2, 0, w}[i]
					if x > m {
						m = x
					}
					if xd > md {
						md = xd
					}
					if int(t.Width("c")) != m || int(t.Width("d")) != md {
						c.Fail("after item %d the widths are %d, %d, want %d, %d", i, t.Width("c"), t.Width("d"), m, md)
						return
					}
				}
				c.OutcomeN(w)
			})
		}
	}

	r.Phase("every width merged")
	for lo := 0; lo < 65536; lo += 256 {
		if !r.Want() {
			continue
		}
		r.State()
		r.Do(func() string {
			return fmt.Sprintf("widths %d..%d merged, each into a new table and around it", lo, lo+255)
		}, func(c *C) {
			c.Nontrivial(true)
			for w := lo; w < lo+256; w++ {
				t := table.NewTable(nil)
				t.AddColumn(&table.Column{Name: "c", Getter: cellGetter{0}})
				m := 0
				for _, v := range []int{w - 1, w, w + 1, w - 1, 0} {
					if v < 0 || v > 65535 {
						continue
					}
					if v > m {
						m = v
					}
					t.UpdateWidth(map[string]uint16{"c": uint16(v)})
					c.Op(1)
					if int(t.Width("c")) != m {
						c.Fail("after merging %d the width is %d, want %d", v, t.Width("c"), m)
						return
					}
				}
				if _, err := t.FormatItem([]string{"abcd"}); err != nil {
					c.Fail("%v", err)
					return
				}
				if m < 4 {
					m = 4
				}
				if int(t.Width("c")) != m {
					c.Fail("merging %d, then formatting four cells: width %d, want %d", w, t.Width("c"), m)
					return
				}
			}
		})
	}

	r.Phase("many widths merged at once")
	for _, n := range append(roundLengths(70, 1025), 5000) {
		for k := 0; k < 4; k++ {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string {
				return fmt.Sprintf("%d widths merged at once, three times, table of kind %d", n, k)
			}, func(c *C) {
				c.Nontrivial(n > 1)
				t := table.NewTable(nil)
				want := map[string]int{}
				if k&1 == 1 {
					t.AddColumn(&table.Column{Name: "n0", Getter: cellGetter{0}})
					t.AddColumn(&table.Column{Name: "n1", Getter: cellGetter{1}})
				}
				if k&2 == 2 {
					t.UpdateWidth(map[string]uint16{"n0": 5, "n2": 9, "other": 3})
					want["n0"], want["n2"], want["other"] = 5, 9, 3
				}
				other := table.NewTable(t.TableSpec)
				for round := 0; round < 3; round++ {
					u := map[string]uint16{}
					for i := 0; i < n; i++ {
						name, w := fmt.Sprint("n", i), (i*3+round*2)%11
						u[name] = uint16(w)
						if w > want[name] {
							want[name] = w
						}
					}
					t.UpdateWidth(u)
					c.Op(1)
					if len(u) != n {
						c.Fail("the caller's map was changed")
						return
					}
					for x := range u {
						u[x] = 50000 // the table must not keep the caller's map
					}
					u["late"] = 7
					for i := -1; i <= n; i++ {
						name := fmt.Sprint("n", i)
						if got := int(t.Width(name)); got != want[name] {
							c.Fail("round %d: width of %q is %d, want %d", round, name, got, want[name])
							return
						}
						if other.Width(name) != 0 {
							c.Fail("round %d: another table on the specification got a width", round)
							return
						}
					}
					if int(t.Width("other")) != want["other"] || t.Width("late") != 0 {
						c.Fail("round %d: other names changed", round)
						return
					}
				}
				if k&1 == 1 {
					if _, err := t.FormatItem([]string{"thirteen char", ""}); err != nil || t.Width("n0") != 13 || int(t.Width("n1")) != want["n1"] {
						c.Fail("after formatting: widths %d, %d, error %v", t.Width("n0"), t.Width("n1"), err)
					}
				}
				c.OutcomeN(n)
			})
		}
	}

	r.Phase("long histories")
	for _, n := range roundLengths(r.Pick(300, 1500), r.Pick(20001, 200001)) {
		for k := 0; k < 3; k++ {
			if n > 300 && k > 0 || !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("%d narrow items, one wide item, kind %d", n, k) }, func(c *C) {
				c.Nontrivial(true)
				t := table.NewTable(nil)
				t.AddColumn(&table.Column{Name: "c", Getter: cellGetter{0}})
				t.AddColumn(&table.Column{Name: "d", Getter: cellGetter{1}})
				narrow := [][]string{{"ab", "世"}, {"", "x"}, {"cd", ""}}
				m, md := 0, 0
				for i := 0; i < n; i++ {
					var it []string
					switch k {
					case 0:
						it = narrow[i%3]
					case 1: // all different
						it = []string{fmt.Sprintf("%06d", i), ""}
					case 2: // growing
						it = []string{strings.Repeat("g", i%7), strings.Repeat("h", i/3)}
					}
					if _, err := t.FormatItem(it); err != nil {
						c.Fail("%v", err)
						return
					}
					if w := ref.Visible(r.Cfg, it[0]); w > m {
						m = w
					}
					if w := ref.Visible(r.Cfg, it[1]); w > md {
						md = w
					}
					if int(t.Width("c")) != m || int(t.Width("d")) != md {
						c.Fail("after %d items the widths are %d, %d, want %d, %d", i+1, t.Width("c"), t.Width("d"), m, md)
						return
					}
				}
				if _, err := t.FormatItem([]string{"wider than all", strings.Repeat("世", 600)}); err != nil {
					c.Fail("%v", err)
					return
				}
				c.Op(n + 1)
				if m < 14 {
					m = 14
				}
				if md < 1200 {
					md = 1200
				}
				if int(t.Width("c")) != m || int(t.Width("d")) != md {
					c.Fail("after %d items and a wide one the widths are %d, %d, want %d, %d", n, t.Width("c"), t.Width("d"), m, md)
				}
			})
		}
	}

	r.Phase("many tables on one specification")
	for _, n := range []int{2, 3, 10, 100, 1000} {
		r.Case(func() string { return fmt.Sprintf("%d tables", n) }, func(c *C) {
			c.Nontrivial(true)
			spec := table.NewTableSpec()
			spec.AddColumn(&table.Column{Name: "c", Getter: cellGetter{0}})
			var ts []*table.Table
			want := make([]int, n)
			for i := 0; i < n; i++ {
				ts = append(ts, table.NewTable(spec))
			}
			for round := 0; round < 3; round++ {
				for i, t := range ts {
					w := (i*7 + round*11) % 97
					if _, err := t.FormatItem([]string{strings.Repeat("w", w)}); err != nil {
						c.Fail("%v", err)
						return
					}
					if w > want[i] {
						want[i] = w
					}
					c.Op(1)
				}
				for i, t := range ts {
					if int(t.Width("c")) != want[i] {
						c.Fail("round %d: table %d has width %d, want %d", round, i, t.Width("c"), want[i])
						return
					}
				}
			}
		})
	}
}

// ---- C05: kinds of items, values, texts, errors; changes between calls ----

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, ",") }

type ptrErr struct{}

func (e *ptrErr) Error() string { return "nil or not" }

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

func someErrors() []error {
	return []error{
		errors.New("plain"), errors.New(""), io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, fs.ErrNotExist, os.ErrPermission, os.ErrDeadlineExceeded,
		context.Canceled, context.DeadlineExceeded, fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", fs.ErrNotExist),
		errors.Join(io.EOF, fs.ErrNotExist), sliceErr{"a", "b"}, sliceErr(nil), (*ptrErr)(nil), &ptrErr{}, emptyErr{}, errors.ErrUnsupported,
		&os.PathError{Op: "open", Path: "x", Err: fs.ErrNotExist},
	}
}

func sameErr(a, b error) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a != nil && reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

type stringer struct{ s string }

func (s stringer) String() string { return "String() of " + s.s }

func someValues() []any {
	now := time.Unix(1700000000, 0).UTC()
	p := 7
	return []any{
		nil, "", "text", " text ", 0, 1, -1, int64(math.MinInt64), uint8(255), 1.5, math.NaN(), math.Inf(1), true, false, 'x', 2i,
		[]string(nil), []string{"a"}, []byte("bytes"), map[string]int(nil), map[string]int{"k": 1}, struct{}{}, &struct{}{}, (*int)(nil), &p,
		func() {}, (func())(nil), make(chan int), now, &now, time.Second, errors.New("an error as value"), stringer{"x"}, &stringer{"y"},
		[]any{1, nil}, [2]int{1, 2}, reflect.TypeOf(0), io.EOF, (*ptrErr)(nil), error(nil), record{"x"},
	}
}

type record struct{ A string }

// identical tells whether two dynamic values are the same, without calling anything.
func identical(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.Func, reflect.Map, reflect.Pointer, reflect.Chan:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Pointer() == vb.Pointer() && va.Len() == vb.Len()
	case reflect.Float64:
		return math.Float64bits(va.Float()) == math.Float64bits(vb.Float())
	}
	return reflect.DeepEqual(a, b)
}

// funcGetter calls what it is given.
type funcGetter struct {
	value  func(item any) (any, error)
	str    func(name string, item any) (string, error)
	format func(item, v any) (string, error)
}

func (g *funcGetter) Value(item any) (any, error)                       { return g.value(item) }
func (g *funcGetter) ValueString(name string, item any) (string, error) { return g.str(name, item) }
func (g *funcGetter) Format(item any, v any) (string, error)            { return g.format(item, v) }

func c05kinds(r *Run) {
	values := someValues()
	r.Phase("kinds of items and values")
	types := []reflect.Type{nil, reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(time.Time{}), reflect.TypeOf((*error)(nil)).Elem()}
	for ii := range values {
		for vi := range values {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string {
				return fmt.Sprintf("item of type %T (kind %d), values of type %T (kind %d) and others", values[ii], ii, values[vi], vi)
			}, func(c *C) {
				c.Nontrivial(true)
				item := values[ii]
				problem := ""
				see := func(what string, got, want any) {
					if !identical(got, want) {
						problem = fmt.Sprintf("%s: got %T %v, want %T %v", what, got, got, want, want)
					}
				}
				for _, typ := range types {
					t := table.NewTable(nil)
					if vi%2 == 1 {
						t.TimeFormat = "2006-01-02"
					}
					for j := 0; j < 3; j++ {
						v := values[(vi+j*5)%len(values)]
						text := fmt.Sprint("cell", j)
						name := []string{"x", "y", "x"}[j]
						g := &funcGetter{
							value: func(it any) (any, error) { see("item of value", it, item); return v, nil },
							str: func(n string, it any) (string, error) {
								see("item of plain string", it, item)
								see("name", n, name)
								return text, nil
							},
							format: func(it, got any) (string, error) {
								see("item of formatting", it, item)
								see("value", got, v)
								return text, nil
							},
						}
						t.AddColumn(&table.Column{Name: name, Type: typ, Getter: g, Alignment: alignment((j + ii) % ref.NAl)})
					}
					f, err := t.FormatItem(item)
					c.Op(1)
					if problem != "" || err != nil || len(f) != 3 || f[0] != "cell0" || f[1] != "cell1" || f[2] != "cell2" {
						c.Fail("column type %v: cells %q, %v; %s", typ, f, err, problem)
						return
					}
					b, err := t.FormatItemBasic(item, ";")
					c.Op(1)
					if problem != "" || err != nil || b != "cell0;cell1;cell2" {
						c.Fail("column type %v: basic %q, %v; %s", typ, b, err, problem)
						return
					}
				}
				c.OutcomeN(ii*100 + vi)
			})
		}
	}

	r.Phase("kinds of errors")
	errs := someErrors()
	for ei, e := range errs {
		for at := 0; at < 3; at++ {
			for step := 0; step < 3; step++ { // value, format, plain string
				for junk := 0; junk < 2; junk++ { // returned along with the error
					for later := 0; later < 3; later++ { // no later error, one in the next column, the same step of every column
						if !r.Want() {
							continue
						}
						r.State()
						r.Do(func() string {
							return fmt.Sprintf("column %d of 3 fails in step %d with error %d (%T), result along with it: %d, later failures: %d", at, step, ei, e, junk, later)
						}, func(c *C) {
							c.Nontrivial(true)
							t := table.NewTable(nil)
							for j := 0; j < 3; j++ {
								errAt := func(s int) error {
									if j == at && s == step {
										return e
									}
									if j > at && later == 1 && j == at+1 || j > at && later == 2 && s == step {
										return errors.New("a later error")
									}
									return nil
								}
								t.AddColumn(&table.Column{Name: fmt.Sprint(j), Alignment: alignment((j + at) % ref.NAl), Getter: &funcGetter{
									value: func(any) (any, error) {
										if junk == 1 {
											return "junk", errAt(0)
										}
										return nil, errAt(0)
									},
									format: func(_, v any) (string, error) {
										if junk == 1 {
											return "junk", errAt(1)
										}
										return "", errAt(1)
									},
									str: func(string, any) (string, error) {
										if junk == 1 {
											return "junk", errAt(2)
										}
										return "", errAt(2)
									},
								}})
							}
							c.Op(1)
							if step < 2 {
								f, err := t.FormatItem("item")
								if !sameErr(err, e) || len(f) != 0 {
									c.Fail("cells %q, error %T %v, want the error %T %v", f, err, err, e, e)
								}
							} else {
								s, err := t.FormatItemBasic("item", "|")
								if !sameErr(err, e) || s != "" {
									c.Fail("text %q, error %T %v, want the error %T %v", s, err, err, e, e)
								}
							}
							c.OutcomeN(ei)
						})
					}
				}
			}
		}
	}

	r.Phase("texts and names")
	texts := []string{"", " ", "  two  ", "\t", "line\nline", "\r\n", "a\x00b", "\xff\xfe", "\ufeffbom", "e\u0301", "é", "\x1b[1mx\x1b[0m", "\x1b", "%s %d %", "\"quoted\"", "a,b", "<nil>", "nil", "世界", "👩\u200d🍳", "1e3", "0", "-0", "NaN", "true", "\\n", strings.Repeat("long ", 1000), strings.Repeat("世", 40000)}
	for ti := range texts {
		for ni := range trickyNames {
			for si, sep := range []string{"", ",", "\n", "%s", "a,b", "\xff", strings.Repeat("=", 300)} {
				if (ti+ni+si)%3 != 0 && ti > 3 && ni > 4 || !r.Want() {
					continue
				}
				r.State()
				r.Do(func() string {
					return fmt.Sprintf("texts from %q on, names from %q on, separator %q", clip(texts[ti]), trickyNames[ni], sep)
				}, func(c *C) {
					c.Nontrivial(true)
					t := table.NewTable(nil)
					var want []string
					problem := ""
					for j := 0; j < 4; j++ {
						text, name := texts[(ti+j*j)%len(texts)], trickyNames[(ni+j)%len(trickyNames)]
						want = append(want, text)
						col := &table.Column{Name: name, Alignment: alignment((j + ti) % ref.NAl)}
						if (ti+ni)%3 > 0 {
							col.Title, col.ShortTitle = fmt.Sprint("Title ", j), "short"
						}
						t.AddColumn(col)
						col.Getter = &funcGetter{
							value:  func(any) (any, error) { return j, nil },
							format: func(_, v any) (string, error) { return text, nil },
							str: func(n string, _ any) (string, error) {
								if n != name {
									problem = fmt.Sprintf("plain string of %q requested as %q", name, n)
								}
								return text, nil
							},
						}
					}
					f, err := t.FormatItem(1)
					c.Op(2)
					if err != nil || !reflect.DeepEqual(f, want) {
						c.Fail("cells %s, %v, want %s", q(fmt.Sprint(f)), err, q(fmt.Sprint(want)))
						return
					}
					s, err := t.FormatItemBasic(1, sep)
					if err != nil || s != strings.Join(want, sep) || problem != "" {
						c.Fail("basic %s, %v, want %s; %s", q(s), err, q(strings.Join(want, sep)), problem)
					}
				})
			}
		}
	}

	r.Phase("things that change between calls")
	// operations between two formatting calls: each sequence of them, always compared with
	// what the getters say now
	type it struct{ s string }
	words(6, r.Pick(5, 6), func(w []int) {
		if !r.Want() {
			return
		}
		r.State()
		seq := append([]int(nil), w...)
		r.Do(func() string {
			return fmt.Sprintf("operations %v (0 change the item, 1 another equal item, 2 getters answer differently, 3 exchange a getter, 4 add a column, 5 another item)", seq)
		}, func(c *C) {
			c.Nontrivial(len(seq) > 1)
			item := &it{"s"}
			gen := 0
			mk := func(mark string) *funcGetter {
				txt := func(item any) string { return fmt.Sprint(mark, gen, item.(*it).s) }
				return &funcGetter{
					value:  func(item any) (any, error) { return txt(item), nil },
					format: func(_, v any) (string, error) { return v.(string), nil },
					str:    func(_ string, item any) (string, error) { return txt(item), nil },
				}
			}
			spec := table.NewTableSpec()
			marks := []string{"p", "q"}
			spec.AddColumn(&table.Column{Name: "p", Getter: mk("p")})
			spec.AddColumn(&table.Column{Name: "q", Getter: mk("q"), Alignment: table.AlignmentRight})
			t := table.NewTable(spec)
			for step := -1; step < len(seq); step++ {
				if step >= 0 {
					switch seq[step] {
					case 0:
						item.s += "x"
					case 1:
						item = &it{item.s}
					case 2:
						gen++
					case 3:
						spec.Columns[0].Getter = mk("r")
						marks[0] = "r"
					case 4:
						n := fmt.Sprint("c", len(marks))
						spec.AddColumn(&table.Column{Name: n, Getter: mk(n)})
						marks = append(marks, n)
					case 5:
						item = &it{"other"}
					}
				}
				var want []string
				for _, m := range marks {
					want = append(want, fmt.Sprint(m, gen, item.s))
				}
				f, err := t.FormatItem(item)
				c.Op(2)
				if err != nil || !reflect.DeepEqual(f, want) {
					c.Fail("step %d: cells %q, %v, want %q", step, f, err, want)
					return
				}
				s, err := t.FormatItemBasic(item, ",")
				if err != nil || s != strings.Join(want, ",") {
					c.Fail("step %d: basic %q, %v, want %q", step, s, err, strings.Join(want, ","))
					return
				}
				if len(f) > 0 {
					f[0] = "overwritten by the caller"
				}
			}
		})
	})
}

// ---- C06 ----

func c06more(r *Run) {
	r.Phase("names, spare capacity and changed columns")
	for _, a := range trickyNames {
		for _, b := range trickyNames {
			if a == b || !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("columns %q and %q", a, b) }, func(c *C) {
				c.Nontrivial(true)
				t := table.NewTable(nil)
				ca := &table.Column{Name: a, Alignment: table.AlignmentRight}
				cb := &table.Column{Name: b, Alignment: table.AlignmentCenter}
				t.AddColumn(ca)
				t.AddColumn(cb)
				t.UpdateWidth(map[string]uint16{a: 3, b: 6})
				back := []string{"x", "世", "spare", "spare"}
				out, err := t.AlignFormattedItem(back[:2])
				c.Op(1)
				if err != nil || len(out) != 2 || out[0] != "  x" || out[1] != "  世  " || back[2] != "spare" || back[3] != "spare" {
					c.Fail("aligned %q, %v; slice behind it %q", out, err, back)
					return
				}
				ca.Alignment, cb.Alignment = table.AlignmentLeft, nil
				t.UpdateWidth(map[string]uint16{a: 4})
				out, err = t.AlignFormattedItem([]string{"y", "z"})
				c.Op(1)
				if err != nil || len(out) != 2 || out[0] != "y   " || out[1] != "z" {
					c.Fail("after changing the alignments: aligned %q, %v", out, err)
					return
				}
				t.AddColumn(&table.Column{Name: a, Alignment: table.AlignmentRight})
				row := []string{"y", "z"}
				if _, err = t.AlignFormattedItem(row); err == nil || row[0] != "y" || row[1] != "z" {
					c.Fail("two cells for three columns: %q, %v", row, err)
					return
				}
				out, err = t.AlignFormattedItem([]string{"y", "z", "v"})
				c.Op(2)
				if err != nil || len(out) != 3 || out[0] != "y   " || out[1] != "z" || out[2] != "   v" {
					c.Fail("after adding a column: aligned %q, %v", out, err)
				}
				c.Outcome(a + b)
			})
		}
	}
}

// ---- C07 ----

func c07more(r *Run) {
	r.Phase("titles of every length")
	for _, n := range roundLengths(r.Pick(400, 1200), 65535) {
		for k := 0; k < 4; k++ {
			if n > 2000 && k == 1 || !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("titles of %d and about %d characters, kind %d", n, n/2, k) }, func(c *C) {
				c.Nontrivial(true)
				unit := []string{"t", "世", "\x1b[1mt\x1b[0m", "é"}[k]
				title := strings.Repeat(unit, n)
				wt := ref.Cap(ref.Visible(r.Cfg, unit) * n)
				for _, sn := range []int{0, n / 2, n, n + 1} {
					short := strings.Repeat("s", sn)
					seen := map[int]bool{}
					for _, w := range []int{1, sn - 1, sn, sn + 1, wt - 1, wt, wt + 1} {
						if w < 1 || w > 65535 || seen[w] {
							continue
						}
						seen[w] = true
						t := table.NewTable(nil)
						t.AddColumn(&table.Column{Name: "c", Title: title, ShortTitle: short})
						t.UpdateWidth(map[string]uint16{"c": uint16(w)})
						v, vw := title, wt
						if vw > w {
							v, vw = short, ref.Cap(sn)
						}
						if vw > w {
							v, vw = "", 0
						}
						want := ref.Pad(ref.AlCenter, v, vw, w) + "|\n"
						c.Op(1)
						if got := t.FormatHeader("|"); got != want {
							c.Fail("short title of %d, width %d: header %s, want %s", sn, w, q(got), q(want))
							return
						}
					}
				}
				c.OutcomeN(n)
			})
		}
	}

	r.Phase("names and changed titles")
	for _, a := range trickyNames {
		for _, b := range trickyNames {
			if a == b || !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("columns %q and %q", a, b) }, func(c *C) {
				c.Nontrivial(true)
				t := table.NewTable(nil)
				ca := &table.Column{Name: a, Title: "alpha", ShortTitle: "al"}
				cb := &table.Column{Name: b, Title: "beta", ShortTitle: "b"}
				t.AddColumn(ca)
				t.AddColumn(cb)
				see := func(step, want string) bool {
					c.Op(1)
					if got := t.FormatHeader("|"); got != want {
						c.Fail("%s: header %q, want %q", step, got, want)
						return false
					}
					return true
				}
				if !see("no widths", "alpha|beta|\n") {
					return
				}
				t.UpdateWidth(map[string]uint16{a: 3})
				if !see("one width", " al|beta|\n") {
					return
				}
				t.UpdateWidth(map[string]uint16{b: 6})
				if !see("two widths", " al| beta |\n") {
					return
				}
				ca.Title, cb.Title, cb.ShortTitle = "xyz", "much too long", ""
				see("titles changed", "xyz|      |\n")
				c.Outcome(a + b)
			})
		}
	}
}

// ---- C14 ----

func c14more(r *Run, tabs []*c14table) {
	r.Phase("many repetitions")
	n := r.Pick(300, 3000)
	for ti, ts := range tabs {
		for oi, o := range c14ops {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string {
				return fmt.Sprintf("table %d %s: %s, %d times", ti, q(fmt.Sprint(ts.items)), o.name, n)
			}, func(c *C) {
				c.Nontrivial(true)
				t, l, backing := ts.build()
				snap, colSnap := fmt.Sprintf("%q", backing), snapSpec(t)
				first := o.f(t, l)
				for i := 1; i < n; i++ {
					if got := o.f(t, l); got != first {
						c.Fail("call %d gives %s, the first gave %s", i+1, q(got), q(first))
						return
					}
				}
				c.Op(n)
				for _, p := range c14ops { // and everything else is as on a fresh table
					bt, bl, _ := ts.build()
					if got, want := p.f(t, l), p.f(bt, bl); got != want {
						c.Fail("afterwards %s gives %s instead of %s", p.name, q(got), q(want))
						return
					}
				}
				if s := fmt.Sprintf("%q", backing); s != snap {
					c.Fail("items changed to %s", q(s))
				}
				if s := snapSpec(t); s != colSnap {
					c.Fail("columns or widths changed to %s", s)
				}
				c.OutcomeN(oi)
			})
		}
	}

	r.Phase("long lists and long texts")
	for _, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200, 256, 257, 400, 1000, 1025} {
		for k := 0; k < 3; k++ {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("%d items of kind %d, every operation twice", n, k) }, func(c *C) {
				c.Nontrivial(true)
				ts := &c14table{cols: []int{(k + 2) % ref.NAl, k}, spare: 1}
				for i := 0; i < n; i++ {
					s := fmt.Sprint("i", i*i)
					if k == 1 && i%5 == 0 {
						s = strings.Repeat("世", i%40)
					}
					if k == 2 && i == n-1 {
						s = strings.Repeat("long", 300)
					}
					ts.items = append(ts.items, []string{s, strings.Repeat("y", i%4)})
				}
				t, l, backing := ts.build()
				snap, colSnap := fmt.Sprintf("%q", backing), snapSpec(t)
				var first []string
				for _, o := range c14ops {
					first = append(first, o.f(t, l))
				}
				for i, o := range c14ops {
					c.Op(2)
					if got := o.f(t, l); got != first[i] {
						c.Fail("%s repeated gives %s, first %s", o.name, q(got), q(first[i]))
						return
					}
				}
				if s := fmt.Sprintf("%q", backing); s != snap {
					c.Fail("items changed to %s", q(s))
				}
				if s := snapSpec(t); s != colSnap {
					c.Fail("columns or widths changed to %s", s)
				}
			})
		}
	}

	r.Phase("operations on equal tables, then changed")
	// What was rendered before must not show after the table, its titles or the list
	// changed: the result is that of a fresh table in the same state.
	for oi, o := range c14ops {
		for pi, p := range c14ops {
			for ch := 0; ch < 5; ch++ {
				if !r.Want() {
					continue
				}
				r.State()
				r.Do(func() string { return fmt.Sprintf("%s; change %d; %s", o.name, ch, p.name) }, func(c *C) {
					c.Nontrivial(true)
					mk := func(between bool) (string, string) {
						ts := &c14table{cols: []int{2, 0}, items: [][]string{{"a", "xx"}, {"bbb", "y"}, {"", "世"}, {"c", "z"}, {"dd", "e"}}}
						t, l, _ := ts.build()
						first := ""
						if between {
							first = o.f(t, l)
						}
						switch ch {
						case 0:
							t.UpdateWidth(map[string]uint16{"c0": 5})
						case 1:
							t.Columns[1].Title, t.Columns[0].ShortTitle = "No", ""
						case 2:
							l[1][0], l[2][1] = "bb!", "世界"
							for _, it := range l {
								if _, err := t.FormatItem([]string(it)); err != nil {
									panic(err)
								}
							}
						case 3:
							t.Columns[0].Alignment = table.AlignmentCenter
						case 4:
							l = append(l, []string{"new", "n"})
						}
						return first, p.f(t, l)
					}
					_, got := mk(true)
					_, want := mk(false)
					c.Op(2)
					if got != want {
						c.Fail("gives %s; without the first operation %s", q(got), q(want))
					}
					c.OutcomeN(oi*1000 + pi*10 + ch)
				})
			}
		}
	}
}

// ---- C21 ----

func c21names(r *Run) {
	r.Phase("names that look alike")
	for _, a := range trickyNames {
		for _, b := range trickyNames {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string { return fmt.Sprintf("columns %q, %q and the first again", a, b) }, func(c *C) {
				c.Nontrivial(a != b)
				spec := table.NewTableSpec()
				t := table.NewTable(spec)
				var cols []*table.Column
				for i, n := range []string{a, b, a} {
					col := &table.Column{Name: n, Title: fmt.Sprint(i)}
					spec.AddColumn(col)
					cols = append(cols, col)
					last := map[string]*table.Column{}
					for k, x := range cols {
						last[x.Name] = x
						if spec.Columns[k] != x {
							c.Fail("column %d is not the one added", k)
							return
						}
						if x.Title != fmt.Sprint(k) || x.Name != []string{a, b, a}[k] {
							c.Fail("column %d was changed: %q %q", k, x.Name, x.Title)
							return
						}
					}
					c.Op(1)
					if spec.ColumnCount() != len(cols) || len(spec.Columns) != len(cols) || len(spec.ColumnByName) != len(last) {
						c.Fail("%d columns, %d names; want %d, %d", spec.ColumnCount(), len(spec.ColumnByName), len(cols), len(last))
						return
					}
					for _, x := range trickyNames {
						if spec.HasColumn(x) != (last[x] != nil) || spec.ColumnByName[x] != last[x] {
							c.Fail("name %q known: %v, want %v", x, spec.HasColumn(x), last[x] != nil)
							return
						}
					}
				}
				t.UpdateWidth(map[string]uint16{a: 3})
				t.UpdateWidth(map[string]uint16{b: 5})
				want := 3 + 5 + 3 + 2*2
				if a == b {
					want = 15 + 4
				}
				if got := int(t.TableWidth(2)); got != want {
					c.Fail("total width %d, want %d", got, want)
				}
				c.Outcome(a + b)
			})
		}
	}
	r.Phase("the same column object")
	for n := 1; n <= 5; n++ {
		r.Case(func() string { return fmt.Sprintf("one column added %d times and to two specifications", n) }, func(c *C) {
			c.Nontrivial(true)
			col := &table.Column{Name: "c"}
			a, b := table.NewTableSpec(), table.NewTableSpec()
			ta, tb := table.NewTable(a), table.NewTable(b)
			for i := 1; i <= n; i++ {
				a.AddColumn(col)
				c.Op(1)
				if a.ColumnCount() != i || len(a.Columns) != i || a.Columns[i-1] != col {
					c.Fail("after %d additions %d columns", i, a.ColumnCount())
					return
				}
			}
			if b.ColumnCount() != 0 || b.HasColumn("c") {
				c.Fail("the other specification has %d columns", b.ColumnCount())
				return
			}
			b.AddColumn(col)
			ta.UpdateWidth(map[string]uint16{"c": 4})
			if int(ta.TableWidth(1)) != 4*n+n-1 || tb.TableWidth(1) != 0 {
				c.Fail("total widths %d and %d, want %d and 0", ta.TableWidth(1), tb.TableWidth(1), 4*n+n-1)
			}
		})
	}
	r.Phase("every margin and the cap")
	for m := 0; m < 65536; m += 64 {
		if !r.Want() {
			continue
		}
		r.State()
		r.Do(func() string { return fmt.Sprintf("margins %d..%d", m, m+63) }, func(c *C) {
			c.Nontrivial(true)
			for n := 0; n <= 4; n++ {
				for _, w := range []int{0, 1, 7, 300, 16384, 32767, 32768, 65535} {
					t := table.NewTable(nil)
					for j := 0; j < n; j++ {
						name := fmt.Sprint(j)
						t.AddColumn(&table.Column{Name: name})
						t.UpdateWidth(map[string]uint16{name: uint16(w)})
					}
					for x := m; x < m+64; x++ {
						want := n * w
						if n > 0 {
							want += (n - 1) * x
						}
						c.Op(1)
						if got := int(t.TableWidth(uint16(x))); got != ref.Cap(want) {
							c.Fail("%d columns of width %d, margin %d: %d, want %d", n, w, x, got, ref.Cap(want))
							return
						}
					}
				}
			}
		})
	}
}
