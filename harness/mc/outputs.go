package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	table "github.com/ilius/go-table"

	"verifmc/ref"
)

// Outputs of several kinds: what they offer besides Write must not matter.

type plainOut struct{ *faulty }

func (o plainOut) Write(p []byte) (int, error) { return o.faulty.Write(p) }

type stringOut struct{ plainOut }

func (o stringOut) WriteString(s string) (int, error) { return o.faulty.Write([]byte(s)) }

type byteOut struct{ stringOut }

func (o byteOut) WriteByte(b byte) error { _, err := o.faulty.Write([]byte{b}); return err }
func (o byteOut) WriteRune(r rune) (int, error) {
	return o.faulty.Write([]byte(string(r)))
}

type fileOut struct{ stringOut }

func (o fileOut) Sync() error  { return nil }
func (o fileOut) Flush() error { return nil }
func (o fileOut) Close() error { return nil }
func (o fileOut) Fd() uintptr  { return 1 }
func (o fileOut) Name() string { return "out" }

type readerFrom struct{ plainOut }

func (o readerFrom) ReadFrom(r io.Reader) (n int64, err error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	k, err := o.faulty.Write(b)
	return int64(k), err
}

var outKinds = []struct {
	name string
	wrap func(f *faulty) io.Writer
}{
	{"Write only", func(f *faulty) io.Writer { return plainOut{f} }},
	{"with WriteString", func(f *faulty) io.Writer { return stringOut{plainOut{f}} }},
	{"with WriteString, WriteByte, WriteRune", func(f *faulty) io.Writer { return byteOut{stringOut{plainOut{f}}} }},
	{"with Sync, Flush, Close", func(f *faulty) io.Writer { return fileOut{stringOut{plainOut{f}}} }},
	{"with ReadFrom", func(f *faulty) io.Writer { return readerFrom{plainOut{f}} }},
	{"io.MultiWriter", func(f *faulty) io.Writer { return io.MultiWriter(plainOut{f}, io.Discard) }},
	{"buffered, small", func(f *faulty) io.Writer { return bufio.NewWriterSize(plainOut{f}, 16) }},
	{"buffered", func(f *faulty) io.Writer { return bufio.NewWriter(plainOut{f}) }},
}

// outLayouts are some merge calls.
func outLayouts(f func(l *lay)) {
	for nc := 1; nc <= 2; nc++ {
		for _, n := range []int{0, 1, 2, 3, 7, 40} {
			ws := make([][]int, n)
			cells := make([][]string, n)
			cw := make([]int, nc)
			for i := range ws {
				for j := 0; j < nc; j++ {
					x := 4 + (i*5+j)%6
					ws[i] = append(ws[i], x)
					cells[i] = append(cells[i], bigText(i, j, x))
					if x > cw[j] {
						cw[j] = x
					}
				}
			}
			for _, max := range []int{0, 25, 45} {
				for m := 0; m < 4; m++ {
					f(&lay{big: true, Layout: ref.Layout{ColW: cw, Al: []int{ref.AlRight, ref.AlNil}[:nc], Cells: cells, W: ws, Sep: " ", Max: max, Compact: m&1 == 1, Vertical: m&2 == 2}})
				}
			}
		}
	}
}

func mergeTo(t *table.Table, out io.Writer, items list, l *lay) {
	if l.Vertical {
		t.MergeRowsVertical(out, items, l.Max, l.Sep, l.Compact)
	} else {
		t.MergeRowsHorizontal(out, items, l.Max, l.Sep, l.Compact)
	}
}

// failingOutputs: every kind of output, failing at every byte of short outputs and near
// every line of longer ones.
func failingOutputs(r *Run) {
	r.Phase("kinds of outputs")
	outLayouts(func(l *lay) {
		size := c13size(l)
		full, have := "", false
		for at := 0; at <= size; at++ {
			if size > 300 && at%11 > 1 {
				continue
			}
			for ki, k := range outKinds {
				for style := 0; style < 4; style++ {
					if !r.Want() {
						continue
					}
					r.State()
					werr := outErrs[(at+ki+style)%len(outErrs)]
					r.Do(func() string {
						return fmt.Sprintf("output %s fails at byte %d, style %d, with %v: %s", k.name, at, style, werr, l.desc())
					}, func(c *C) {
						t, items := l.build(c)
						if !have {
							full, have = mergeStr(t, items, l.Vertical, l.Max, l.Sep, l.Compact), true
						}
						f := &faulty{at: at, style: style % 3, once: style == 3, err: werr}
						out := k.wrap(f)
						flushed := false
						p := Try(func() { mergeTo(t, out, items, l) })
						c.Op(1)
						if b, ok := out.(*bufio.Writer); ok && p == nil {
							if err := b.Flush(); err != nil {
								p, flushed = err, true // not lost: the caller learns of it
							}
						}
						c.Nontrivial(f.failed)
						c.OutcomeN(at*8 + ki)
						switch {
						case !f.failed && p != nil:
							c.Fail("panic %v without a write error", p)
						case !f.failed && string(f.got) != full:
							c.Fail("received %s, want %s", q(string(f.got)), q(full))
						case f.failed && p == nil:
							c.Fail("the write error was swallowed")
						case f.failed && !isErr(p, werr):
							c.Fail("panic value %v is not the output's error %v (flushed %v)", p, werr, flushed)
						case f.after > 0:
							c.Fail("%d more writes after the failure", f.after)
						case !strings.HasPrefix(full, string(f.got)):
							c.Fail("accepted %s is no prefix of %s", q(string(f.got)), q(full))
						}
					})
				}
			}
		}
	})
	r.Phase("files and pipes")
	outLayouts(func(l *lay) {
		for k := 0; k < 5; k++ {
			if !r.Want() {
				continue
			}
			r.State()
			r.Do(func() string {
				return fmt.Sprintf("%s: %s", []string{"full device", "closed file", "pipe without reader", "io.Pipe closed by its reader", "file opened for reading"}[k], l.desc())
			}, func(c *C) {
				t, items := l.build(c)
				full := mergeStr(t, items, l.Vertical, l.Max, l.Sep, l.Compact)
				var out io.Writer
				var wants []error
				switch k {
				case 0:
					f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
					if err != nil {
						return // no such device here
					}
					defer f.Close()
					out, wants = f, []error{syscall.ENOSPC}
				case 1:
					f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
					must(err)
					must(f.Close())
					out, wants = f, []error{os.ErrClosed}
				case 2:
					pr, pw, err := os.Pipe()
					must(err)
					must(pr.Close())
					defer pw.Close()
					out, wants = pw, []error{syscall.EPIPE}
				case 3:
					pr, pw := io.Pipe()
					pr.CloseWithError(errDisk)
					out, wants = pw, []error{errDisk}
				case 4:
					f, err := os.Open(os.DevNull)
					must(err)
					defer f.Close()
					out, wants = f, []error{syscall.EBADF}
				}
				p := Try(func() { mergeTo(t, out, items, l) })
				c.Op(1)
				c.Nontrivial(full != "")
				c.OutcomeN(k)
				if full == "" {
					if p != nil {
						c.Fail("panic %v although there is nothing to write", p)
					}
					return
				}
				e, ok := p.(error)
				if !ok || !errors.Is(e, wants[0]) {
					c.Fail("panic value %v, want an error that is %v", p, wants[0])
				}
			})
		}
	})
}

// isErr: the panic value is the very error.
func isErr(p any, want error) bool {
	e, ok := p.(error)
	return ok && sameErr(e, want)
}

// workingOutputs: every kind of output receives the same bytes.
func workingOutputs(r *Run) {
	r.Phase("kinds of outputs")
	outLayouts(func(l *lay) {
		if !r.Want() {
			return
		}
		r.State()
		r.Do(func() string { return "outputs of 11 kinds: " + l.desc() }, func(c *C) {
			t, items := l.build(c)
			full := mergeStr(t, items, l.Vertical, l.Max, l.Sep, l.Compact)
			c.Nontrivial(full != "")
			see := func(name, got string) {
				c.Op(1)
				if got != full {
					c.Fail("output %s received %s, a strings.Builder %s", name, q(got), q(full))
				}
			}
			for _, k := range outKinds {
				f := &faulty{at: 1 << 30}
				out := k.wrap(f)
				mergeTo(t, out, items, l)
				if b, ok := out.(*bufio.Writer); ok {
					b.Flush()
				}
				see(k.name, string(f.got))
			}
			var b bytes.Buffer
			b.WriteString("before ")
			mergeTo(t, &b, items, l)
			see("bytes.Buffer", strings.TrimPrefix(b.String(), "before "))
			pr, pw := io.Pipe()
			ch := make(chan string)
			go func() {
				x, _ := io.ReadAll(pr)
				ch <- string(x)
			}()
			if p := Try(func() { mergeTo(t, pw, items, l) }); p != nil {
				c.Fail("io.Pipe: panic %v", p)
			}
			pw.Close()
			see("io.Pipe", <-ch)
			f, err := os.CreateTemp("", "out")
			must(err)
			defer os.Remove(f.Name())
			defer f.Close()
			mergeTo(t, f, items, l)
			x, err := os.ReadFile(f.Name())
			must(err)
			see("file", string(x))
			c.OutcomeN(len(full))
		})
	})
}
