package p

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	goio "io"
	"math/rand"
	"os"
	goreflect "reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/tuple"

	"verif/h"
)

// faultReader delivers data in a scripted way, then a sticky error.
type faultReader struct {
	R        *rand.Rand
	data     []byte
	err      error
	maxChunk int
	withErr  bool // deliver the last bytes together with the error
	empties  int  // chance in 10 of (0, nil)
	closeErr error
	closed   int
	reads    int
	early    bool // closed before all data was delivered
	revive   bool // would deliver more data after failing
	failed   bool
}

func (f *faultReader) Read(p []byte) (int, error) {
	f.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if f.empties > 0 && f.R.Intn(10) < f.empties {
		return 0, nil
	}
	if len(f.data) == 0 {
		if f.failed && f.revive && !f.withErr && f.err != goio.EOF {
			p[0] = 'Z'
			return 1, nil
		}
		f.failed = true
		return 0, f.err
	}
	n := len(p)
	if f.maxChunk > 0 && n > 1+f.R.Intn(f.maxChunk) {
		n = 1 + f.R.Intn(f.maxChunk)
		if n > len(p) {
			n = len(p)
		}
	}
	if n > len(f.data) {
		n = len(f.data)
	}
	copy(p, f.data[:n])
	for i := n; i < len(p); i++ { // a Reader may use all of p as scratch space
		p[i] = 0xAA
	}
	f.data = f.data[n:]
	if len(f.data) == 0 && f.withErr {
		return n, f.err
	}
	return n, nil
}

type closeReader struct{ *faultReader }

func (f closeReader) Close() error {
	f.closed++
	if len(f.data) > 0 {
		f.early = true
	}
	return f.closeErr
}

var errInjected = errors.New("injected read error")

// faultErrs are the errors of failing readers; only io.EOF itself is an end.
var faultErrs = []error{errInjected, goio.ErrUnexpectedEOF, goio.ErrClosedPipe, goio.ErrNoProgress, goio.ErrShortBuffer, os.ErrDeadlineExceeded, &os.PathError{Op: "read", Path: "x", Err: os.ErrClosed}}

// writeErrs are the errors of failing destinations.
var writeErrs = append([]error{errInjected, goio.EOF, goio.ErrShortWrite, iter.EOI}, faultErrs...)

func newFaultReader(R *rand.Rand, data []byte) *faultReader {
	f := &faultReader{R: R, data: append([]byte{}, data...), err: goio.EOF}
	switch R.Intn(3) {
	case 0:
		f.maxChunk = 1
	case 1:
		f.maxChunk = 1 + R.Intn(5)
	}
	f.withErr = R.Intn(2) == 0
	if R.Intn(3) == 0 {
		f.empties = 1 + R.Intn(4)
	}
	if R.Intn(4) == 0 {
		f.err = faultErrs[R.Intn(len(faultErrs))]
		f.revive = R.Intn(2) == 0
	}
	return f
}

// cut makes a failing reader sometimes fail anywhere, also inside of a multi byte character. Returns the data delivered.
func (f *faultReader) cut() []byte {
	if f.err != goio.EOF && f.R.Intn(2) == 0 && len(f.data) > 0 {
		f.data = f.data[:f.R.Intn(len(f.data))]
	}
	return append([]byte{}, f.data...)
}

// genBytes generates text with multi byte runes, line endings and sometimes invalid encodings
func genBytes(R *rand.Rand) []byte {
	var b []byte
	invalid := R.Intn(3) == 0
	for n := sz(R, 14); n > 0; n-- {
		switch R.Intn(9) {
		case 0:
			b = append(b, '\r')
		case 1:
			b = append(b, '\n')
		case 2:
			b = append(b, '\r', '\n')
		case 3:
			b = utf8.AppendRune(b, []rune{0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0xfeff}[R.Intn(12)])
		case 4:
			b = utf8.AppendRune(b, rune(R.Intn(0x110000)))
		case 5:
			if invalid {
				b = append(b, []string{"\x80", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xff", "\xc3", "\xe1\x80", "\xf1\x80\x80", "\xc3A", "\xe1\x80A", "\xf1\x80\x80A", "\xe1A\x80"}[R.Intn(19)]...)
			}
		default:
			b = append(b, "abc,\"; 0"[R.Intn(8)])
		}
	}
	if invalid && R.Intn(3) == 0 && len(b) > 0 {
		b[R.Intn(len(b))] = byte(R.Intn(256))
	}
	return b
}

// decodeRunes is the model of rune decoding
func decodeRunes(b []byte, final error) ([]rune, error) {
	var out []rune
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		if r == utf8.RuneError && n <= 1 {
			// an incomplete and so far valid encoding before a read error is cut short by that error
			if final != goio.EOF && !utf8.FullRune(b) {
				return out, final
			}
			// an already invalid encoding: the length bits may promise more bytes than remain before the fault
			need := 1
			switch {
			case b[0]&0xe0 == 0xc0:
				need = 2
			case b[0]&0xf0 == 0xe0:
				need = 3
			case b[0]&0xf8 == 0xf0:
				need = 4
			}
			if final != goio.EOF && need > len(b) {
				return out, nil // either error
			}
			return out, iter.InvalidUTF8EncodingError
		}
		out = append(out, r)
		b = b[n:]
	}
	if final == goio.EOF {
		return out, iter.EOI
	}
	return out, final
}

// modelLines splits runes into lines; the rest is an unfinished line
func modelLines(rs []rune) (lines []string, rest string) {
	var cur []rune
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\r':
			if i+1 < len(rs) && rs[i+1] == '\n' {
				i++
			}
			lines = append(lines, string(cur))
			cur = nil
		case rs[i] == '\n':
			lines = append(lines, string(cur))
			cur = nil
		default:
			cur = append(cur, rs[i])
		}
	}
	return lines, string(cur)
}

// drain calls next until it errors (bounded), then calls it 3 more times; it reports values, error, and stickiness
func drain[T any](next func() (T, error), limit int) (vals []T, err error, sticky string) {
	for i := 0; i <= limit; i++ {
		v, e := next()
		if e != nil {
			err = e
			if !goreflect.ValueOf(&v).Elem().IsZero() {
				sticky = fmt.Sprintf("value %v with error %v", v, e)
			}
			break
		}
		vals = append(vals, v)
	}
	if err == nil {
		return vals, nil, "too many values"
	}
	for i := 0; i < 3; i++ {
		v, e := next()
		if e != err || !goreflect.ValueOf(&v).Elem().IsZero() {
			return vals, err, fmt.Sprintf("after (zero, %v) returned (%v, %v)", err, v, e)
		}
	}
	return vals, err, sticky
}

func firstDiff[T comparable](a, b []T) string {
	for i := range b {
		if i >= len(a) || a[i] != b[i] {
			return fmt.Sprintf("%v at %d", b[i], i)
		}
	}
	return "none"
}

func sameSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type iterCase struct {
	name string
	vals []any
	err  error
	next func() (any, error)
	un   func(any)
	zero any // zero value of the element type
	// unordered: compare as multiset
	unordered bool
}

func wrapIter[T any](name string, it iter.Iter[T], vals []T, err error) iterCase {
	ic := iterCase{name: name, err: err,
		next: func() (any, error) { v, e := it.Next(); return v, e },
		un:   func(a any) { v, _ := a.(T); it.Unread(v) }}
	for _, v := range vals {
		ic.vals = append(ic.vals, v)
	}
	var zv T
	ic.zero = zv
	return ic
}

func genIterCase(c *h.Ctx) (iterCase, func() string) {
	R := c.R
	ints := make([]int, sz(R, 6))
	for i := range ints {
		ints[i] = R.Intn(5)
	}
	keep := append([]int{}, ints...)
	none := func() string {
		if !sameSlice(ints, keep) {
			return fmt.Sprintf("the source %v was changed to %v", keep, ints)
		}
		return ""
	}
	raw := func(name string, gen func() (int, error), vals []int, err error) iterCase {
		ic := iterCase{name: name, err: err, next: func() (any, error) { v, e := gen(); return v, e }}
		for _, v := range vals {
			ic.vals = append(ic.vals, v)
		}
		return ic
	}
	switch R.Intn(19) {
	case 14:
		return raw("SliceIterGen", iter.SliceIterGen(ints), ints, iter.EOI), none
	case 15:
		gen := iter.MapIterGen(map[int]int{7: len(ints)})
		return raw("MapIterGen", func() (int, error) { t, e := gen(); return t.T*10 + t.U, e }, []int{70 + len(ints)}, iter.EOI), none
	case 16:
		if R.Intn(2) == 0 {
			return raw("NoValueIterGen", iter.NoValueIterGen[int](), nil, iter.EOI), none
		}
		return raw("SingleValueIterGen", iter.SingleValueIterGen(5), []int{5}, iter.EOI), none
	case 17:
		k, err := 0, iter.EOI
		var its []iter.Iter[int]
		if R.Intn(2) == 0 {
			err = errInjected
		}
		for k < len(ints) {
			m := k + R.Intn(len(ints)-k+1)
			its = append(its, iter.Of(ints[k:m]...))
			if R.Intn(3) == 0 {
				its = append(its, nil)
			}
			k = m
		}
		if err != iter.EOI {
			its = append(its, iter.SetError(iter.OfEmpty[int](), err), iter.Of(9), nil)
		}
		return raw("ConcatIterGen", iter.ConcatIterGen(its), ints, err), none
	case 18: // iterators that were partly read, and given values back, before they are combined
		a, b := iter.OfSlice(ints), iter.Of(8, 9)
		vals := append([]int{}, ints...)
		if len(vals) > 0 && R.Intn(2) == 0 {
			a.Next()
			vals = vals[1:]
		}
		for k := R.Intn(3); k > 0; k-- {
			a.Unread(60 + k)
			vals = append([]int{60 + k}, vals...)
		}
		b.Next()
		if R.Intn(2) == 0 {
			b.Next()
			b.Next()
			b.Unread(9)
		}
		return wrapIter("Concat of used", iter.Concat(a, iter.SetError(b, iter.EOI)), append(vals, 9), iter.EOI), none
	case 0:
		return wrapIter("Of", iter.Of(ints...), ints, iter.EOI), none
	case 1:
		return wrapIter("OfEmpty", iter.OfEmpty[string](), nil, iter.EOI), none
	case 2:
		return wrapIter("OfOne", iter.OfOne("x"), []string{"x"}, iter.EOI), none
	case 3:
		return wrapIter("OfSlice", iter.OfSlice(ints), ints, iter.EOI), none
	case 4:
		m := map[int]any{}
		var vals []tuple.Two[int, any]
		for i, v := range ints {
			var a any = v
			if v == 0 {
				a = nil
			}
			m[i] = a
			vals = append(vals, tuple.Of2(i, a))
		}
		ic := wrapIter("OfMap", iter.OfMap(m), vals, iter.EOI)
		ic.unordered = true
		return ic, none
	case 5:
		m := map[any]string{nil: "n", 1: "1", "a": "a"}
		ic := wrapIter("OfMap", iter.OfMap(m), []tuple.Two[any, string]{tuple.Of2[any](nil, "n"), tuple.Of2[any](1, "1"), tuple.Of2[any]("a", "a")}, iter.EOI)
		ic.unordered = true
		return ic, none
	case 6: // scripted function that must not be called after an error
		final := iter.EOI
		if R.Intn(2) == 0 {
			final = errInjected
		}
		i, after := 0, 0
		it := iter.OfIter(func() (int, error) {
			if i < len(ints) {
				i++
				return ints[i-1], nil
			}
			after++
			return 99, final // any value may accompany the error
		})
		return wrapIter("OfIter", it, ints, final), func() string {
			if after > 1 {
				return fmt.Sprintf("iterating function called %d times after it returned an error", after-1)
			}
			return ""
		}
	case 7: // concatenation
		var (
			its  []iter.Iter[int]
			vals []int
			err  = iter.EOI
		)
		for k := szMax(R, 5, 300); k > 0; k-- {
			part := make([]int, sz(R, 4))
			for i := range part {
				part[i] = R.Intn(9)
			}
			if err == iter.EOI {
				vals = append(vals, part...)
			}
			switch R.Intn(8) {
			case 0:
				its = append(its, nil)
				if err == iter.EOI {
					vals = vals[:len(vals)-len(part)]
				}
				continue
			case 1:
				its = append(its, iter.SetError(iter.Of(part...), errInjected))
				if err == iter.EOI {
					err = errInjected
				}
				continue
			case 2:
				its = append(its, iter.Concat(iter.Of(part...), iter.OfEmpty[int]()))
				continue
			}
			it := iter.Of(part...)
			if R.Intn(4) == 0 {
				it.Unread(77)
				if err == iter.EOI {
					vals = append(append(append([]int{}, vals[:len(vals)-len(part)]...), 77), part...)
				}
			}
			its = append(its, it)
		}
		return wrapIter("Concat", iter.Concat(its...), vals, err), none
	case 8:
		return wrapIter("SetError", iter.SetError(iter.SetError(iter.Of(ints...), errors.New("first")), errInjected), ints, errInjected), none
	case 9:
		n := sz(R, 12)
		init := make([]int, sz(R, 4))
		for i := range init {
			init[i] = R.Intn(10)
		}
		f := func(i int) int { return i*2 + 1 } // wraps around
		var vals []int
		seed := 0
		if len(init) > 0 {
			vals = append(vals, init[:len(init)-1]...)
			seed = init[len(init)-1]
		}
		for len(vals) < n {
			seed = f(seed)
			vals = append(vals, seed)
		}
		vals = vals[:n]
		keepInit := append([]int{}, init...)
		gen := iter.InfiniteIterGen(f, init...)
		none := func() string {
			if !sameSlice(init, keepInit) {
				return fmt.Sprintf("the initial values %v were changed to %v", keepInit, init)
			}
			return ""
		}
		k := 0
		return wrapIter("Infinite", iter.OfIter(func() (int, error) {
			if k == n {
				return 0, iter.EOI
			}
			k++
			return gen()
		}), vals, iter.EOI), none
	case 10:
		n := R.Intn(91)
		a, b := 1, 1
		var vals []int
		for i := 0; i < n; i++ {
			vals = append(vals, a)
			a, b = b, a+b
		}
		gen := iter.FibonnaciIterGen()
		k := 0
		return wrapIter("Fibonacci", iter.OfIter(func() (int, error) {
			if k == n {
				return 0, iter.EOI
			}
			k++
			return gen()
		}), vals, iter.EOI), none
	case 11:
		s := string(genBytes(R))
		return wrapIter("OfStringAsRunes", iter.OfStringAsRunes(s), []rune(s), iter.EOI), none
	case 12:
		var anys []any
		for _, v := range ints {
			if v == 0 {
				anys = append(anys, nil)
			} else {
				anys = append(anys, v)
			}
		}
		return wrapIter("OfAny", iter.OfSlice(anys), anys, iter.EOI), none
	}
	return wrapIter("nil-reader", iter.OfReader(nil), nil, iter.EOI), none
}

func init() {
	h.Register("C08", "every iterator constructor over random contents (empty, nil and failing parts included), driven by random histories of next and unread calls judged by a stack model; a case is non-trivial when it is a distinct constructor, content and history", func(r *h.Run) {
		n := 400000
		if r.Thorough() {
			n = 1500000
		}
		r.Group("large", 24+n/20000, largeIters)
		sizes(r, 2, 2100, 9000, largeIters)
		r.Group("protocol", n, func(c *h.Ctx) {
			ic, extra := genIterCase(c)
			var (
				stack []any
				pos   int
				log   strings.Builder
				seen  []any
				pool  = append([]any{}, ic.vals...)
				burst int // a number of values to unread in a row
			)
			steps := len(ic.vals) + 4 + c.R.Intn(8)
			if c.R.Intn(20) == 0 {
				steps *= 4
			}
			for k := 0; k < steps; k++ {
				if burst == 0 && c.R.Intn(2000) == 0 {
					burst = 1 + c.R.Intn(600)
					steps += 2 * burst
				}
				if ic.un != nil && (c.R.Intn(4) == 0 || burst > 0) {
					burst = max(0, burst-1)
					v := ic.zero
					if len(ic.vals) > 0 && c.R.Intn(8) > 0 {
						v = ic.vals[c.R.Intn(len(ic.vals))]
					}
					ic.un(v)
					stack = append(stack, v)
					fmt.Fprintf(&log, "U%v ", v)
					c.Ev("unread")
					continue
				}
				v, err := ic.next()
				fmt.Fprintf(&log, "N=%v,%v ", v, err)
				switch {
				case len(stack) > 0:
					want := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if !c.Check(err == nil && v == want, "unread", "%s: history %s: want unread value %v", ic.name, &log, want) {
						return
					}
					c.Ev("next-unread")
				case pos < len(ic.vals):
					ok := err == nil
					if ok && ic.unordered {
						ok = false
						for i, w := range pool {
							if w == v {
								pool = append(pool[:i:i], pool[i+1:]...)
								ok = true
								break
							}
						}
					} else if ok {
						ok = v == ic.vals[pos]
					}
					if !c.Check(ok, "value", "%s of %v: history %s: wrong value", ic.name, ic.vals, &log) {
						return
					}
					seen = append(seen, v)
					pos++
					c.Ev("next-value")
				default:
					zero := v == nil || goreflect.ValueOf(v).IsZero()
					if !c.Check(err == ic.err && zero, "end", "%s of %v: history %s: want (zero, %v)", ic.name, ic.vals, &log, ic.err) {
						return
					}
					c.Ev("next-end")
				}
			}
			if m := extra(); m != "" {
				c.Fail("called-after-error", "%s: %s", ic.name, m)
			}
			c.Obs(ic.name, ic.vals, log.String())
			if c.Idx < 4 {
				c.Sample("%s %v: %s", ic.name, ic.vals, &log)
			}
		})
		r.Group("construct", 20, func(c *h.Ctx) {
			_, p := h.Panics(func() { iter.OfIter[int](nil) })
			c.Check(p, "nil-function", "OfIter(nil) did not panic")
			// results: a value or an error, never both
			it := iter.SetError(iter.Of(3), errInjected)
			a, b := iter.Maybe(it), iter.Maybe(it)
			c.Check(a.HasResult() && a.Get() == 3 && a.Error() == nil && b.HasError() && b.Get() == 0 && b.Error() == errInjected, "Maybe", "Maybe: %v %v", a, b)
			ai := iter.Of[any](nil, 4)
			x, y, z := iter.Maybe(ai), iter.Maybe(ai), iter.Maybe(ai)
			c.Check(x.HasResult() && x.Get() == nil && y.Get() == 4 && z.Error() == iter.EOI && z.Get() == nil, "Maybe-any", "Maybe: %v %v %v", x, y, z)
			c.Ev("maybe")
		})
	})

	h.Register("C09", "byte sequences (multi byte runes, every line ending, overlong, surrogate, truncated and stray encodings, CSV with quotes) delivered by readers that split, stall with (0, nil), return data together with EOF or an error, fail midway, or fail on close; a case is non-trivial when it is a distinct byte sequence and delivery schedule", func(r *h.Run) {
		n := 200000
		if r.Thorough() {
			n = 1500000
		}
		r.Group("large", 8+n/20000, largeReads)
		sizes(r, 2, 1100, 4200, largeReads)
		r.Group("bytes", n, func(c *h.Ctx) {
			data := genBytes(c.R)
			f := newFaultReader(c.R, data)
			var src goio.Reader = f
			closer := c.R.Intn(2) == 0
			if closer {
				if c.R.Intn(2) == 0 {
					f.closeErr = errors.New("close failed")
				}
				src = closeReader{f}
			}
			data = f.cut()
			want := f.err
			if want == goio.EOF {
				want = iter.EOI
				if f.closeErr != nil {
					want = f.closeErr
				}
			}
			var next func() (byte, error)
			if c.R.Intn(2) == 0 {
				next = iter.ReaderIterGen(src)
			} else {
				next = iter.OfReader(src).Next
			}
			vals, err, sticky := drain(next, len(data)+2)
			c.Check(bytes.Equal(vals, data), "bytes", "bytes of %q (%+v) = %q", data, f.script(), vals)
			c.Check(err == want, "bytes-error", "bytes of %q (%+v) ended with %v, want %v", data, f.script(), err, want)
			c.Check(sticky == "", "bytes-sticky", "bytes of %q: %s", data, sticky)
			if closer {
				if f.err == goio.EOF {
					c.Check(f.closed == 1 && !f.early, "bytes-close", "bytes of %q: closed %d times, early %v", data, f.closed, f.early)
				} else {
					c.Check(f.closed <= 1 && !f.early, "bytes-close", "bytes of %q: closed %d times, early %v", data, f.closed, f.early)
				}
			}
			c.EvN("byte", len(vals))
			c.Ev(fmt.Sprintf("end:%v", err))
			c.Obs("b", string(data), f.script(), closer)
		})
		r.Group("runes", n, func(c *h.Ctx) {
			data := genBytes(c.R)
			f := newFaultReader(c.R, data)
			data = f.cut()
			want, werr := decodeRunes(data, f.err)
			var next func() (rune, error)
			script := f.script()
			switch c.R.Intn(4) {
			case 0:
				next = iter.ReaderAsRunesIterGen(f)
			case 1:
				want, werr = decodeRunes(data, goio.EOF)
				next = iter.StringAsRunesIterGen(string(data))
				script = "string"
			default:
				next = iter.OfReaderAsRunes(f).Next
			}
			vals, err, sticky := drain(next, len(data)+2)
			c.Check(sameSlice(vals, want), "runes", "runes of %q (%s) = %q, want %q", data, script, string(vals), string(want))
			c.Check(err == werr || werr == nil && (err == f.err || err == iter.InvalidUTF8EncodingError), "runes-error", "runes of %q (%s) ended with %v, want %v", data, script, err, werr)
			c.Check(sticky == "", "runes-sticky", "runes of %q: %s", data, sticky)
			c.EvN("rune", len(vals))
			c.Ev(fmt.Sprintf("end:%v", err))
			c.Obs("r", string(data), script)
		})
		r.Group("lines", n, func(c *h.Ctx) {
			data := genBytes(c.R)
			f := newFaultReader(c.R, data)
			data = f.cut()
			fin := f.err
			var next func() (string, error)
			script := f.script()
			switch c.R.Intn(6) {
			case 0:
				next = iter.ReaderAsLinesIterGen(f)
			case 1:
				fin = goio.EOF
				next = iter.StringAsLinesIterGen(string(data))
				script = "string"
			case 2:
				fin = goio.EOF
				next = iter.OfStringAsLines(string(data)).Next
				script = "string"
			default:
				next = iter.OfReaderAsLines(f).Next
			}
			rs, werr := decodeRunes(data, fin)
			want, rest := modelLines(rs)
			if werr == iter.EOI && rest != "" {
				want = append(want, rest)
			}
			vals, err, sticky := drain(next, len(data)+2)
			c.Check(sameSlice(vals, want), "lines", "lines of %q (%s) = %q, want %q", data, script, vals, want)
			c.Check(err == werr || werr == nil && (err == f.err || err == iter.InvalidUTF8EncodingError), "lines-error", "lines of %q (%s) ended with %v, want %v", data, script, err, werr)
			c.Check(sticky == "", "lines-sticky", "lines of %q: %s", data, sticky)
			c.EvN("line", len(vals))
			c.Ev(fmt.Sprintf("end:%v", err))
			c.Obs("l", string(data), script)
		})
		r.Group("long-lines", n/2000+20, func(c *h.Ctx) {
			// lines far longer than any buffer
			var sb strings.Builder
			var want []string
			for k := 0; k < 4; k++ {
				l := strings.Repeat(string(rune('a'+k))+"\u20ac", c.R.Intn(9000))
				want = append(want, l)
				sb.WriteString(l + []string{"\n", "\r", "\r\n"}[c.R.Intn(3)])
				if l == "" {
					sb.WriteString("x\n")
					want[len(want)-1] = ""
					want = append(want, "x")
				}
			}
			f := newFaultReader(c.R, []byte(sb.String()))
			f.err = goio.EOF
			rs, _ := decodeRunes([]byte(sb.String()), goio.EOF)
			want, _ = modelLines(rs)
			vals, err, _ := drain(iter.OfReaderAsLines(f).Next, 100)
			c.Check(sameSlice(vals, want) && err == iter.EOI, "long-lines", "%d lines, %v; want %d", len(vals), err, len(want))
			c.Obs("ll", c.Idx)
		})
		r.Group("csv", n/2, func(c *h.Ctx) {
			R := c.R
			var sb strings.Builder
			cols := 1 + szMax(R, 3, 100)
			for row := szMax(R, 5, 2000); row > 0; row-- {
				k := cols
				if R.Intn(12) == 0 {
					k++
				}
				for i := 0; i < k; i++ {
					if i > 0 {
						sb.WriteByte(',')
					}
					switch R.Intn(7) {
					case 6:
						// whatever another dialect would treat specially
						sb.WriteString([]string{"#a", "#", " b", "c ", "\td", ";", "'q'", "\\n", "NULL", " \"e\"", "a b", "\ufeff", "--", "//", "a;b", "|", "0x1", "1,5"}[R.Intn(18)])
					case 0:
						sb.WriteString(`"a ""q"" , b"`)
					case 1:
						sb.WriteString("\"multi\n" + strings.Repeat("line", sz(R, 3)) + "\"")
					case 2:
						if R.Intn(6) == 0 {
							sb.WriteString(`ba"d`)
						} else {
							sb.WriteString("é")
						}
					case 3:
					default:
						fmt.Fprint(&sb, R.Intn(100))
					}
				}
				sb.WriteString([]string{"\n", "\r\n", "\n\n"}[R.Intn(3)])
			}
			data := []byte(sb.String())
			f := newFaultReader(R, data)
			data = f.cut()
			if f.empties > 3 {
				f.empties = 3
			}
			// the reference reads the same bytes and final error in one piece
			ref := csv.NewReader(&faultReader{data: append([]byte{}, data...), err: f.err})
			var want [][]string
			var werr error
			for {
				rec, err := ref.Read()
				if err != nil {
					werr = err
					break
				}
				want = append(want, rec)
			}
			it := iter.OfCSV(f)
			var got [][]string
			var err error
			for {
				var rec []string
				rec, err = it.Next()
				if err != nil {
					c.Check(rec == nil, "csv-value-with-error", "csv of %q: %q with error %v", data, rec, err)
					break
				}
				got = append(got, append([]string{}, rec...)) // CSVIterGen documents that the same slice is returned each time
				if len(got) > len(want)+2 {
					break
				}
			}
			c.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "csv", "csv of %q (%s) = %q, want %q", data, f.script(), got, want)
			if werr == goio.EOF {
				werr = iter.EOI
			}
			c.Check(err != nil && err.Error() == werr.Error() && (werr != iter.EOI || err == iter.EOI), "csv-error", "csv of %q (%s) ended with %v, want %v", data, f.script(), err, werr)
			for k := 0; k < 3; k++ {
				v, e := it.Next()
				c.Check(v == nil && e == err, "csv-sticky", "csv of %q: after %v returned %q, %v", data, err, v, e)
			}
			c.EvN("csv-row", len(got))
			c.Obs("c", string(data), f.script())
		})
		r.Group("all-code-points", 0x110000/4096, func(c *h.Ctx) {
			// every character, read as runes and lines and by CSV rows
			var rs []rune
			for k := 0; k < 4096; k++ {
				if r := rune(c.Idx*4096 + k); utf8.ValidRune(r) {
					rs = append(rs, r)
				}
			}
			if len(rs) == 0 {
				return
			}
			text := string(rs)
			got, err, _ := drain(iter.OfReaderAsRunes(strings.NewReader(text)).Next, len(rs)+1)
			c.Check(eqs(got, rs) && err == iter.EOI, "all-runes", "the characters U+%x to U+%x read as runes: %d, %v; first difference %s", rs[0], rs[len(rs)-1], len(got), err, firstDiff(got, rs))
			got, err, _ = drain(iter.OfStringAsRunes(text).Next, len(rs)+1)
			c.Check(eqs(got, rs) && err == iter.EOI, "all-runes", "the characters U+%x to U+%x of a string as runes: %d, %v; first difference %s", rs[0], rs[len(rs)-1], len(got), err, firstDiff(got, rs))
			want, rest := modelLines(rs)
			if rest != "" {
				want = append(want, rest)
			}
			lines, err, _ := drain(iter.OfReaderAsLines(strings.NewReader(text)).Next, len(rs)+1)
			c.Check(eqs(lines, want) && err == iter.EOI, "all-lines", "the characters U+%x to U+%x read as lines: %d, %v; want %d", rs[0], rs[len(rs)-1], len(lines), err, len(want))
			lines, err, _ = drain(iter.OfStringAsLines(text).Next, len(rs)+1)
			c.Check(eqs(lines, want) && err == iter.EOI, "all-lines", "the characters U+%x to U+%x of a string as lines: %d, %v; want %d", rs[0], rs[len(rs)-1], len(lines), err, len(want))
			// each character in the middle, at the start, and at the end of a field
			var sb strings.Builder
			var rows [][]string
			for _, r := range rs {
				if r == '"' || r == '\r' || r == '\n' || r == ',' {
					continue
				}
				row := []string{"a" + string(r) + "b", string(r) + "c", "d" + string(r)}
				rows = append(rows, row)
				sb.WriteString(strings.Join(row, ",") + "\n")
			}
			csv, bad := iter.OfCSV(strings.NewReader(sb.String())), 0
			for _, row := range rows {
				if got, err := csv.Next(); err != nil || !eqs(got, row) {
					if bad++; bad == 1 {
						c.Fail("all-csv", "CSV row %q read as %q, %v", row, got, err)
					}
				}
			}
			_, err = csv.Next()
			c.Check(err == iter.EOI, "all-csv", "the characters U+%x to U+%x in CSV fields end with %v", rs[0], rs[len(rs)-1], err)
			c.EvN("characters", len(rs))
			c.Obs("all", c.Idx)
		})
		r.Group("all-sequences", 256, func(c *h.Ctx) {
			// sequences of bytes that begin with this one: any second byte, and third and fourth ones around the bounds
			bounds := []byte{0, 'a', 0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0, 0xff}
			one := func(b ...byte) {
				want, werr := decodeRunes(b, goio.EOF)
				got, err, sticky := drain(iter.OfReaderAsRunes(bytes.NewReader(b)).Next, len(b)+1)
				c.Check(eqs(got, want) && err == werr && sticky == "", "all-sequences", "the bytes %x: %x, %v; want %x, %v; %s", b, got, err, want, werr, sticky)
			}
			b0 := byte(c.Idx)
			one(b0)
			for b1 := 0; b1 < 256; b1++ {
				one(b0, byte(b1))
				if b0 < 0xc0 && b1 > 0 {
					continue
				}
				for _, b2 := range bounds {
					one(b0, byte(b1), b2)
					if b0 >= 0xf0 {
						for _, b3 := range bounds {
							one(b0, byte(b1), b2, b3)
						}
					}
				}
			}
			c.Obs("seq", c.Idx)
		})
		r.Group("stalled", n/100, func(c *h.Ctx) {
			// a reader that at some point only ever returns no bytes and no error is reported, it does not hang the iterator
			R := c.R
			text := "a,é\nb,€🙂\n\"x\ny\",z\n"
			text = text[:R.Intn(len(text)+1)]
			rd := func() *stalledReader { return &stalledReader{data: []byte(text)} }
			ended := func(name string, vals int, err error, sticky string) {
				c.Check(err != nil && err != iter.EOI && sticky == "", "stalled", "%s of %q and then nothing: %d values, %v %s", name, text, vals, err, sticky)
				c.Ev("stalled reader")
			}
			c.NoPanic("stalled-panic", "stalled reader", func() {
				b, err, st := drain(iter.OfReader(rd()).Next, len(text)+1)
				ended("OfReader", len(b), err, st)
				c.Check(string(b) == text, "stalled-bytes", "OfReader of %q and then nothing: %q", text, b)
				ru, err, st := drain(iter.OfReaderAsRunes(rd()).Next, len(text)+1)
				ended("OfReaderAsRunes", len(ru), err, st)
				c.Check(strings.HasPrefix(text, string(ru)), "stalled-runes", "OfReaderAsRunes of %q and then nothing: %q", text, string(ru))
				l, err, st := drain(iter.OfReaderAsLines(rd()).Next, len(text)+1)
				ended("OfReaderAsLines", len(l), err, st)
				it := iter.OfCSV(rd())
				for i := 0; i <= len(text); i++ {
					if _, err = it.Next(); err != nil {
						break
					}
				}
				ended("OfCSV", 0, err, "")
			})
			c.Obs("stalled", text)
		})
		r.Group("nil", 1, func(c *h.Ctx) {
			_, e1 := iter.OfReader(nil).Next()
			_, e2 := iter.OfReaderAsRunes(nil).Next()
			_, e3 := iter.OfReaderAsLines(nil).Next()
			_, e4 := iter.OfCSV(nil).Next()
			c.Check(e1 == iter.EOI && e2 == iter.EOI && e3 == iter.EOI && e4 == iter.EOI, "nil-reader", "nil readers: %v %v %v %v", e1, e2, e3, e4)
		})
	})

	h.Register("C20", "random value sequences written to slices, maps and io.Writers that fail, write short or write nothing at scripted points, and fault injecting readers and writers with every buffer size; a case is non-trivial when it is a distinct sequence and fault point", func(r *h.Run) {
		n := 120000
		if r.Thorough() {
			n = 600000
		}
		r.Group("large", 12+n/10000, largeWriters)
		sizes(r, 3, 2100, 9000, largeWriters)
		r.Group("slice-map", n, func(c *h.Ctx) {
			R := c.R
			slc := make([]int, R.Intn(3), 3+sz(R, 3))
			want := append([]int{}, slc...)
			w := writer.OfSliceWriter(&slc)
			m := map[int]any{}
			wm := map[int]any{}
			mw := writer.OfMapWriter(m)
			for k := szMax(R, 6, 300); k > 0; k-- {
				vals := make([]int, sz(R, 4))
				var ts []tuple.Two[int, any]
				for i := range vals {
					vals[i] = R.Intn(9)
					ts = append(ts, tuple.Of2[int, any](vals[i], k))
					wm[vals[i]] = k
				}
				e1, e2 := w.Write(vals...), mw.Write(ts...)
				want = append(want, vals...)
				c.Check(e1 == nil && e2 == nil, "memory-writer-error", "%v %v", e1, e2)
				c.Check(sameSlice(slc, want) && goreflect.DeepEqual(m, wm), "memory-writer", "slice %v want %v, map %v want %v", slc, want, m, wm)
				c.EvN("value-written", len(vals))
				// the owner of the slice and map may change them between writes
				switch R.Intn(8) {
				case 0:
					slc, want = nil, nil
				case 1:
					slc, want = slc[:0], nil
				case 2:
					slc = []int{7, 8}
					want = []int{7, 8}
				case 3:
					slc = append(slc, 9)
					want = append(append([]int{}, want...), 9)
				case 4:
					clear(m)
					clear(wm)
				case 5:
					if len(slc) > 0 {
						slc[0], want[0] = 5, 5
					}
				}
			}
			c.Obs("s", want)
		})
		r.Group("io", n, func(c *h.Ctx) {
			R := c.R
			var vals []string
			kind := R.Intn(4)
			for k := szMax(R, 6, 300); k > 0; k-- {
				s := ""
				for j := sz(R, 4); j > 0; j-- {
					if kind != 1 && R.Intn(8) == 0 { // bytes and strings need not be UTF-8
						s += string([]byte{byte(R.Intn(256))})
						continue
					}
					s += string([]rune{'a', 'é', '€', '\U0001F600', ' ', '\n', 0}[R.Intn(7)])
				}
				vals = append(vals, s)
			}
			var units []string // each unit is one underlying delivery
			switch kind {
			case 0:
				for _, s := range vals {
					for i := range []byte(s) {
						units = append(units, s[i:i+1])
					}
				}
			case 1:
				for _, s := range vals {
					for _, r := range s {
						units = append(units, string(r))
					}
				}
			case 2:
				units = vals
			case 3:
				for _, s := range vals {
					units = append(units, s+"\n")
				}
			}
			total := len(strings.Join(units, ""))
			fw := &faultWriter{limit: -1, err: errInjected}
			if R.Intn(3) > 0 {
				fw.limit = R.Intn(total + 2)
				fw.mode = R.Intn(4)
				fw.err = writeErrs[R.Intn(len(writeErrs))]
			}
			var err error
			wrote := 0
			// deliver in random batches
			batch := func(n int, f func(lo, hi int) error) {
				for lo := 0; lo < n && err == nil; {
					hi := lo + 1 + R.Intn(3)
					if hi > n {
						hi = n
					}
					err = f(lo, hi)
					lo = hi
					wrote = hi
				}
			}
			switch kind {
			case 0:
				w := writer.OfIOWriterAsBytes(fw)
				batch(len(units), func(lo, hi int) error { return w.Write([]byte(strings.Join(units[lo:hi], ""))...) })
			case 1:
				w := writer.OfIOWriterAsRunes(fw)
				batch(len(units), func(lo, hi int) error { return w.Write([]rune(strings.Join(units[lo:hi], ""))...) })
			case 2:
				w := writer.OfIOWriterAsStrings(fw)
				batch(len(units), func(lo, hi int) error { return w.Write(units[lo:hi]...) })
			case 3:
				w := writer.OfIOWriterAsLines(fw)
				batch(len(vals), func(lo, hi int) error { return w.Write(vals[lo:hi]...) })
			}
			all := strings.Join(units, "")
			what := fmt.Sprintf("kind %d values %q limit %d mode %d", kind, vals, fw.limit, fw.mode)
			got := fw.out.String()
			if fw.faulted {
				c.Ev("write-fault")
				c.Check(err != nil, "fault-unreported", "%s: fault was not reported", what)
				if fw.mode == 0 || fw.mode == 3 {
					c.Check(err == fw.err, "fault-error", "%s: error %v", what, err)
				}
				if (fw.mode == 1 || fw.mode == 2) && err != nil {
					// what was refused is described
					var nums []string
					for _, d := range reDigits.FindAllString(err.Error(), -1) {
						nums = append(nums, d)
					}
					switch kind {
					case 0:
						c.Check(strings.Contains(err.Error(), fmt.Sprintf("0x%x", fw.last[0])), "fault-message", "%s: byte 0x%x: %v", what, fw.last[0], err)
					case 1:
						r, _ := utf8.DecodeRune(fw.last)
						c.Check(strings.Contains(err.Error(), fmt.Sprintf("%08x", r)), "fault-message", "%s: rune %x: %v", what, r, err)
					default:
						c.Check(fmt.Sprint(nums) == fmt.Sprint([]int{fw.lastN, utf8.RuneCount(fw.last), len(fw.last), 8}), "fault-message", "%s: wrote %d bytes of %q: %v", what, fw.lastN, fw.last, err)
					}
					c.Ev("fault-message")
				}
				c.Check(strings.HasPrefix(all, got), "fault-prefix", "%s: wrote %q", what, got)
				c.Check(fw.afterFault == 0, "write-after-fault", "%s: %d writes after the fault", what, fw.afterFault)
			} else {
				c.Check(err == nil && got == all, "io-writer", "%s: wrote %q, error %v, want %q", what, got, err, all)
				c.Ev("write-complete")
			}
			_ = wrote
			c.Obs(what)
		})
		r.Group("all-code-points", 0x110000/4096, func(c *h.Ctx) {
			// every character, as a rune, a string and a line
			var runes, strs, lines bytes.Buffer
			rw, sw, lw := writer.OfIOWriterAsRunes(&runes), writer.OfIOWriterAsStrings(&strs), writer.OfIOWriterAsLines(&lines)
			for r := rune(c.Idx * 4096); r < rune(c.Idx+1)*4096; r++ {
				if !utf8.ValidRune(r) {
					continue
				}
				s := string(r)
				runes.Reset()
				strs.Reset()
				lines.Reset()
				e1, e2, e3 := rw.Write(r), sw.Write(s, "a"+s, s+"b"), lw.Write(s, "a"+s, s+"b")
				c.Check(e1 == nil && runes.String() == s, "all-runes", "writing U+%x: %q, %v", r, runes.String(), e1)
				c.Check(e2 == nil && strs.String() == s+"a"+s+s+"b", "all-strings", "writing the strings of U+%x: %q, %v", r, strs.String(), e2)
				c.Check(e3 == nil && lines.String() == s+"\na"+s+"\n"+s+"b\n", "all-lines", "writing the lines of U+%x: %q, %v", r, lines.String(), e3)
			}
			c.EvN("characters", 4096)
			c.Obs("all", c.Idx)
		})
		r.Group("invalid-runes", n/10, func(c *h.Ctx) {
			// what is not a character is delivered as U+FFFD or refused, the characters around it as they are
			R := c.R
			var (
				rs  []rune
				sb  strings.Builder
				buf bytes.Buffer
				bad bool
			)
			for k := 1 + R.Intn(5); k > 0; k-- {
				r := rune(R.Intn(0x3000))
				if R.Intn(2) == 0 {
					r = []rune{-1, -5, -0x7fffffff - 1, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x7fffffff, rune(R.Uint32())}[R.Intn(10)]
				}
				bad = bad || !utf8.ValidRune(r)
				rs = append(rs, r)
				sb.WriteString(string(r))
			}
			w := writer.OfIOWriterAsRunes(&buf)
			err := w.Write(rs...)
			got, all := buf.String(), sb.String()
			c.Check(err == nil && got == all || bad && err != nil && strings.HasPrefix(all, got), "io-writer", "writing runes %x: wrote %q, %v; want %q", rs, got, err, all)
			c.Ev("runes that are not characters")
			c.Obs(fmt.Sprint(rs))
		})
		r.Group("error-reader", n, func(c *h.Ctx) {
			R := c.R
			data := make([]byte, sz(R, 9))
			reads, most := 16, 6
			switch R.Intn(400) {
			case 0: // until the end, in the smallest parts
				data = make([]byte, R.Intn(12000))
				reads, most = len(data)+2, 1
			case 1:
				data = make([]byte, R.Intn(100000))
				reads, most = len(data)/2+2, 2+R.Intn(300)
			}
			R.Read(data)
			want := errInjected
			if R.Intn(3) == 0 {
				want = goio.EOF
			}
			er := io.NewErrorReader(data, want)
			var got []byte
			hist := ""
			for k := 0; k < reads; k++ {
				buf := make([]byte, 1+R.Intn(most))
				if reads == 16 {
					buf = make([]byte, 1+sz(R, 6))
				}
				if R.Intn(8) == 0 {
					buf = buf[:0]
				}
				n, err := er.Read(buf)
				if k%40 == 0 && k > 0 {
					hist = fmt.Sprintf("%d reads ", k)
				}
				hist += fmt.Sprintf("Read(%d)=%d,%v ", len(buf), n, err)
				left := len(data) - len(got)
				if left == 0 {
					c.Check(n == 0 && (err == want || err == nil && len(buf) == 0), "error-reader-end", "%q: %s: want (0, %v)", data, hist, want)
					continue
				}
				wn := len(buf)
				if left < wn {
					wn = left
				}
				if !c.Check(n == wn && err == nil, "error-reader", "%q: %s: want (%d, nil)", data, hist, wn) {
					return
				}
				got = append(got, buf[:n]...)
			}
			c.Check(bytes.HasPrefix(data, got), "error-reader-data", "read %q of %q", got, data)
			c.Ev("error-reader")
			c.Obs("er", string(data), hist)
			// writer
			limit := sz(R, 9) - 1
			ew := io.NewErrorWriter(limit, want)
			var out []byte
			hist = ""
			for k := 0; k < 8; k++ {
				p := make([]byte, 1+sz(R, 4))
				R.Read(p)
				if R.Intn(8) == 0 {
					p = p[:0]
				}
				n, err := ew.Write(p)
				hist += fmt.Sprintf("Write(%d)=%d,%v ", len(p), n, err)
				left := limit - len(out)
				switch {
				case limit < 0:
					c.Check(n == 0 && err == nil, "error-writer", "count %d: %s", limit, hist)
				case left == 0:
					c.Check(n == 0 && (err == want || err == nil && len(p) == 0), "error-writer", "count %d: %s", limit, hist)
				default:
					wn := len(p)
					if left < wn {
						wn = left
					}
					if !c.Check(n == wn && err == nil, "error-writer", "count %d: %s", limit, hist) {
						return
					}
					out = append(out, p[:wn]...)
				}
				c.Check(bytes.Equal(ew.Output(), out), "error-writer-output", "count %d: %s: output %q, want %q", limit, hist, ew.Output(), out)
			}
			c.Obs("ew", limit, hist)
		})
		r.Group("nil", 1, func(c *h.Ctx) {
			_, p := h.Panics(func() { writer.NewWriter[int](nil) })
			c.Check(p, "nil-writer-function", "NewWriter(nil) did not panic")
			calls := 0
			w := writer.NewWriter(func(i int) error {
				calls++
				if i == 3 {
					return errInjected
				}
				return nil
			})
			e := w.Write(1, 2, 3, 4, 5)
			c.Check(e == errInjected && calls == 3, "stop-at-error", "error %v after %d calls", e, calls)
			c.Obs("w")
		})
	})
}

// faultWriter accepts limit bytes, then fails (mode 0), writes short (1) or writes nothing (2) without an error,
// or writes everything and fails (3)
type faultWriter struct {
	out        bytes.Buffer
	limit      int
	mode       int
	err        error
	faulted    bool
	afterFault int
	last       []byte // the faulted write
	lastN      int
}

// stalledReader returns its data byte by byte and then nothing, without an error, for as long as it is asked.
type stalledReader struct {
	data []byte
}

func (s *stalledReader) Read(p []byte) (int, error) {
	n := 0
	if len(s.data) > 0 && len(p) > 0 {
		n = copy(p, s.data[:1])
	}
	s.data = s.data[n:]
	return n, nil
}

var reDigits = regexp.MustCompile("[0-9]+")

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.faulted {
		f.afterFault++
	}
	if f.limit < 0 || f.out.Len()+len(p) <= f.limit {
		f.out.Write(p)
		return len(p), nil
	}
	f.faulted = true
	f.last = append([]byte{}, p...)
	switch f.mode {
	case 3:
		f.out.Write(p)
		return len(p), f.err
	case 2:
		return 0, nil
	case 1:
		n := f.limit - f.out.Len()
		f.lastN = n
		f.out.Write(p[:n])
		return n, nil
	}
	n := f.limit - f.out.Len()
	f.out.Write(p[:n])
	return n, f.err
}

func (f *faultReader) script() string {
	return fmt.Sprintf("chunk<=%d withErr=%v empties=%d err=%v closeErr=%v", f.maxChunk, f.withErr, f.empties, f.err, f.closeErr)
}
