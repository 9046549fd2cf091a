package p

import (
	"bytes"
	"encoding/csv"
	"fmt"
	goio "io"
	"math/big"
	"net/http"
	"net/http/httptest"
	goreflect "reflect"
	"sort"
	"strings"
	"sync"

	"github.com/bantling/micro/conv"
	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/event"
	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/reflect"
	"github.com/bantling/micro/rest"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"

	"verif/h"
)

// largeN is a number of things that exceeds what small counters and buffers hold.
func largeN(c *h.Ctx) int { return sizeOr(c, largeSizes[c.R.Intn(6)]+c.R.Intn(5)) }

func largestN(c *h.Ctx) int { return sizeOr(c, largeSizes[c.R.Intn(len(largeSizes))]+c.R.Intn(5)) }

// sizeOr is the exact size that is to be tried, if any, or n.
func sizeOr(c *h.Ctx, n int) int {
	if c.Size > 0 {
		return c.Size
	}
	return n
}

// sizes runs a case of large things for every size from 1 to a bound, each of a number of kinds, since behaviour may
// depend on one exact size.
func sizes(r *h.Run, kinds, quick, thorough int, f func(c *h.Ctx)) {
	bound := quick
	if r.Thorough() {
		bound = thorough
	}
	r.Group("sizes", kinds*bound, func(c *h.Ctx) {
		c.Size = 1 + c.Idx/kinds
		f(c)
	})
}

func ramp(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// hundreds of thousands of elements through the iterators
func largeIters(c *h.Ctx) {
	var (
		R    = c.R
		n    = largeN(c)
		vals = ramp(n)
		end  = []error{iter.EOI, errInjected}[R.Intn(2)]
	)
	judge := func(name string, it iter.Iter[int], final error) {
		got, err, st := drain(it.Next, n+2)
		c.Check(sameSlice(got, vals) && err == final && st == "", "large-"+name, "%s of %d elements: %d, %v %s", name, n, len(got), err, st)
	}
	c.NoPanic("large-panic", "an iterator of many elements", func() {
		judge("OfSlice", iter.OfSlice(vals), iter.EOI)
		judge("Of", iter.Of(vals...), iter.EOI)
		judge("SetError", iter.SetError(iter.OfSlice(vals), end), end)
		i := -1
		judge("OfIter", iter.OfIter(func() (int, error) {
			if i++; i < n {
				return i, nil
			}
			return 0, end
		}), end)
		// concatenation of many, of which some are empty or nil
		var its []iter.Iter[int]
		for i := 0; i < n; {
			switch R.Intn(4) {
			case 0:
				its = append(its, nil)
			case 1:
				its = append(its, iter.OfEmpty[int]())
			case 2:
				its = append(its, iter.OfOne(i))
				i++
			default:
				k := min(n-i, 1+R.Intn(3))
				its = append(its, iter.OfSlice(vals[i:i+k]))
				i += k
			}
		}
		judge("Concat", iter.Concat(its...), iter.EOI)
		// everything given back, and then read again
		it := iter.OfEmpty[int]()
		for i := n - 1; i >= 0; i-- {
			it.Unread(i)
		}
		judge("Unread", it, iter.EOI)
		it = iter.OfSlice(vals)
		for i := 0; i < n; i++ {
			it.Next()
		}
		for i := n - 1; i >= 0; i-- {
			it.Unread(i)
		}
		judge("Unread", it, iter.EOI)
		// map
		m := make(map[int]int, n)
		for _, v := range vals {
			m[v] = ^v
		}
		pairs, err, _ := drain(iter.OfMap(m).Next, n+2)
		seen := make([]bool, n)
		ok := len(pairs) == n && err == iter.EOI
		for _, p := range pairs {
			ok = ok && p.U == ^p.T && !seen[p.T]
			seen[p.T] = true
		}
		c.Check(ok, "large-OfMap", "OfMap of %d entries: %d, %v", n, len(pairs), err)
		// endless, after many initial values
		inf := iter.InfiniteIterGen(func(v int) int { return v + 1 }, vals...)
		ok = true
		for i := 0; i < n+1000; i++ {
			v, err := inf()
			want := i
			if i >= n-1 {
				want = i + 1 // the last value is only the seed
			}
			ok = ok && v == want && err == nil
		}
		c.Check(ok, "large-Infinite", "an infinite iterator with %d initial values", n)
	})
	c.EvN("elements of long iterators", n)
	c.Obs("large", n, len(vals), end)
	c.Sample("%d elements", n)
}

// patientReader returns nothing many times before each part of its data.
type patientReader struct {
	data  []byte
	chunk int
	wait  int
	n     int
}

func (r *patientReader) Read(p []byte) (int, error) {
	if r.n++; r.n <= r.wait {
		return 0, nil
	}
	if r.n = 0; len(r.data) == 0 {
		return 0, goio.EOF
	}
	k := copy(p[:min(len(p), r.chunk)], r.data)
	r.data = r.data[k:]
	return k, nil
}

// megabytes through the reader iterators
func largeReads(c *h.Ctx) {
	var (
		R    = c.R
		sb   strings.Builder
		rows [][]string
		text string
		n    = sizeOr(c, 20000+R.Intn(60000))
	)
	for i := 0; i < n; i++ {
		row := []string{fmt.Sprint(i), []string{"", "é", "a b", "🙂€"}[R.Intn(4)]}
		rows = append(rows, row)
		sb.WriteString(strings.Join(row, ",") + []string{"\n", "\r\n"}[R.Intn(2)])
	}
	text = sb.String()
	rd := func() goio.Reader {
		f := newFaultReader(R, []byte(text))
		f.err, f.empties, f.maxChunk = goio.EOF, 0, []int{0, 0, 5, 4096}[R.Intn(4)]
		return f
	}
	c.NoPanic("large-panic", "a reader of much data", func() {
		b, err, st := drain(iter.OfReader(rd()).Next, len(text)+2)
		c.Check(string(b) == text && err == iter.EOI && st == "", "large-bytes", "%d of %d bytes, %v", len(b), len(text), err)
		ru, err, st := drain(iter.OfReaderAsRunes(rd()).Next, len(text)+2)
		c.Check(string(ru) == text && err == iter.EOI && st == "", "large-runes", "%d runes of %d bytes, %v", len(ru), len(text), err)
		ru, err, st = drain(iter.OfStringAsRunes(text).Next, len(text)+2)
		c.Check(string(ru) == text && err == iter.EOI && st == "", "large-runes", "%d runes of a string of %d bytes, %v", len(ru), len(text), err)
		for k, it := range []iter.Iter[string]{iter.OfReaderAsLines(rd()), iter.OfStringAsLines(text)} {
			l, err, st := drain(it.Next, n+2)
			ok := len(l) == n && err == iter.EOI && st == ""
			for i := 0; ok && i < n; i++ {
				ok = l[i] == strings.Join(rows[i], ",")
			}
			c.Check(ok, "large-lines", "lines %d: %d of %d, %v", k, len(l), n, err)
		}
		i, ok := 0, true
		it := iter.OfCSV(rd())
		for ; ; i++ {
			row, err := it.Next()
			if err != nil {
				ok = ok && err == iter.EOI
				break
			}
			ok = ok && i < n && sameSlice(row, rows[i])
		}
		c.Check(ok && i == n, "large-csv", "%d of %d rows", i, n)
		if c.Size > 0 {
			// one line, one cell and so many bytes
			line := strings.Repeat([]string{"a", "é", "€", "🙂"}[R.Intn(4)], n)
			for _, end := range []string{"", "\n", "\r\nb"} {
				text = line + end
				f := rd()
				l, err, _ := drain(iter.OfReaderAsLines(f).Next, 4)
				c.Check(err == iter.EOI && strings.Join(l, "|") == strings.Replace(strings.TrimSuffix(text, "\n"), "\r\n", "|", 1), "size-line", "a line of %d, end %q: %d, %v", n, end, len(l), err)
				row, err := iter.OfCSV(rd()).Next()
				c.Check(err == nil && len(row) == 1 && row[0] == line, "size-cell", "a cell of %d: %d, %v", n, len(row), err)
				ru, err, _ := drain(iter.OfReaderAsRunes(rd()).Next, len(text)+2)
				c.Check(string(ru) == text && err == iter.EOI, "size-runes", "%d runes of %d bytes, %v", len(ru), len(text), err)
			}
			cells := strings.Repeat("x,", n) + "y\n"
			row, err := iter.OfCSV(strings.NewReader(cells)).Next()
			c.Check(err == nil && len(row) == n+1 && row[n] == "y", "size-row", "a row of %d cells: %d, %v", n+1, len(row), err)
			return
		}

		// a patient reader is not a stalled one
		short := "a,é\nb,€🙂\n\"x\r\ny\",🙂🙂\n"
		pr := func() goio.Reader {
			return &patientReader{data: []byte(short), chunk: 1 + R.Intn(2), wait: []int{1, 20, 60, 95}[R.Intn(4)]}
		}
		b, err, _ = drain(iter.OfReader(pr()).Next, len(short)+2)
		c.Check(string(b) == short && err == iter.EOI, "patient-bytes", "%q, %v", b, err)
		ru, err, _ = drain(iter.OfReaderAsRunes(pr()).Next, len(short)+2)
		c.Check(string(ru) == short && err == iter.EOI, "patient-runes", "%q, %v", string(ru), err)
		l, err, _ := drain(iter.OfReaderAsLines(pr()).Next, len(short)+2)
		c.Check(strings.Join(l, "|") == "a,é|b,€🙂|\"x|y\",🙂🙂" && err == iter.EOI, "patient-lines", "%q, %v", l, err)
		doc := `{"é🙂":["€🙂\ud83d\ude42",-1.5e3,true,null]}`
		v, err := parse.Parse(&patientReader{data: []byte(doc), chunk: 1, wait: 90})
		want, _, _ := jdoc(doc)
		c.Check(err == nil && nodeOf(v).eq(want), "patient-json", "%v, %v", nodeOf(v), err)
	})
	c.EvN("bytes of long readers", len(text))
	c.Obs("large", len(text))
	c.Sample("%d rows, %d bytes", n, len(text))
}

// hundreds of thousands of elements through the transforms
func largeStreams(c *h.Ctx) {
	var (
		R    = c.R
		n    = largeN(c)
		vals = make([]int, n)
		mod  = []int{2, 1000, 1 << 30}[R.Intn(3)]
	)
	for i := range vals {
		vals[i] = R.Intn(mod)
	}
	keep := append([]int(nil), vals...)
	src := func() iter.Iter[int] { return iter.OfSlice(vals) }
	judge := func(name string, it iter.Iter[int], want []int) {
		got, err, st := drain(it.Next, len(want)+2)
		c.Check(sameSlice(got, want) && err == iter.EOI && st == "", "large-"+name, "%s of %d elements under %d: %d elements, want %d, %v %s", name, n, mod, len(got), len(want), err, st)
	}
	c.NoPanic("large-panic", "a stream of many elements", func() {
		var (
			distinct, dup, even, twice, runs []int
			sum, maxV                        int
			seen                             = map[int]int{}
			rev                              = make([]int, n)
			sorted                           = append([]int(nil), vals...)
		)
		for i, v := range vals {
			if seen[v]++; seen[v] == 1 {
				distinct = append(distinct, v)
			} else if seen[v] == 2 {
				dup = append(dup, v)
			}
			if v%2 == 0 {
				even = append(even, v)
			}
			twice = append(twice, 2*v)
			rev[n-1-i] = v
			sum += v
			maxV = max(maxV, v)
			runs = append(runs, v, v)
		}
		sort.Ints(sorted)
		k := n - 1 - R.Intn(min(n, 40000))
		judge("Map", stream.Map(func(v int) int { return 2 * v })(src()), twice)
		judge("Filter", stream.Filter(func(v int) bool { return v%2 == 0 })(src()), even)
		judge("Filter", stream.Filter(func(v int) bool { return v < 0 })(src()), nil)
		judge("Skip", stream.Skip[int](uint(k))(src()), vals[k:])
		judge("Limit", stream.Limit[int](uint(k))(src()), vals[:k])
		judge("Distinct", stream.Distinct(src()), distinct)
		judge("Duplicate", stream.Duplicate(src()), dup)
		judge("Reverse", stream.Reverse(src()), rev)
		judge("SortOrdered", stream.SortOrdered(src()), sorted)
		judge("Count", stream.Count(src()), []int{n})
		judge("Sum", stream.Sum(src()), []int{sum})
		judge("Max", stream.Max(src()), []int{maxV})
		judge("Reduce", stream.Reduce(func(a, b int) int { return a*31 + b })(src()), []int{func() (a int) {
			a = vals[0]
			for _, v := range vals[1:] {
				a = a*31 + v
			}
			return
		}()})
		slc, err := stream.ReduceToSlice(src()).Next()
		c.Check(sameSlice(slc, vals) && err == nil, "large-ReduceToSlice", "ReduceToSlice of %d elements: %d, %v", n, len(slc), err)
		into := make([]int, n)
		_, err = stream.ReduceIntoSlice(into)(src()).Next()
		c.Check(sameSlice(into, vals) && err == nil, "large-ReduceIntoSlice", "ReduceIntoSlice of %d elements: %v", n, err)
		judge("ExpandSlices", stream.ExpandSlices(stream.Map(func(v int) []int { return []int{v, v} })(src())), runs)
		judge("ExpandSlices", stream.ExpandSlices(iter.Of(vals[:k], vals[k:])), vals)
		i := 0
		m, err := stream.ReduceToMap(stream.Map(func(v int) tuple.Two[int, int] { i++; return tuple.Of2(i, v) })(src())).Next()
		ok := len(m) == n && err == nil
		for i, v := range vals {
			ok = ok && m[i+1] == v
		}
		c.Check(ok, "large-ReduceToMap", "ReduceToMap of %d elements: %d, %v", n, len(m), err)
		pairs, err, _ := drain(stream.ExpandMaps(iter.Of(m)).Next, n+2)
		ok = len(pairs) == n && err == iter.EOI
		for _, p := range pairs {
			ok = ok && p.T > 0 && p.T <= n && vals[p.T-1] == p.U
		}
		c.Check(ok, "large-ExpandMaps", "ExpandMaps of %d entries: %d, %v", n, len(pairs), err)
		last := -1
		found, err := stream.AnyMatch(func(v int) bool { last++; return last == n-1 })(src()).Next()
		c.Check(found && err == nil && last == n-1, "large-AnyMatch", "AnyMatch of the last of %d elements: %v %v", n, found, err)
		all, err := stream.AllMatch(func(v int) bool { return v >= 0 })(src()).Next()
		c.Check(all && err == nil, "large-AllMatch", "AllMatch of %d elements: %v %v", n, all, err)
		c.Check(sameSlice(vals, keep), "large-changed", "the source of %d elements was changed", n)
	})
	c.EvN("elements of long streams", n)
	c.Obs("large", n, mod, R.Int63())
	c.Sample("%d elements under %d", n, mod)
}

// largeDoc writes a large document: many keys, many elements, long strings, numbers and white space.
func largeDoc(c *h.Ctx, kind int) (text string, valid bool) {
	var (
		R  = c.R
		sb strings.Builder
		n  = largeN(c)
	)
	if n > 100000 {
		n = 100000 + n%1000
	}
	valid = R.Intn(3) > 0
	switch kind % 8 {
	case 0: // many keys, of which maybe one is repeated
		dup := 0
		if !valid {
			dup = R.Intn(max(1, n-1))
		}
		sb.WriteString("{")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, `"k%d":%d,`, i, i)
		}
		if valid {
			dup = n
		}
		fmt.Fprintf(&sb, `"k%d":null}`, dup)
	case 1, 2: // many elements
		sb.WriteString("[")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "%d,", i)
		}
		sb.WriteString([]string{"]", "0]"}[map[bool]int{true: 1}[valid]])
		if kind%8 == 2 {
			return `{"a":` + sb.String() + "}", valid
		}
	case 3: // a long string
		sb.WriteString(`["`)
		for i := 0; i < n; i++ {
			sb.WriteString([]string{"a", "é", "🙂", `\n`, `\u00e9`, `\ud83d\ude42`, `\\`, `\"`}[R.Intn(8)])
		}
		sb.WriteString([]string{`\"]`, `"]`}[map[bool]int{true: 1}[valid]])
	case 4: // a long number
		digits := func(n int) {
			for i := 0; i < n; i++ {
				sb.WriteByte(byte('0' + R.Intn(10)))
			}
		}
		sb.WriteString(`[-1`)
		digits(sizeOr(c, R.Intn(n)))
		sb.WriteString(".")
		digits(sizeOr(c, 1+R.Intn(n)))
		sb.WriteString("E-")
		digits(sizeOr(c, 1+R.Intn(n)))
		sb.WriteString([]string{`e1]`, `]`}[map[bool]int{true: 1}[valid]])
	case 5: // much white space
		w := func() string {
			return strings.Repeat([]string{" ", "\n", "\r\n", "\t"}[R.Intn(4)], sizeOr(c, R.Intn(n)))
		}
		fmt.Fprintf(&sb, `%s{%s"a"%s:%s[%s1%s]%s}%s%s`, w(), w(), w(), w(), w(), w(), w(), w(), []string{`x`, ``}[map[bool]int{true: 1}[valid]])
	case 6: // a long key
		k := strings.Repeat("ké", n)
		fmt.Fprintf(&sb, `{"%s":1,"%s%s":2}`, k, k, []string{``, `x`}[map[bool]int{true: 1}[valid]])
	default: // many small records
		sb.WriteString("[")
		for i := 0; i < sizeOr(c, n/10); i++ {
			fmt.Fprintf(&sb, `{"id":%d,"n":"x%d","t":[true,false,null,{}]},`, i, i)
		}
		sb.WriteString([]string{"{]", "{}]"}[map[bool]int{true: 1}[valid]])
	}
	return sb.String(), valid
}

func largeJSON(c *h.Ctx) {
	R := c.R
	text, valid := largeDoc(c, c.Idx)
	want, p, werr := jdoc(text)
	if !c.Check((werr == nil) == valid, "large-oracle", "the model is wrong about a document that begins with %.60q: %v", text, werr) {
		return
	}
	rd := func() goio.Reader {
		f := newEOFReader(R, text)
		f.empties, f.maxChunk = 0, []int{0, 0, 4096}[R.Intn(3)]
		return f
	}
	c.NoPanic("large-panic", "a large document", func() {
		v, err := parse.Parse(rd())
		c.Check((err == nil) == valid && (!valid || nodeOf(v).eq(want)), "large-parse", "a document of %d bytes that begins with %.60q: %v, valid %v", len(text), text, err, valid)
		els, err, st := drain(parse.Iterate(rd()).Next, len(text)+2)
		ok := (err == iter.EOI) == valid && st == ""
		switch {
		case text[0] != '[':
			ok = ok && (!valid || len(els) == 1 && nodeOf(els[0]).eq(want))
		case valid:
			ok = ok && len(els) == len(want.arr)
		default:
			ok = ok && len(els) >= min(p.conf, len(p.elem)) && len(els) <= len(p.elem)
		}
		if text[0] == '[' {
			for i := 0; ok && i < len(els); i++ {
				ok = nodeOf(els[i]).eq(p.elem[i])
			}
		}
		c.Check(ok, "large-iterate", "a document of %d bytes that begins with %.60q: %d elements, %v %s, valid %v", len(text), text, len(els), err, st, valid)
	})
	c.EvN("bytes of large documents", len(text))
	c.Obs("large", c.Idx, len(text), valid)
	c.Sample("%.60q... of %d bytes, valid %v", text, len(text), valid)
}

// largeNode is a large value, and what a conversion to a Value is given for it.
func largeNode(c *h.Ctx, kind int) (*jnode, any) {
	R, n := c.R, largeN(c)
	if n > 100000 {
		n = 100000 + n%1000
	}
	switch kind % 4 {
	case 0:
		var (
			node = &jnode{k: 'a'}
			vals []any
		)
		for i := 0; i < n; i++ {
			node.arr = append(node.arr, &jnode{k: 'n', s: fmt.Sprint(i)})
			vals = append(vals, i)
		}
		return node, vals
	case 1:
		var (
			node = &jnode{k: 'o', obj: map[string]*jnode{}}
			vals = map[string]any{}
		)
		for i := 0; i < n; i++ {
			k := fmt.Sprint("k", i)
			node.obj[k], vals[k] = &jnode{k: 's', s: k + "é"}, k+"é"
		}
		return node, vals
	case 2:
		s := strings.Repeat("a\"\\\x01é🙂", n/6) + strings.Repeat("x", R.Intn(10))
		if c.Size > 0 {
			s = strings.Repeat([]string{"x", "é", "\"", "\x01", "🙂"}[R.Intn(5)], n)
		}
		return &jnode{k: 'a', arr: []*jnode{{k: 's', s: s}, {k: 'o', obj: map[string]*jnode{s: {k: '0'}}}}}, []any{s, map[string]any{s: nil}}
	default:
		s := "1" + strings.Repeat("0123456789", n/10) + ".5"
		if c.Size > 0 {
			s, n = "1"+strings.Repeat("7", n-1)+".5", 2*n
		}
		i, _ := new(big.Int).SetString(s[:n/2], 10)
		return &jnode{k: 'a', arr: []*jnode{{k: 'n', s: s}, {k: 'n', s: s[:n/2]}}}, []any{json.NumberString(s), i}
	}
}

func largeWrite(c *h.Ctx) {
	node, val := largeNode(c, c.Idx)
	c.NoPanic("large-panic", "writing a large value", func() {
		v, err := toValue(c.R, val)
		if !c.Check(err == nil, "large-value", "%v", err) {
			return
		}
		var buf bytes.Buffer
		err = write.Write(v, writer.OfIOWriterAsRunes(&buf))
		got, _, perr := jdoc(buf.String())
		c.Check(err == nil && perr == nil && got.eq(node), "large-write", "a value of kind %d written as %d bytes: %v, %v", c.Idx%4, buf.Len(), err, perr)
		back, err := parse.Parse(&buf)
		c.Check(err == nil && nodeOf(back).eq(node), "large-read-back", "a value of kind %d: %v", c.Idx%4, err)
		c.Ev("large values written")
		c.Obs("large", c.Idx)
		c.Sample("kind %d", c.Idx%4)
	})
}

func largeValues(c *h.Ctx) {
	node, val := largeNode(c, c.Idx)
	c.NoPanic("large-panic", "converting a large value", func() {
		v, err := toValue(c.R, val)
		if !c.Check(err == nil && nodeOf(v).eq(node), "large-value", "a value of kind %d: %v", c.Idx%4, err) {
			return
		}
		out := v.ToAny()
		again, err := toValue(c.R, out)
		c.Check(err == nil && nodeOf(again).eq(node), "large-to-any", "a value of kind %d: %v", c.Idx%4, err)
		scramble(val)
		scramble(out)
		c.Check(nodeOf(v).eq(node), "large-shared", "a value of kind %d changed with what it was made from, or with what was made from it", c.Idx%4)
		c.Ev("large values")
		c.Obs("large", c.Idx)
	})
}

func largePaths(c *h.Ctx) {
	R := c.R
	n := sizeOr(c, 70000+R.Intn(70000))
	arr := make([]any, n)
	obj := map[string]any{}
	for i := range arr {
		arr[i] = map[string]any{"i": i, "a": []any{i}}
		obj[fmt.Sprint("k", i)] = i
	}
	long := strings.Repeat("ké", n)
	obj[long] = "long"
	c.NoPanic("large-panic", "a path into a large document", func() {
		doc := json.MustToValue(map[string]any{"arr": arr, "obj": obj})
		for k := 0; k < 200 && (k < 12 || c.Size == 0); k++ {
			i := R.Intn(n + n/20)
			if k < 8 {
				i = []int{0, n - 1, n, 65535, 65536, 32768, 32767, 65537}[k]
			}
			for _, p := range []string{".arr[%d].i", ".arr[%d].a[0]", ".obj.k%d"} {
				p = fmt.Sprintf(p, i)
				f, err := json.ParsePath(p)
				if !c.Check(err == nil, "large-path", "ParsePath(%q): %v", p, err) {
					return
				}
				v, err := f(doc)
				ok := err != nil
				if i < n {
					ok = err == nil && v.Type() == json.Number && v.AsString() == fmt.Sprint(i)
				}
				c.Check(ok, "large-lookup", "%s in a document of %d elements: %v, %v", p, n, nodeOf(v), err)
				c.Ev("lookups in large documents")
			}
		}
		f, err := json.ParsePath(".obj." + long)
		if c.Check(err == nil, "large-path", "ParsePath of a key of %d bytes: %v", len(long), err) {
			v, err := f(doc)
			c.Check(err == nil && v.Type() == json.String && v.AsString() == "long", "large-lookup", "a key of %d bytes: %v, %v", len(long), nodeOf(v), err)
		}
	})
	c.Obs("large", n)
}

// thousands of receivers
func largeRegistry(c *h.Ctx) {
	var (
		R    = c.R
		reg  event.Registry[int, []int]
		ids  = []int{1, 3, 300}[R.Intn(3)]
		n    = sizeOr(c, 1500+R.Intn(4000))
		want = make(map[int][]int)
		all  = make([]*numRcvr, n)
	)
	for i := range all {
		all[i] = &numRcvr{i}
		id := R.Intn(ids) - ids/2
		reg.Register(id, all[i])
		want[id] = append(want[id], i)
	}
	expect := func() (res []int) {
		for id := -ids; id <= ids; id++ {
			res = append(res, want[id]...)
		}
		return
	}
	c.NoPanic("large-panic", "a registry of many receivers", func() {
		got := reg.Send(nil)
		c.Check(sameSlice(got, expect()), "large-send", "%d receivers of %d ids: %d ran", n, ids, len(got))
		for k := 0; k < 40; k++ {
			id := R.Intn(ids) - ids/2
			if l := want[id]; len(l) > 0 {
				i := R.Intn(len(l))
				if k%4 == 0 {
					i = len(l) - 1
				}
				reg.Remove(id, all[l[i]], k%2 == 0)
				want[id] = append(append([]int{}, l[:i]...), l[i+1:]...)
			}
		}
		got = reg.Send(nil)
		c.Check(sameSlice(got, expect()), "large-send", "%d receivers of %d ids, 40 removed: %d ran", n, ids, len(got))
	})
	c.EvN("receivers of large registries", n)
	c.Obs("large", n, ids)
	c.Sample("%d receivers of %d ids", n, ids)
}

type numRcvr struct{ n int }

func (r *numRcvr) Process(l []int) []int { return append(l, r.n) }

// thousands of routes, and long paths
func largeRoutes(c *h.Ctx) {
	var (
		R   = c.R
		mux rest.ServeMux
		n   = sizeOr(c, 1200+R.Intn(2500))
		got []string
		id  = -1
	)
	hd := func(i int) rest.Handler {
		return rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) { id, got = i, parts })
	}
	send := func(method, path string) int {
		id, got = -1, nil
		rec := httptest.NewRecorder()
		r := httptest.NewRequest(method, "/", nil)
		r.URL.Path = path
		mux.ServeHTTP(rec, r)
		return rec.Code
	}
	c.NoPanic("large-panic", "many routes", func() {
		for i := 0; i < n; i++ {
			if err := mux.Handle([]string{"GET", "PUT"}[i%2], fmt.Sprintf("^/r%d/(.*)$", i), hd(i)); err != nil {
				c.Fail("large-register", "route %d of %d: %v", i, n, err)
				return
			}
		}
		for k := 0; k < 60 && (k < 4 || c.Size == 0); k++ {
			i := R.Intn(n)
			if k == 0 {
				i = n - 1
			}
			rest := strings.Repeat("é/", sizeOr(c, R.Intn(3)*R.Intn(20000))) + "x"
			path := fmt.Sprintf("/r%d/%s", i, rest)
			code := send([]string{"GET", "PUT"}[i%2], path)
			c.Check(code == 200 && id == i && sameSlice(got, []string{path, rest}), "large-route", "route %d of %d, a path of %d bytes: %d, route %d", i, n, len(path), code, id)
			code = send([]string{"PUT", "GET"}[i%2], path)
			c.Check(code == 405 && id == -1, "large-method", "the other method of route %d of %d: %d, route %d", i, n, code, id)
			c.EvN("requests of large routers", 2)
		}
		c.Check(send("GET", fmt.Sprintf("/r%d/", n)) == 404, "large-none", "a path that no route of %d has", n)
		// many captured parts
		m := sizeOr(c, 30+R.Intn(300))
		mux.MustHandle("GET", "^/parts"+strings.Repeat("/([a-z0-9]*)", m)+"$", hd(n))
		want := []string{""}
		for i := 0; i < m; i++ {
			want = append(want, fmt.Sprint("p", i))
		}
		want[0] = "/parts/" + strings.Join(want[1:], "/")
		c.Check(send("GET", want[0]) == 200 && id == n && sameSlice(got, want), "large-parts", "%d captured parts: %d", m, len(got))
	})
	c.Obs("large", n)
	c.Sample("%d routes", n)
}

// thousands of routes registered by several threads
func largeRegister(c *h.Ctx) {
	var (
		mux  rest.ServeMux
		wg   sync.WaitGroup
		n    = 2400
		hits = make([]int, n)
	)
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := g; i < n; i += 6 {
				mux.MustHandle(fmt.Sprint("M", i), "^/x$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) { hits[i]++ }))
			}
		}(g)
	}
	wg.Wait()
	lost := 0
	for k := 0; k < 700; k++ {
		i := c.R.Intn(n)
		if k < 100 {
			i = n - 1 - k
		}
		was := hits[i]
		rec := httptest.NewRecorder()
		mux.ServeHTTP(rec, httptest.NewRequest(fmt.Sprint("M", i), "/x", nil))
		if rec.Code != 200 || hits[i] != was+1 {
			lost++
		}
	}
	c.Check(lost == 0, "large-lost", "%d requests for %d routes registered by 6 threads were not served", lost, n)
	c.EvN("routes of large routers", n)
	c.Obs("large", c.Idx)
}

// megabytes of content
func largeContent(c *h.Ctx) {
	var (
		R   = c.R
		n   = sizeOr(c, 30000+R.Intn(60000))
		buf bytes.Buffer
	)
	c.NoPanic("large-panic", "a large request body", func() {
		if c.Idx%2 == 0 {
			w := csv.NewWriter(&buf)
			cell := strings.Repeat("q\"é\n", sizeOr(c, R.Intn(60000)))
			for i := 0; i < n; i++ {
				w.Write([]string{fmt.Sprint(i), "some text that is not short"})
			}
			w.Write([]string{"-1", cell})
			w.Flush()
			r, _ := newReq(R, "Content-Type", "text/csv", &buf)
			it := rest.NegotiateCSVContent(r)
			for i := 0; i < n; i++ {
				if row, err := it.Next(); err != nil || row[0] != fmt.Sprint(i) || len(row) != 2 || row[1] != "some text that is not short" {
					c.Fail("large-csv", "row %d of %d: %q, %v", i, n, row, err)
					return
				}
			}
			row, err := it.Next()
			c.Check(err == nil && row[1] == cell, "large-csv-cell", "a cell of %d bytes: %v", len(cell), err)
			_, err = it.Next()
			c.Check(err == iter.EOI, "large-csv-end", "after %d rows: %v", n, err)
		} else {
			buf.WriteString("[")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&buf, `{"id":%d,"name":"some text that is not short"},`, i)
			}
			buf.WriteString("{}]")
			r, _ := newReq(R, "Content-Type", "application/json", &buf)
			it := rest.NegotiateJSONContent(r)
			for i := 0; i < n; i++ {
				if v, err := it.Next(); err != nil || v.Type() != json.Object || v.AsMap()["id"].AsString() != fmt.Sprint(i) || v.AsMap()["name"].AsString() != "some text that is not short" {
					c.Fail("large-json", "element %d of %d: %v, %v", i, n, nodeOf(v), err)
					return
				}
			}
			v, err := it.Next()
			c.Check(err == nil && v.Type() == json.Object && len(v.AsMap()) == 0, "large-json-last", "%v", err)
			_, err = it.Next()
			c.Check(err == iter.EOI, "large-json-end", "after %d elements: %v", n, err)
		}
	})
	c.EvN("rows and elements of large bodies", n)
	c.Obs("large", c.Idx%2, n)
	c.Sample("%d rows or elements", n)
}

// many values, and long ones, to the writers
func largeWriters(c *h.Ctx) {
	var (
		R    = c.R
		n    = largeN(c)
		vals = ramp(n)
		strs []string
		all  strings.Builder
		eol  strings.Builder
	)
	for i := 0; i < 5; i++ {
		s := strings.Repeat([]string{"a", "é", "🙂\n"}[R.Intn(3)], sizeOr(c, largeN(c)>>R.Intn(3)))
		strs = append(strs, s)
		all.WriteString(s)
		eol.WriteString(s + "\n")
	}
	c.NoPanic("large-panic", "writing much", func() {
		var dst []int
		err := writer.OfSliceWriter(&dst).Write(vals...)
		c.Check(err == nil && sameSlice(dst, vals), "large-slice", "%d values to a slice: %d, %v", n, len(dst), err)
		m := map[int]int{}
		var pairs []tuple.Two[int, int]
		for _, v := range vals {
			pairs = append(pairs, tuple.Of2(v, ^v))
		}
		err = writer.OfMapWriter(m).Write(pairs...)
		ok := err == nil && len(m) == n
		for _, v := range vals {
			ok = ok && m[v] == ^v
		}
		c.Check(ok, "large-map", "%d entries to a map: %d, %v", n, len(m), err)
		var buf bytes.Buffer
		err = writer.OfIOWriterAsBytes(&buf).Write([]byte(all.String())...)
		c.Check(err == nil && buf.String() == all.String(), "large-bytes", "%d bytes: %d, %v", all.Len(), buf.Len(), err)
		buf.Reset()
		err = writer.OfIOWriterAsRunes(&buf).Write([]rune(all.String())...)
		c.Check(err == nil && buf.String() == all.String(), "large-runes", "%d bytes as runes: %d, %v", all.Len(), buf.Len(), err)
		buf.Reset()
		err = writer.OfIOWriterAsStrings(&buf).Write(strs...)
		c.Check(err == nil && buf.String() == all.String(), "large-strings", "%d bytes as strings: %d, %v", all.Len(), buf.Len(), err)
		buf.Reset()
		err = writer.OfIOWriterAsLines(&buf).Write(strs...)
		c.Check(err == nil && buf.String() == eol.String(), "large-lines", "%d bytes as lines: %d, %v", eol.Len(), buf.Len(), err)
		buf.Reset()
		many := make([]string, n)
		for i := range many {
			many[i] = fmt.Sprint(i)
		}
		err = writer.OfIOWriterAsLines(&buf).Write(many...)
		c.Check(err == nil && buf.String() == strings.Join(many, "\n")+"\n", "large-lines", "%d lines: %d bytes, %v", n, buf.Len(), err)
	})
	c.EvN("bytes of large writes", all.Len())
	c.Obs("large", n, all.Len())
}

// many functions, values and cleanups
func largeFuncs(c *h.Ctx) {
	var (
		R = c.R
		n = sizeOr(c, []int{17, 33, 65, 129, 257, 1025, 5000, 66000}[c.Idx%8]+R.Intn(3))
	)
	c.NoPanic("large-panic", "many arguments", func() {
		decides := R.Intn(n)
		if R.Intn(2) == 0 {
			decides = n - 1
		}
		fs := func(odd bool, calls *int) (res []func(int) bool) {
			for i := 0; i < n; i++ {
				i := i
				res = append(res, func(int) bool {
					if *calls != i {
						*calls = -n * 2
					}
					*calls++
					return (i == decides) == odd
				})
			}
			return
		}
		var a, o int
		and, or := funcs.And(fs(false, &a)...)(1), funcs.Or(fs(true, &o)...)(1)
		c.Check(!and && a == decides+1, "large-and", "And of %d filters of which number %d is false: %v after %d", n, decides, and, a)
		c.Check(or && o == decides+1, "large-or", "Or of %d filters of which number %d is true: %v after %d", n, decides, or, o)
		vals := ramp(n)
		in := funcs.In(vals...)
		c.Check(in(decides) && in(n-1) && in(0) && !in(n) && !in(-1), "large-in", "In of %d values", n)

		order := 0
		var closers []func()
		for i := 0; i < n; i++ {
			i := i
			closers = append(closers, func() {
				if order == n-1-i {
					order++
				}
			})
		}
		funcs.TryTo(func() {}, func(any) {}, closers...)
		c.Check(order == n, "large-try", "%d of %d cleanups ran in reverse order", order, n)

		if n < 2000 {
			var cs []func(int) int
			for i := 0; i < n; i++ {
				i := i
				cs = append(cs, func(v int) int { return v*31 + i })
			}
			want := 7
			for _, f := range cs {
				want = f(want)
			}
			c.Check(funcs.Compose(cs[0], cs[1:]...)(7) == want, "large-compose", "Compose of %d functions", n)
		}

		anys, rows, mp := make([]any, n), make([]any, n), make(map[int]any, n)
		for i := range anys {
			anys[i], rows[i], mp[i] = i, []any{i, -i}, fmt.Sprint(i)
		}
		s, err := funcs.ConvertToSlice[int]("%T %T", anys)
		c.Check(err == nil && sameSlice(s, vals), "large-convert", "ConvertToSlice of %d elements: %d, %v", n, len(s), err)
		s2, err := funcs.ConvertToSlice2[int]("%T %T", rows)
		ok := err == nil && len(s2) == n
		for i, r := range s2 {
			ok = ok && sameSlice(r, []int{i, -i})
		}
		c.Check(ok, "large-convert", "ConvertToSlice2 of %d rows: %d, %v", n, len(s2), err)
		m, err := funcs.ConvertToMap[int, string]("%T %T", mp)
		ok = err == nil && len(m) == n
		for i := range vals {
			ok = ok && m[i] == fmt.Sprint(i)
		}
		c.Check(ok, "large-convert", "ConvertToMap of %d entries: %d, %v", n, len(m), err)
		anys[decides] = "not an int"
		_, err = funcs.ConvertToSlice[int]("%T %T", anys)
		c.Check(err != nil, "large-convert", "ConvertToSlice of %d elements of which number %d is not an int", n, decides)
	})
	c.EvN("arguments of variadic functions", n)
	c.Obs("large", n)
	c.Sample("%d arguments", n)
}

// long names of many words
func largeCases(c *h.Ctx) {
	var (
		R     = c.R
		words = sizeOr(c, 1+R.Intn([]int{30, 300, 5000}[R.Intn(3)]))
		snake strings.Builder
		camel strings.Builder
	)
	letters := []string{"a", "b", "z", "é", "ж", "𐐨", "w", "x1"}
	for i := 0; i < words; i++ {
		f := letters[R.Intn(7)]
		rest := ""
		for k := R.Intn([]int{1, 6, 60}[R.Intn(3)]); k > 0; k-- {
			rest += letters[R.Intn(8)]
		}
		if R.Intn(300) == 0 {
			rest = strings.Repeat("long", 300)
		}
		if i > 0 {
			snake.WriteByte('_')
		}
		snake.WriteString(f + rest)
		camel.WriteString(strings.ToUpper(f) + rest)
	}
	c.NoPanic("large-panic", "a long name", func() {
		c.Check(funcs.SnakeToCamelCase(snake.String()) == camel.String(), "large-camel", "a name of %d words, %d bytes", words, snake.Len())
		c.Check(funcs.CamelCaseToSnakeCase(camel.String()) == snake.String(), "large-snake", "a name of %d words, %d bytes", words, snake.Len())
	})
	c.EvN("words of long names", words)
	c.Obs("large", words, snake.Len())
	c.Sample("%d words, %d bytes", words, snake.Len())
}

// large values in unions, optionals, results and tuples
func largeUnions(c *h.Ctx) {
	var (
		R = c.R
		n = largeN(c)
		s = ramp(n)
	)
	c.NoPanic("large-panic", "a large value", func() {
		f := union.First(s[n-1-R.Intn(n):])
		c.Check(f.Present(), "large-first", "First of a slice of at most %d", n)
		f = union.First(s)
		c.Check(f.Present() && f.Get() == 0, "large-first", "First of a slice of %d", n)
		u := union.Of2T[[]int, [300]int](s)
		c.Check(u.Which() == union.T && sameSlice(u.T(), s), "large-union", "a slice of %d", n)
		var arr [300]int
		arr[299] = n
		u.SetU(arr)
		v := u
		arr[299]++
		c.Check(u.U()[299] == n && v.U()[299] == n, "large-union", "a large array")
		r := union.OfResult(s)
		c.Check(r.HasResult() && sameSlice(r.Get(), s), "large-result", "a slice of %d", n)
		a, b := tuple.Of2(s, arr).Values()
		c.Check(sameSlice(a, s) && b == arr, "large-tuple", "a slice of %d", n)
	})
	c.Ev("large values held")
	c.Obs("large", n)
}

// many pointers, many fields
func largeTypes(c *h.Ctx) {
	var (
		R     = c.R
		depth = min(sizeOr(c, 1+R.Intn(60)), 60)
		val   = goreflect.ValueOf(42)
	)
	if R.Intn(2) == 0 {
		val = goreflect.ValueOf("x")
	}
	base := val.Type()
	typ := base
	nils := goreflect.Zero(base)
	for i := 0; i < depth; i++ {
		p := goreflect.New(typ)
		p.Elem().Set(val)
		val, typ = p, goreflect.PointerTo(typ)
		nils = goreflect.Zero(typ)
	}
	c.NoPanic("large-panic", "many pointers", func() {
		c.Check(reflect.NumPointers(typ) == depth, "large-pointers", "NumPointers of %d pointers to %v: %d", depth, base, reflect.NumPointers(typ))
		c.Check(reflect.DerefType(typ) == base, "large-deref", "DerefType of %d pointers to %v: %v", depth, base, reflect.DerefType(typ))
		d := reflect.DerefValue(val)
		c.Check(d.IsValid() && d.Type() == base && fmt.Sprint(d) == fmt.Sprint(map[bool]any{true: 42, false: "x"}[base.Kind() == goreflect.Int]), "large-deref", "DerefValue of %d pointers to %v: %v", depth, base, d)
		c.Check(!reflect.DerefValue(nils).IsValid(), "large-deref", "DerefValue of a nil pointer of depth %d", depth)
		one := reflect.DerefTypeMaxOnePtr(typ)
		want := base
		if depth > 0 {
			want = goreflect.PointerTo(base)
		}
		c.Check(one == want, "large-one-ptr", "DerefTypeMaxOnePtr of %d pointers to %v: %v", depth, base, one)
		ov := reflect.DerefValueMaxOnePtr(val)
		c.Check(ov.IsValid() && ov.Type() == want, "large-one-ptr", "DerefValueMaxOnePtr of %d pointers to %v: %v", depth, base, ov)

		n := sizeOr(c, 2+R.Intn(400))
		var fields []goreflect.StructField
		for i := 0; i < n; i++ {
			fields = append(fields, goreflect.StructField{Name: fmt.Sprint("F", i), Type: []goreflect.Type{base, typ}[R.Intn(2)], Tag: goreflect.StructTag(fmt.Sprintf(`n:"%d"`, i))})
		}
		st := goreflect.StructOf(fields)
		by := reflect.FieldsByName(st)
		ok := len(by) == n
		for i := 0; i < n; i++ {
			f, have := by[fmt.Sprint("F", i)]
			ok = ok && have && f.Type == fields[i].Type && f.Tag == fields[i].Tag && len(f.Index) == 1 && f.Index[0] == i
			g := reflect.GetFieldByName(st, fmt.Sprint("F", i))
			ok = ok && g.Name == f.Name && g.Index[0] == i
		}
		c.Check(ok, "large-fields", "a struct of %d fields: %d", n, len(by))
	})
	c.Ev("types of many pointers or fields")
	c.Obs("large", depth, base, R.Int63())
}

// numbers of thousands of digits
func largeNumbers(c *h.Ctx) {
	var (
		R    = c.R
		bits = 1024 + sizeOr(c, 976+R.Intn([]int{4000, 60000}[R.Intn(2)]))
		i    = new(big.Int).Rand(R, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	)
	i.SetBit(i, bits, 1)
	if R.Intn(2) == 0 {
		i.Neg(i)
	}
	keep := new(big.Int).Set(i)
	c.NoPanic("large-panic", "a large number", func() {
		var (
			s string
			b *big.Int
			r *big.Rat
			f *big.Float
		)
		c.Check(conv.To(i, &s) == nil && s == i.String(), "large-int-text", "an integer of %d bits", bits)
		c.Check(conv.To(s, &b) == nil && b.Cmp(i) == 0, "large-text-int", "an integer of %d bits", bits)
		c.Check(conv.To(i, &r) == nil && r.IsInt() && r.Num().Cmp(i) == 0, "large-int-rat", "an integer of %d bits", bits)
		c.Check(conv.To(s, &r) == nil && r.IsInt() && r.Num().Cmp(i) == 0, "large-text-rat", "an integer of %d bits", bits)
		c.Check(conv.To(r, &b) == nil && b.Cmp(i) == 0, "large-rat-int", "an integer of %d bits", bits)
		if err := conv.To(i, &f); err == nil {
			x, acc := f.Int(nil)
			c.Check(acc == big.Exact && x.Cmp(i) == 0, "large-int-float", "an integer of %d bits: a float that differs", bits)
		}
		if err := conv.To(s, &f); err == nil {
			x, acc := f.Int(nil)
			c.Check(acc == big.Exact && x.Cmp(i) == 0, "large-text-float", "an integer of %d bits: a float that differs", bits)
		}
		for _, t := range []func() error{
			func() error { var v int64; return conv.To(i, &v) },
			func() error { var v uint64; return conv.To(s, &v) },
			func() error { var v int8; return conv.To(i, &v) },
			func() error { var v float64; return conv.To(i, &v) },
			func() error { var v float32; return conv.To(s, &v) },
			func() error { var v float64; return conv.To(r, &v) },
		} {
			c.Check(t() != nil, "large-accepted", "an integer of %d bits was accepted by a type that cannot hold it", bits)
		}
		c.Check(i.Cmp(keep) == 0, "large-changed", "an integer of %d bits was changed", bits)
		q := new(big.Rat).SetFrac(i, big.NewInt(int64(3+2*R.Intn(5))))
		c.Check(conv.To(q, &s) == nil, "large-rat-text", "a rational of %d bits", bits)
		r = nil
		c.Check(conv.To(s, &r) == nil && r.Cmp(q) == 0, "large-text-rat", "a rational of %d bits", bits)
	})
	c.EvN("bits of large numbers", bits)
	c.Obs("large", bits, i.Bit(0), i.Bit(77))
}
