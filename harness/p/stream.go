package p

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	goreflect "reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"verif/h"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
)

var errMapper = errors.New("mapper refused")

// scripted is a source iterator that records how it is used.
type scripted struct {
	vals  []int
	final error
	pos   int
	after int
}

func (s *scripted) iter() iter.Iter[int] {
	return iter.OfIter(func() (int, error) {
		if s.pos < len(s.vals) {
			s.pos++
			return s.vals[s.pos-1], nil
		}
		s.after++
		return 0, s.final
	})
}

type istage = func(iter.Iter[int]) iter.Iter[int]

// stage is a transform and the list model of the transform.
type stage struct {
	name  string
	apply istage
	model func(vals []int, err error) ([]int, error)
}

func modelReduce(f func(a, b int) int, id ...int) func(vals []int, err error) ([]int, error) {
	return func(vals []int, err error) ([]int, error) {
		if err != iter.EOI {
			return nil, err
		}
		if len(vals) == 0 {
			return id, iter.EOI
		}
		acc := vals[0]
		if len(id) > 0 {
			acc = f(id[0], vals[0])
		}
		for _, v := range vals[1:] {
			acc = f(acc, v)
		}
		return []int{acc}, iter.EOI
	}
}

func genStage(R *rand.Rand) stage {
	k := R.Intn(7) - 3
	n := R.Intn(8)
	if R.Intn(12) == 0 {
		n = R.Intn(400)
	}
	switch R.Intn(20) {
	case 0:
		return stage{fmt.Sprintf("Map(*%d+1)", k), stream.Map(func(v int) int { return v*k + 1 }), func(vals []int, err error) ([]int, error) {
			var out []int
			for _, v := range vals {
				out = append(out, v*k+1)
			}
			return out, err
		}}
	case 1:
		return stage{fmt.Sprintf("MapError(%d)", k), stream.MapError(func(v int) (int, error) {
			if v%11 == k {
				return 77, errMapper
			}
			return v - 1, nil
		}), func(vals []int, err error) ([]int, error) {
			var out []int
			for _, v := range vals {
				if v%11 == k {
					return out, errMapper
				}
				out = append(out, v-1)
			}
			return out, err
		}}
	case 2, 3:
		m := 2 + R.Intn(3)
		f := func(v int) bool { return v%m == 0 }
		return stage{fmt.Sprintf("Filter(%%%d)", m), stream.Filter(f), func(vals []int, err error) ([]int, error) {
			var out []int
			for _, v := range vals {
				if f(v) {
					out = append(out, v)
				}
			}
			return out, err
		}}
	case 4, 5:
		n := uint(n)
		if R.Intn(20) == 0 {
			n = []uint{1 << 31, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}[R.Intn(6)]
		}
		return stage{fmt.Sprintf("Skip(%d)", n), stream.Skip[int](n), func(vals []int, err error) ([]int, error) {
			if uint(len(vals)) <= n {
				return nil, err
			}
			return vals[n:], err
		}}
	case 6, 7:
		n := uint(n)
		if R.Intn(20) == 0 {
			n = []uint{1 << 31, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}[R.Intn(6)]
		}
		return stage{fmt.Sprintf("Limit(%d)", n), stream.Limit[int](n), func(vals []int, err error) ([]int, error) {
			if uint(len(vals)) < n {
				return vals, err
			}
			return vals[:n], iter.EOI
		}}
	case 8:
		return stage{"Distinct", stream.Distinct[int], func(vals []int, err error) ([]int, error) {
			var (
				out  []int
				seen = map[int]int{}
			)
			for _, v := range vals {
				if seen[v]++; seen[v] == 1 {
					out = append(out, v)
				}
			}
			return out, err
		}}
	case 9:
		return stage{"Duplicate", stream.Duplicate[int], func(vals []int, err error) ([]int, error) {
			var (
				out  []int
				seen = map[int]int{}
			)
			for _, v := range vals {
				if seen[v]++; seen[v] == 2 {
					out = append(out, v)
				}
			}
			return out, err
		}}
	case 10:
		return stage{"Reverse", stream.Reverse[int], func(vals []int, err error) ([]int, error) {
			if err != iter.EOI {
				return nil, err
			}
			var out []int
			for i := len(vals) - 1; i >= 0; i-- {
				out = append(out, vals[i])
			}
			return out, err
		}}
	case 11, 12:
		desc := R.Intn(2) == 0
		ap := stream.SortOrdered[int]
		if desc {
			ap = stream.SortBy(func(a, b int) bool { return a > b })
		}
		return stage{fmt.Sprintf("Sort(desc=%v)", desc), ap, func(vals []int, err error) ([]int, error) {
			if err != iter.EOI {
				return nil, err
			}
			out := append([]int(nil), vals...)
			sort.Ints(out)
			if desc {
				for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
					out[i], out[j] = out[j], out[i]
				}
			}
			return out, err
		}}
	case 13: // chunk and expand again
		size := 1 + n
		return stage{fmt.Sprintf("Chunk(%d)+Expand", size), func(it iter.Iter[int]) iter.Iter[int] {
			return stream.ExpandSlices(iter.OfIter(func() ([]int, error) {
				var out []int
				for len(out) < size {
					v, e := it.Next()
					if e != nil {
						if len(out) > 0 {
							return out, nil
						}
						return nil, e
					}
					if v%3 == 0 && len(out) == 0 {
						it.Unread(v + 1)
						return []int{v}, nil
					}
					out = append(out, v)
				}
				return out, nil
			}))
		}, func(vals []int, err error) ([]int, error) {
			// mirrors the chunker above, which pushes v+1 back in front after a chunk that starts with a multiple of three
			in := append([]int(nil), vals...)
			var out []int
			for len(in) > 0 {
				cnt := 0
				for cnt < size && len(in) > 0 {
					v := in[0]
					in = in[1:]
					out = append(out, v)
					if v%3 == 0 && cnt == 0 {
						in = append([]int{v + 1}, in...)
						break
					}
					cnt++
				}
			}
			return out, err
		}}
	case 14:
		return stage{"Reduce(+)", stream.Reduce(func(a, b int) int { return a*3 + b }), modelReduce(func(a, b int) int { return a*3 + b })}
	case 15:
		return stage{"Reduce(+,id)", stream.Reduce(func(a, b int) int { return a*3 + b }, k), modelReduce(func(a, b int) int { return a*3 + b }, k)}
	case 16:
		fs := func(x int, a int) int { return x*7 - a }
		if R.Intn(2) == 0 {
			return stage{"ReduceTo(id)", stream.ReduceTo(fs, k), modelReduce(fs, k)}
		}
		return stage{"ReduceTo", stream.ReduceTo(fs), func(vals []int, err error) ([]int, error) {
			if err == iter.EOI && len(vals) == 0 {
				return nil, err
			}
			return modelReduce(fs, 0)(vals, err)
		}}
	case 17:
		return stage{"Count", stream.Count[int], func(vals []int, err error) ([]int, error) {
			if err != iter.EOI {
				return nil, err
			}
			return []int{len(vals)}, err
		}}
	case 18: // a stateful transform: running sum, with fresh state for each data set
		return stage{"Generator(running sum)", stream.Generator(func() func(iter.Iter[int]) iter.Iter[int] {
			sum := 0
			return stream.Map(func(v int) int { sum += v; return sum })
		}), func(vals []int, err error) ([]int, error) {
			var (
				out []int
				sum int
			)
			for _, v := range vals {
				sum += v
				out = append(out, sum)
			}
			return out, err
		}}
	}
	return stage{"Reverse2", func(it iter.Iter[int]) iter.Iter[int] { return stream.Reverse(stream.Reverse(it)) }, func(vals []int, err error) ([]int, error) {
		if err != iter.EOI {
			return nil, err
		}
		return vals, err
	}}
}

func genInts(R *rand.Rand) []int {
	n := R.Intn(12)
	if R.Intn(10) == 0 {
		n = R.Intn(200)
	}
	rng := 21
	if R.Intn(60) == 0 {
		n, rng = R.Intn(3000), []int{1, 2, 21, 5000}[R.Intn(4)]
	}
	out := make([]int, n)
	for i := range out {
		out[i] = R.Intn(rng) - 8
	}
	return out
}

// boolCase: AllMatch, AnyMatch, NoneMatch and their short circuit.
func boolCase(c *h.Ctx) {
	R := c.R
	var (
		vals   = genInts(R)
		final  = iter.EOI
		th     = R.Intn(24) - 8
		f      = func(v int) bool { return v < th }
		want   bool
		werr   error
		kind   = R.Intn(4)
		name   = []string{"AllMatch", "AnyMatch", "NoneMatch", "ReduceToBool"}[kind]
		id     = R.Intn(2) == 0
		stop   = R.Intn(2) == 0
		pred   = f
		ap     func(iter.Iter[int]) iter.Iter[bool]
		looked = 0
	)
	if R.Intn(3) == 0 {
		final = errInjected
	}
	switch kind {
	case 0:
		ap, id, stop = stream.AllMatch(f), true, false
	case 1:
		ap, id, stop = stream.AnyMatch(f), false, true
	case 2:
		pred = func(v int) bool { return !f(v) }
		ap, id, stop = stream.NoneMatch(f), true, false
	case 3:
		ap = stream.ReduceToBool(f, id, stop)
	}
	want = id
	stopped := false
	for _, v := range vals {
		looked++
		want = pred(v)
		if want == stop {
			stopped = true
			break
		}
	}
	if !stopped && final != iter.EOI {
		want, werr = false, final
	}
	src := &scripted{vals: vals, final: final}
	in := src.iter()
	c.NoPanic("stream-bool-panic", name, func() {
		it := ap(in)
		got, err := it.Next()
		c.Ev("bool reduction")
		c.Check(got == want && err == werr, "stream-bool", "%s over %v final %v: got %v, %v; want %v, %v", name, vals, final, got, err, want, werr)
		if stopped {
			c.Ev("short circuit observed")
			c.Check(src.pos == looked, "stream-short-circuit", "%s over %v stop at %d elements but consumed %d", name, vals, looked, src.pos)
		}
		for i := 0; i < 2; i++ {
			_, err = it.Next()
			c.Check(err != nil && (werr == nil && err == iter.EOI || err == werr), "stream-bool-end", "%s second call: %v", name, err)
		}
	})
	c.Obs("bool", name, fmt.Sprint(vals, final, th, id, stop))
}

// avgCase checks integer averages of any width.
func avgInt[T constraint.SignedInteger](c *h.Ctx, typ string) {
	R := c.R
	var (
		vals    []T
		partial = big.NewInt(0)
		over    bool
		n       = R.Intn(6)
	)
	if R.Intn(5) == 0 {
		n = 100 + R.Intn(200)
	}
	for i := 0; i < n; i++ {
		v := T(wrapInt(genRat(R), uint(8*goreflect.TypeFor[T]().Size()), true).Int64())
		if R.Intn(3) == 0 || n > 50 {
			v = T(R.Intn(23) - 10)
			if sum := new(big.Int).Add(partial, big.NewInt(int64(v))); n > 50 && !inBounds(sum, typ) {
				v = -v
			}
		}
		vals = append(vals, v)
		partial.Add(partial, big.NewInt(int64(v)))
		over = over || !inBounds(partial, typ)
	}
	keep := append([]T(nil), vals...)
	c.NoPanic("stream-avg-panic", "AvgInt", func() {
		got, err, sticky := drain(stream.AvgInt(iter.OfSlice(vals)).Next, 3)
		c.Ev("integer average")
		judgeAvg(c, "AvgInt["+typ+"]", fmt.Sprint(vals), len(vals), partial, over, func() []*big.Int {
			var o []*big.Int
			for _, g := range got {
				o = append(o, big.NewInt(int64(g)))
			}
			return o
		}(), err, sticky)
		c.Check(sameSlice(vals, keep), "stream-source-changed", "AvgInt changed its source")
	})
	// absolute values
	c.NoPanic("stream-abs-panic", "Abs", func() {
		var (
			want []T
			werr bool
		)
		for _, v := range keep {
			b := new(big.Int).Abs(big.NewInt(int64(v)))
			if !inBounds(b, typ) {
				werr = true
				break
			}
			want = append(want, T(b.Int64()))
		}
		got, err, sticky := drain(stream.Abs(iter.OfSlice(vals)).Next, len(vals)+1)
		c.Ev("absolute values")
		c.Check(sameSlice(got, want) && sticky == "" && (err == iter.EOI) == !werr, "stream-abs", "Abs[%s] of %v: got %v, %v %s", typ, keep, got, err, sticky)
		c.Check(sameSlice(vals, keep), "stream-source-changed", "Abs changed its source")
	})
	c.Obs("avg", typ, fmt.Sprint(keep))
}

func avgUint[T constraint.UnsignedInteger](c *h.Ctx, typ string) {
	R := c.R
	var (
		vals    []T
		partial = big.NewInt(0)
		over    bool
	)
	n := R.Intn(6)
	if R.Intn(5) == 0 {
		n = 100 + R.Intn(300)
	}
	for i := 0; i < n; i++ {
		v := T(wrapInt(genRat(R), uint(8*goreflect.TypeFor[T]().Size()), false).Uint64())
		if R.Intn(3) == 0 || n > 50 {
			v = T(R.Intn(21))
			if sum := new(big.Int).Add(partial, new(big.Int).SetUint64(uint64(v))); n > 50 && (i > 100 && R.Intn(4) > 0 || !inBounds(sum, typ)) {
				v = 0
			}
		}
		vals = append(vals, v)
		partial.Add(partial, new(big.Int).SetUint64(uint64(v)))
		over = over || !inBounds(partial, typ)
	}
	c.NoPanic("stream-avg-panic", "AvgUint", func() {
		got, err, sticky := drain(stream.AvgUint(iter.OfSlice(vals)).Next, 3)
		c.Ev("integer average")
		judgeAvg(c, "AvgUint["+typ+"]", fmt.Sprint(vals), len(vals), partial, over, func() []*big.Int {
			var o []*big.Int
			for _, g := range got {
				o = append(o, new(big.Int).SetUint64(uint64(g)))
			}
			return o
		}(), err, sticky)
	})
	c.Obs("avg", typ, fmt.Sprint(vals))
}

// roundDiv divides rounding half away from zero.
func roundDivBig(a, b *big.Int) *big.Int {
	r := new(big.Rat).SetFrac(a, b)
	neg := r.Sign() < 0
	r.Abs(r)
	r.Add(r, big.NewRat(1, 2))
	q := new(big.Int).Quo(r.Num(), r.Denom())
	if neg {
		q.Neg(q)
	}
	return q
}

func judgeAvg(c *h.Ctx, name, vals string, n int, sum *big.Int, over bool, got []*big.Int, err error, sticky string) {
	if n == 0 {
		c.Check(len(got) == 0 && err == iter.EOI && sticky == "", "stream-avg-empty", "%s of nothing: %v %v %s", name, got, err, sticky)
		return
	}
	if len(got) == 0 {
		c.Check(over && err != iter.EOI && err != nil, "stream-avg-refused", "%s of %s: no result, error %v", name, vals, err)
		return
	}
	want := roundDivBig(sum, big.NewInt(int64(n)))
	c.Check(len(got) == 1 && err == iter.EOI && sticky == "" && got[0].Cmp(want) == 0, "stream-avg", "%s of %s: got %v, %v %s; want %s", name, vals, got, err, sticky, want)
}

// bigCase checks the big number reductions: results, and that the elements of the source keep their values.
func bigCase(c *h.Ctx) {
	R := c.R
	n := R.Intn(7)
	if R.Intn(6) == 0 {
		n = 15 + R.Intn(50)
	}
	final := iter.EOI
	if R.Intn(5) == 0 {
		final = errInjected
	}
	type res[T any] struct {
		vals []T
		err  error
	}
	switch kind := R.Intn(3); kind {
	case 0:
		var vals, keep []*big.Int
		sum := big.NewInt(0)
		for i := 0; i < n; i++ {
			r := genRat(R)
			v := new(big.Int).Quo(r.Num(), r.Denom())
			vals, keep = append(vals, v), append(keep, new(big.Int).Set(v))
			sum.Add(sum, v)
		}
		var avg *big.Int
		if n > 0 {
			avg = roundDivBig(sum, big.NewInt(int64(n)))
		}
		bigJudge(c, "big.Int", vals, keep, sum, avg, final, func(a, b *big.Int) bool { return a.Cmp(b) == 0 }, func(v *big.Int) *big.Int { return new(big.Int).Abs(v) })
	case 1:
		var vals, keep []*big.Rat
		sum := new(big.Rat)
		for i := 0; i < n; i++ {
			v := genRat(R)
			vals, keep = append(vals, v), append(keep, new(big.Rat).Set(v))
			sum.Add(sum, v)
		}
		var avg *big.Rat
		if n > 0 {
			avg = new(big.Rat).Quo(sum, big.NewRat(int64(n), 1))
		}
		bigJudge(c, "big.Rat", vals, keep, sum, avg, final, func(a, b *big.Rat) bool { return a.Cmp(b) == 0 }, func(v *big.Rat) *big.Rat { return new(big.Rat).Abs(v) })
	case 2:
		var vals, keep []*big.Float
		// elements of one precision: the result must be correct to that precision (two units in the last place for
		// each addition, of the largest partial sum)
		prec := []uint{24, 53, 64, 100, 300}[R.Intn(5)]
		sum, mag := new(big.Rat), new(big.Rat)
		for i := 0; i < n; i++ {
			r := genRat(R)
			v := new(big.Float).SetPrec(prec).SetRat(r)
			if R.Intn(3) == 0 {
				v.SetInt64(int64(R.Intn(2000) - 1000))
			}
			vals, keep = append(vals, v), append(keep, new(big.Float).Copy(v))
			ex, _ := v.Rat(nil)
			sum.Add(sum, ex)
			mag.Add(mag, new(big.Rat).Abs(ex))
		}
		tol := new(big.Rat).SetFrac(big.NewInt(int64(2*n+4)), new(big.Int).Lsh(big.NewInt(1), prec-1))
		tol.Mul(tol, mag)
		eq := func(a *big.Float, b *big.Rat, div int64) bool {
			if a == nil || a.IsInf() {
				return false
			}
			x, _ := a.Rat(nil)
			if x == nil {
				x = new(big.Rat)
			}
			d := new(big.Rat).Sub(x, b)
			t := new(big.Rat).Set(tol)
			return d.Abs(d).Cmp(t) <= 0
		}
		c.NoPanic("stream-big-panic", "big.Float reductions", func() {
			show := func() string { return fmt.Sprintf("%d values of precision %d: %v", n, prec, keep) }
			got, err, st := drain(stream.SumBigOps(iter.OfSlice(vals)).Next, 2)
			okv := n == 0 && len(got) == 0 || n > 0 && len(got) == 1 && eq(got[0], sum, 1)
			c.Check(okv && err == iter.EOI && st == "", "stream-big-sum", "SumBigOps of %s: got %v %v %s", show(), got, err, st)
			got, err, st = drain(stream.AvgBigOps(iter.OfSlice(vals)).Next, 2)
			okv = n == 0 && len(got) == 0
			if n > 0 {
				okv = len(got) == 1 && eq(got[0], new(big.Rat).Quo(sum, big.NewRat(int64(n), 1)), int64(n))
			}
			c.Check(okv && err == iter.EOI && st == "", "stream-big-avg", "AvgBigOps of %s: got %v %v %s", show(), got, err, st)
			got, err, st = drain(stream.AbsBigOps(iter.OfSlice(vals)).Next, n+1)
			okv = len(got) == n
			for i := range got {
				okv = okv && got[i].Cmp(new(big.Float).Abs(keep[i])) == 0
			}
			c.Check(okv && err == iter.EOI && st == "", "stream-big-abs", "AbsBigOps of %s: got %v %v %s", show(), got, err, st)
			for i := range vals {
				c.Check(vals[i].Cmp(keep[i]) == 0 && vals[i].Prec() == keep[i].Prec(), "stream-big-source-changed", "element %d of %s is now %v", i, show(), vals[i])
			}
		})
		c.Ev("big.Float reductions")
		c.Obs("big.Float", fmt.Sprint(keep, prec))
	}
}

func bigJudge[T constraint.BigOps[T]](c *h.Ctx, typ string, vals, keep []T, sum, avg T, final error, eq func(a, b T) bool, abs func(T) T) {
	n := len(vals)
	src := func() iter.Iter[T] {
		if final == iter.EOI {
			return iter.OfSlice(vals)
		}
		return iter.SetError(iter.OfSlice(vals), final)
	}
	c.NoPanic("stream-big-panic", typ+" reductions", func() {
		got, err, st := drain(stream.SumBigOps(src()).Next, 2)
		if final != iter.EOI {
			c.Check(len(got) == 0 && err == final && st == "", "stream-big-sum-error", "SumBigOps[%s] with a source error: %v %v %s", typ, got, err, st)
		} else {
			ok := n == 0 && len(got) == 0 || n > 0 && len(got) == 1 && eq(got[0], sum)
			c.Check(ok && err == iter.EOI && st == "", "stream-big-sum", "SumBigOps[%s] of %v: got %v %v %s want %v", typ, keep, got, err, st, sum)
		}
		got, err, st = drain(stream.AvgBigOps(src()).Next, 2)
		if final != iter.EOI {
			c.Check(len(got) == 0 && err == final && st == "", "stream-big-avg-error", "AvgBigOps[%s] with a source error: %v %v %s", typ, got, err, st)
		} else {
			ok := n == 0 && len(got) == 0 || n > 0 && len(got) == 1 && eq(got[0], avg)
			c.Check(ok && err == iter.EOI && st == "", "stream-big-avg", "AvgBigOps[%s] of %v: got %v %v %s want %v", typ, keep, got, err, st, avg)
		}
		got, err, st = drain(stream.AbsBigOps(src()).Next, n+1)
		ok := len(got) == n
		for i := range got {
			ok = ok && eq(got[i], abs(keep[i]))
		}
		c.Check(ok && err == final && st == "", "stream-big-abs", "AbsBigOps[%s] of %v: got %v %v %s", typ, keep, got, err, st)
		for i := range vals {
			c.Check(eq(vals[i], keep[i]), "stream-big-source-changed", "element %d of %v is now %v", i, keep, vals[i])
		}
	})
	c.Ev(typ + " reductions")
	c.Obs(typ, fmt.Sprint(keep, final))
}

func init() {
	h.Register("C10", "random chains of transforms over random sources (ending normally or with an injected error) compared with list models; reductions, numeric reductions of every width, expansions, reuse over several data sets, pushback, infinite sources; a case is non-trivial when it is a distinct chain and content", func(r *h.Run) {
		N := 1
		if r.Thorough() {
			N = 15
		}
		r.Group("pipeline", 120000*N, func(c *h.Ctx) {
			R := c.R
			var (
				chain []stage
				fn    istage = func(it iter.Iter[int]) iter.Iter[int] { return it }
				names []string
			)
			for i := 1 + R.Intn(5); i > 0; i-- {
				s := genStage(R)
				chain, names = append(chain, s), append(names, s.name)
				if len(chain) == 1 {
					fn = s.apply
				} else if R.Intn(2) == 0 {
					fn = funcs.Compose2(fn, s.apply)
				} else {
					prev := fn
					fn = func(it iter.Iter[int]) iter.Iter[int] { return s.apply(prev(it)) }
				}
			}
			// the same composition over several data sets
			for set := 1 + R.Intn(3); set > 0; set-- {
				src := &scripted{vals: genInts(R), final: iter.EOI}
				if R.Intn(3) == 0 {
					src.final = errInjected
				}
				keep := append([]int(nil), src.vals...)
				want, werr := append([]int(nil), src.vals...), src.final
				for _, s := range chain {
					want, werr = s.model(want, werr)
				}
				c.NoPanic("stream-panic", fmt.Sprint(names), func() {
					out := fn(src.iter())
					// random pushback of what was read
					var (
						got    []int
						err    error
						sticky string
					)
					if R.Intn(2) == 0 {
						got, err, sticky = drain(out.Next, len(want)+2)
					} else {
						unreads := 0
						got, err, sticky = drain(func() (int, error) {
							v, e := out.Next()
							if e == nil && unreads < 20 && R.Intn(4) == 0 {
								unreads++
								out.Unread(v)
								v2, e2 := out.Next()
								if v2 != v || e2 != nil {
									return -999, fmt.Errorf("pushback of %d gave %d, %v", v, v2, e2)
								}
							}
							return v, e
						}, len(want)+2)
					}
					c.Ev("pipeline data set")
					c.EvN("elements", len(got))
					c.Check(sameSlice(got, want) && err == werr && sticky == "", "stream-pipeline", "%v over %v (final %v): got %v, %v %s; want %v, %v", names, keep, src.final, got, err, sticky, want, werr)
					c.Check(sameSlice(src.vals, keep), "stream-source-changed", "%v changed its source from %v to %v", names, keep, src.vals)
					c.Check(src.after <= 1, "stream-source-after-end", "%v called the source %d times after its end", names, src.after-1)
				})
				c.Obs("pipe", fmt.Sprint(names, keep, src.final))
			}
			c.Sample("%v", names)
		})
		r.Group("bool", 40000*N, boolCase)
		r.Group("lazy", 5000*N, func(c *h.Ctx) {
			// infinite sources: transforms that need finitely many elements terminate and leave the rest unread
			R := c.R
			i := 0
			src := iter.OfIter(func() (int, error) { i++; return i, nil })
			n, k := R.Intn(20), R.Intn(20)
			c.NoPanic("stream-panic", "lazy", func() {
				switch R.Intn(4) {
				case 0:
					got, err, sticky := drain(stream.Limit[int](uint(n))(src).Next, n+1)
					c.Check(len(got) == n && err == iter.EOI && sticky == "" && i == n, "stream-limit-lazy", "Limit(%d) read %d elements, got %v", n, i, got)
					v, _ := src.Next()
					c.Check(v == n+1, "stream-limit-rest", "after Limit(%d) the source continues with %d", n, v)
				case 1:
					v, err := stream.AnyMatch(func(v int) bool { return v > n })(src).Next()
					c.Check(v && err == nil && i == n+1, "stream-any-lazy", "AnyMatch(>%d): %v, %v read %d", n, v, err, i)
				case 2:
					got, err := stream.ReduceToSlice(stream.Limit[int](uint(n))(stream.Skip[int](uint(k))(stream.Filter(func(v int) bool { return v%2 == 0 })(src)))).Next()
					ok := len(got) == n && err == nil
					for j, g := range got {
						ok = ok && g == 2*(k+j+1)
					}
					c.Check(ok, "stream-lazy-chain", "skip %d limit %d of even numbers: %v, %v", k, n, got, err)
				case 3:
					peeked := []int{}
					got, _, sticky := drain(stream.Limit[int](uint(n))(stream.Peek(func(v int) { peeked = append(peeked, v) })(src)).Next, n+1)
					c.Check(sameSlice(got, peeked) && len(got) == n && sticky == "", "stream-peek", "peeked %v got %v", peeked, got)
				}
			})
			c.Ev("infinite source")
			c.Obs("lazy", n, k, c.Idx%4)
		})
		r.Group("avg-abs", 30000*N, func(c *h.Ctx) {
			switch c.R.Intn(10) {
			case 0:
				avgInt[int](c, "int")
			case 1:
				avgInt[int8](c, "int8")
			case 2:
				avgInt[int16](c, "int16")
			case 3:
				avgInt[int32](c, "int32")
			case 4:
				avgInt[int64](c, "int64")
			case 5:
				avgUint[uint](c, "uint")
			case 6:
				avgUint[uint8](c, "uint8")
			case 7:
				avgUint[uint16](c, "uint16")
			case 8:
				avgUint[uint32](c, "uint32")
			case 9:
				avgUint[uint64](c, "uint64")
			}
		})
		r.Group("big", 10000*N, bigCase)
		r.Group("extremes", 30000*N, func(c *h.Ctx) {
			R := c.R
			vals := genInts(R)
			final := iter.EOI
			if R.Intn(4) == 0 {
				final = errInjected
			}
			mk := func() iter.Iter[int] { return (&scripted{vals: vals, final: final}).iter() }
			one := func(name string, it iter.Iter[int], f func(a, b int) int) {
				want, werr := modelReduce(f)(append([]int(nil), vals...), final)
				got, err, st := drain(it.Next, 2)
				c.Check(sameSlice(got, want) && err == werr && st == "", "stream-"+name, "%s of %v: %v, %v %s want %v", name, vals, got, err, st, want)
			}
			c.NoPanic("stream-panic", "extremes", func() {
				one("Max", stream.Max(mk()), func(a, b int) int { return max(a, b) })
				one("Min", stream.Min(mk()), func(a, b int) int { return min(a, b) })
				one("Sum", stream.Sum(mk()), func(a, b int) int { return a + b })
				peeked := []int(nil)
				got, err, st := drain(stream.Peek(func(v int) { peeked = append(peeked, v) })(mk()).Next, len(vals)+1)
				c.Check(sameSlice(got, vals) && sameSlice(peeked, vals) && err == final && st == "", "stream-peek", "Peek of %v then %v: got %v, %v %s, peeked %v", vals, final, got, err, st, peeked)
				// the same through Cmp, text and floats
				var (
					bigs []*big.Int
					strs []string
					flts []float32
				)
				for _, v := range vals {
					bigs = append(bigs, big.NewInt(int64(v)))
					strs = append(strs, fmt.Sprintf("%05d", v+100))
					flts = append(flts, float32(v)/2)
				}
				if len(vals) > 0 {
					mx, mn := vals[0], vals[0]
					sum := 0
					for _, v := range vals {
						mx, mn, sum = max(mx, v), min(mn, v), sum+v
					}
					b, err := stream.MaxCmp(iter.OfSlice(bigs)).Next()
					c.Check(err == nil && b.Int64() == int64(mx), "stream-MaxCmp", "MaxCmp of %v: %v", bigs, b)
					b, err = stream.MinCmp(iter.OfSlice(bigs)).Next()
					c.Check(err == nil && b.Int64() == int64(mn), "stream-MinCmp", "MinCmp of %v: %v", bigs, b)
					var fars []far
					for i, v := range vals {
						fars = append(fars, far{v, i})
					}
					fm, err := stream.MaxCmp(iter.OfSlice(fars)).Next()
					c.Check(err == nil && fm.V == mx && fars[fm.Tag] == fm, "stream-MaxCmp", "MaxCmp of %v: %v", fars, fm)
					fm, err = stream.MinCmp(iter.OfSlice(fars)).Next()
					c.Check(err == nil && fm.V == mn && fars[fm.Tag] == fm, "stream-MinCmp", "MinCmp of %v: %v", fars, fm)
					sf, err := stream.ReduceToSlice(stream.SortCmp(iter.OfSlice(fars))).Next()
					okf, seenf := err == nil && len(sf) == len(fars), map[far]bool{}
					for i, x := range sf {
						okf = okf && (i == 0 || sf[i-1].V <= x.V) && !seenf[x] && fars[x.Tag] == x
						seenf[x] = true
					}
					c.Check(okf, "stream-SortCmp", "SortCmp of %v: %v", fars, sf)
					s, err := stream.Max(iter.OfSlice(strs)).Next()
					c.Check(err == nil && s == fmt.Sprintf("%05d", mx+100), "stream-Max", "Max of %v: %v", strs, s)
					s, err = stream.Min(iter.OfSlice(strs)).Next()
					c.Check(err == nil && s == fmt.Sprintf("%05d", mn+100), "stream-Min", "Min of %v: %v", strs, s)
					f, err := stream.Sum(iter.OfSlice(flts)).Next()
					c.Check(err == nil && f == float32(sum)/2, "stream-Sum", "Sum of %v: %v", flts, f)
					// sorts
					sb, err := stream.ReduceToSlice(stream.SortCmp(iter.OfSlice(bigs))).Next()
					ok := err == nil && len(sb) == len(bigs)
					for i := 1; i < len(sb); i++ {
						ok = ok && sb[i-1].Cmp(sb[i]) <= 0
					}
					cnt := map[string]int{}
					for i := range sb {
						cnt[sb[i].String()]++
						cnt[bigs[i].String()]--
					}
					for _, v := range cnt {
						ok = ok && v == 0
					}
					c.Check(ok, "stream-SortCmp", "SortCmp of %v: %v", bigs, sb)
					var cs []complex128
					for i, v := range vals {
						cs = append(cs, complex(float64(v), float64(vals[len(vals)-1-i])))
					}
					sc, err := stream.ReduceToSlice(stream.SortComplex(iter.OfSlice(cs))).Next()
					ok = err == nil && len(sc) == len(cs)
					cc := map[complex128]int{}
					for i := range sc {
						ok = ok && (i == 0 || mag2(sc[i-1]) <= mag2(sc[i]))
						cc[sc[i]]++
						cc[cs[i]]--
					}
					for _, v := range cc {
						ok = ok && v == 0
					}
					c.Check(ok, "stream-SortComplex", "SortComplex of %v: %v", cs, sc)
				}
				if final != iter.EOI {
					_, err := stream.SortCmp(iter.SetError(iter.OfSlice(bigs), final)).Next()
					c.Check(err == final, "stream-SortCmp", "SortCmp lost the source error: %v", err)
					cs, err, st := drain(stream.SortComplex(iter.SetError(iter.OfSlice([]complex64{3, 2}[:R.Intn(3)]), final)).Next, 3)
					c.Check(len(cs) == 0 && err == final && st == "", "stream-SortComplex", "SortComplex lost the source error: %v, %v %s", cs, err, st)
				}
			})
			c.Ev("extremes and sorts")
			c.Obs("ext", fmt.Sprint(vals, final))
		})
		r.Group("large", 64*N, largeStreams)
		sizes(r, 3, 2100, 9000, largeStreams)
		r.Group("any-elements", 30000*N, anyStreams)
		r.Group("expand", 30000*N, func(c *h.Ctx) {
			R := c.R
			final := iter.EOI
			if R.Intn(4) == 0 {
				final = errInjected
			}
			// slices
			var (
				slcs [][]any
				flat []any
			)
			for i := R.Intn(6); i > 0; i-- {
				var s []any
				switch R.Intn(4) {
				case 0:
				case 1:
					s = []any{}
				default:
					for j := 1 + R.Intn(4); j > 0; j-- {
						if R.Intn(4) == 0 {
							s = append(s, nil)
						} else {
							s = append(s, R.Intn(9))
						}
					}
					// what follows a slice in memory is somebody else's
					beyond := append(s, "beyond", "beyond")
					s = beyond[:len(s)]
					defer func() {
						c.Check(beyond[len(beyond)-1] == "beyond" && beyond[len(beyond)-2] == "beyond", "stream-beyond", "what follows a slice in memory was changed: %v", beyond)
					}()
				}
				slcs, flat = append(slcs, s), append(flat, s...)
			}
			once := func(name string, err error, next func() error) {
				if err == nil {
					err = iter.EOI
				}
				for i := 0; i < 2; i++ {
					e := next()
					c.Check(e == err, "stream-"+name, "%s after its only value: %v, want %v", name, e, err)
				}
			}
			c.NoPanic("stream-expand-panic", "ExpandSlices", func() {
				got, err, st := drain(stream.ExpandSlices(iter.SetError(iter.OfSlice(slcs), final)).Next, len(flat)+2)
				c.Check(sameSlice(got, flat) && err == final && st == "", "stream-ExpandSlices", "ExpandSlices of %v: %v, %v %s", slcs, got, err, st)
				cit := stream.ReduceToSlice(iter.SetError(iter.OfSlice(flat), final))
				col, err := cit.Next()
				once("ReduceToSlice", err, func() error { _, err := cit.Next(); return err })
				if final == iter.EOI {
					c.Check(sameSlice(col, flat) && col != nil && err == nil, "stream-ReduceToSlice", "ReduceToSlice of %v: %v, %v", flat, col, err)
				} else {
					c.Check(col == nil && err == final, "stream-ReduceToSlice", "ReduceToSlice of %v: %v, %v", flat, col, err)
				}
				// into a given slice that may be longer
				extra := R.Intn(3)
				into := make([]any, len(flat)+extra)
				for i := range into {
					into[i] = "old"
				}
				iit := stream.ReduceIntoSlice(into)(iter.SetError(iter.OfSlice(flat), final))
				_, err = iit.Next()
				once("ReduceIntoSlice", err, func() error { _, err := iit.Next(); return err })
				if final == iter.EOI {
					ok := err == nil && sameSlice(into[:len(flat)], flat)
					for _, v := range into[len(flat):] {
						ok = ok && v == "old"
					}
					c.Check(ok, "stream-ReduceIntoSlice", "ReduceIntoSlice of %v: %v, %v", flat, into, err)
				} else {
					ok := err == final
					for _, v := range into {
						ok = ok && v == nil
					}
					c.Check(ok, "stream-ReduceIntoSlice", "ReduceIntoSlice of %v with an error: %v, %v", flat, into, err)
				}
				if len(flat) > 0 {
					_, did := h.Panics(func() { stream.ReduceIntoSlice(make([]any, len(flat)-1))(iter.OfSlice(flat)).Next() })
					c.Check(did, "stream-ReduceIntoSlice-short", "ReduceIntoSlice of %d elements into %d did not panic", len(flat), len(flat)-1)
				}
			})
			// maps
			var (
				maps  []map[any]any
				count = map[tuple.Two[any, any]]int{}
				total int
				pairs []tuple.Two[any, any]
				merge = map[any]any{}
				keys  = []any{nil, 1, "a", 2.5, int8(1)}
				vals  = []any{nil, 0, "x", true}
			)
			for i := R.Intn(5); i > 0; i-- {
				var m map[any]any
				if R.Intn(4) > 0 {
					m = map[any]any{}
					for j := R.Intn(4); j > 0; j-- {
						m[keys[R.Intn(len(keys))]] = vals[R.Intn(len(vals))]
					}
				}
				maps = append(maps, m)
				for k, v := range m {
					count[tuple.Of2(k, v)]++
					total++
					pairs = append(pairs, tuple.Of2(k, v))
					merge[k] = v
				}
			}
			c.NoPanic("stream-expand-panic", "ExpandMaps", func() {
				got, err, st := drain(stream.ExpandMaps(iter.SetError(iter.OfSlice(maps), final)).Next, total+2)
				ok := len(got) == total && err == final && st == ""
				for _, g := range got {
					count[g]--
				}
				for _, v := range count {
					ok = ok && v == 0
				}
				c.Check(ok, "stream-ExpandMaps", "ExpandMaps of %v: %v, %v %s", maps, got, err, st)
				mit := stream.ReduceToMap(iter.SetError(iter.OfSlice(pairs), final))
				m, err := mit.Next()
				once("ReduceToMap", err, func() error { _, err := mit.Next(); return err })
				if final == iter.EOI {
					ok = err == nil && m != nil && len(m) == len(merge)
					for k, v := range merge {
						g, has := m[k]
						ok = ok && has && g == v
					}
				} else {
					ok = m == nil && err == final
				}
				c.Check(ok, "stream-ReduceToMap", "ReduceToMap of %v: %v, %v", pairs, m, err)
			})
			c.Ev("expansion")
			c.Obs("expand", fmt.Sprint(slcs, maps, final))
		})
	})

	h.Register("C11", "parallel runs of random transforms over random sizes and thread layouts with injected delays and errors, under the race detector, compared with a sequential model; recorded bucket contents, concurrency and goroutine counts; a case is non-trivial when it is a distinct size, layout, transform and observed bucket partition", func(r *h.Run) {
		N := 1
		if r.Thorough() {
			N = 12
		}
		r.Group("parallel", 6000*N, parallelCase)
		r.Group("large", 12*N, func(c *h.Ctx) {
			n := largeN(c)
			info := []stream.PInfo{{N: []int{1, 3, 8, 1000, n / 3, n, 70000}[c.R.Intn(7)], PUnit: stream.PUnit(c.R.Intn(3) == 0)}}
			if bool(info[0].PUnit) == bool(stream.Threads) && info[0].N > 1000 || bool(info[0].PUnit) != bool(stream.Threads) && info[0].N < 1000 {
				info = nil // not more than a thousand threads
			}
			parallelRun(c, n, info, c.Idx%6, false)
		})
		sizes(r, 1, 1100, 4200, func(c *h.Ctx) {
			n := c.Size
			parallelRun(c, n, [][]stream.PInfo{nil, {{N: n}}, {{N: 1 + c.R.Intn(min(n, 300)), PUnit: stream.Threads}}, {{N: 1 + c.R.Intn(n), PUnit: stream.Items}}}[c.R.Intn(4)], c.Idx%6, false)
		})
		// every small size and layout
		small := 24
		if r.Thorough() {
			small = 70
		}
		r.Group("grid", (small+1)*(2*small+5), func(c *h.Ctx) {
			n, k := c.Idx%(small+1), c.Idx/(small+1)
			var info []stream.PInfo
			if k > 0 {
				info = []stream.PInfo{{N: (k - 1) / 2, PUnit: stream.PUnit(k%2 == 0)}}
			}
			parallelRun(c, n, info, c.R.Intn(5), false)
		})
		r.Group("parallel-any", 300*N, func(c *h.Ctx) {
			// interface typed elements (same and different interface types), struct elements
			n := c.R.Intn(30)
			var (
				in   []any
				want []fmt.Stringer
			)
			for i := 0; i < n; i++ {
				in, want = append(in, i), append(want, big.NewInt(int64(i)))
			}
			c.NoPanic("parallel-panic", "Parallel[any, Stringer]", func() {
				got, err := stream.ReduceToSlice(stream.Parallel(stream.Map(func(v any) fmt.Stringer { return big.NewInt(int64(v.(int))) }))(iter.OfSlice(in))).Next()
				ok := err == nil && len(got) == n
				for i := range got {
					ok = ok && got[i].String() == want[i].String()
				}
				c.Check(ok, "parallel-result", "Parallel[any, Stringer] of %d: %v, %v", n, got, err)
			})
			c.NoPanic("parallel-panic", "Parallel[any, any]", func() {
				got, err := stream.ReduceToSlice(stream.Parallel(stream.Map(func(v any) any { return v.(int) + 1 }))(iter.OfSlice(in))).Next()
				ok := err == nil && len(got) == n
				for i := range got {
					ok = ok && got[i] == i+1
				}
				c.Check(ok, "parallel-result", "Parallel[any, any] of %d: %v, %v", n, got, err)
			})
			for i := range in {
				c.Check(in[i] == i, "parallel-source-changed", "Parallel changed the source slice")
			}
			c.Ev("interface typed parallel run")
			c.Obs("any", n)
		})
		// parallel transforms whose buckets are themselves transformed in parallel, several at a time
		r.Group("nested", 40*N, func(c *h.Ctx) {
			var (
				R     = c.R
				n     = 1 + R.Intn(300)
				lay   = []stream.PInfo{{N: n}, {N: 1, PUnit: stream.Items}, {N: 1 + R.Intn(n)}, {N: 1 + R.Intn(n), PUnit: stream.Items}}
				outer = lay[R.Intn(4)]
				mid   = lay[R.Intn(4)]
				inner = lay[R.Intn(4)]
				deep  = R.Intn(3) == 0
				in    = make([]int, n)
				want  = make([]int, n)
				wg    sync.WaitGroup
			)
			for i := range in {
				in[i], want[i] = i, 2*i+1
			}
			f := stream.Map(func(i int) int {
				if i%7 == 0 {
					time.Sleep(time.Microsecond)
				}
				return 2*i + 1
			})
			p := stream.Parallel(f, inner)
			if deep {
				p = stream.Parallel(p, mid)
			}
			p = stream.Parallel(p, outer)
			for k := 1 + R.Intn(4); k > 0; k-- {
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.NoPanic("parallel-panic", "nested Parallel", func() {
						got, err := stream.ReduceToSlice(p(iter.OfSlice(in))).Next()
						c.Check(err == nil && sameSlice(got, want), "parallel-nested", "Parallel %v within %v of %d elements: %v, %v", inner, outer, n, got, err)
					})
				}()
			}
			wg.Wait()
			c.Ev("nested parallel runs")
			c.Obs("nested", n, fmt.Sprint(outer, mid, inner, deep))
		})
	})
}

func mag2(v complex128) float64 { return real(v)*real(v) + imag(v)*imag(v) }

// parallelCase runs one random parallel transform.
func parallelCase(c *h.Ctx) {
	R := c.R
	n := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 30, 64, 100, 257}[R.Intn(17)]
	if R.Intn(3) == 0 {
		n = R.Intn(130)
	}
	if R.Intn(60) == 0 {
		n = R.Intn(3000)
	}
	var (
		info []stream.PInfo
		ns   = []int{-1, 0, 1, 2, 3, 4, 5, 8, n - 1, n, n + 1, n / 2, 1000, 1 << 62, -1 << 63}
	)
	if R.Intn(3) > 0 {
		info = []stream.PInfo{{N: ns[R.Intn(len(ns))], PUnit: stream.PUnit(R.Intn(2) == 0)}}
	}
	parallelRun(c, n, info, R.Intn(6), R.Intn(12) == 0)
}

// parallelRun runs one parallel transform of n elements and compares it with the sequential model.
func parallelRun(c *h.Ctx, n int, info []stream.PInfo, kind int, srcE bool) {
	R := c.R
	vals := make([]int, n)
	for i := range vals {
		vals[i] = i // unique, so that buckets can be identified
	}
	keep := append([]int(nil), vals...)
	var (
		mod   = 2 + R.Intn(4)
		fail  = -1
		delay = R.Intn(4) == 0
		dseed = R.Int63()
	)
	if kind == 5 && n > 0 {
		fail = R.Intn(n)
	}
	var (
		mu      sync.Mutex
		buckets [][]int
		cur     int32
		peak    int32
		calls   = make([]int32, n)
	)
	// the transform records its bucket: elements read, in order
	record := func(it iter.Iter[int]) iter.Iter[int] {
		mu.Lock()
		id := len(buckets)
		buckets = append(buckets, nil)
		mu.Unlock()
		if v := atomic.AddInt32(&cur, 1); v > atomic.LoadInt32(&peak) {
			atomic.StoreInt32(&peak, v)
		}
		seen := 0
		return iter.OfIter(func() (int, error) {
			v, e := it.Next()
			if e != nil {
				atomic.AddInt32(&cur, -1)
				return v, e
			}
			if delay {
				seen++
				switch hsh := (int64(v)*7919 ^ dseed) % 5; {
				case hsh == 0:
					runtime.Gosched()
				case hsh == 1 && seen < 3:
					time.Sleep(time.Duration((dseed+int64(v))&15) * time.Microsecond)
				}
			}
			mu.Lock()
			buckets[id] = append(buckets[id], v)
			mu.Unlock()
			if v >= 0 && v < n {
				atomic.AddInt32(&calls[v], 1)
			}
			return v, nil
		})
	}
	src := func() iter.Iter[int] {
		if srcE {
			return iter.SetError(iter.OfSlice(vals), errInjected)
		}
		return iter.OfSlice(vals)
	}
	var (
		got  []string
		err  error
		st   string
		want []string
		werr = iter.EOI
		name string
		f    = func(v int) int { return v*3 + 1 }
		toS  = func(v int) string { return fmt.Sprint("s", v) }
		back = func(it iter.Iter[int]) {
			var g []int
			g, err, st = drain(it.Next, 4*n+4)
			for _, v := range g {
				got = append(got, fmt.Sprint(v))
			}
		}
		before = runtime.NumGoroutine()
	)
	if !c.NoPanic("parallel-panic", "Parallel", func() {
		switch kind {
		case 0: // same type
			name = "Map int to int"
			p := stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] { return stream.Map(f)(record(it)) }, info...)
			back(p(src()))
			for _, v := range keep {
				want = append(want, fmt.Sprint(f(v)))
			}
		case 1: // different type
			name = "Map int to string"
			p := stream.Parallel(func(it iter.Iter[int]) iter.Iter[string] { return stream.Map(toS)(record(it)) }, info...)
			got, err, st = drain(p(src()).Next, n+2)
			for _, v := range keep {
				want = append(want, toS(v))
			}
		case 2: // fewer items than the source
			name = "Filter"
			p := stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] {
				return stream.Filter(func(v int) bool { return v%mod == 0 })(record(it))
			}, info...)
			back(p(src()))
			for _, v := range keep {
				if v%mod == 0 {
					want = append(want, fmt.Sprint(v))
				}
			}
		case 3: // more items than the source
			name = "expand"
			p := stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] {
				return stream.ExpandSlices(stream.Map(func(v int) []int {
					if v%mod == 0 {
						return []int{v, v, -v}
					}
					return []int{v}
				})(record(it)))
			}, info...)
			back(p(src()))
			for _, v := range keep {
				want = append(want, fmt.Sprint(v))
				if v%mod == 0 {
					want = append(want, fmt.Sprint(v), fmt.Sprint(-v))
				}
			}
		case 4: // a chain of transforms
			name = "chain"
			p := stream.Parallel(funcs.Compose2(record, funcs.Compose2(stream.Map(f), stream.Map(f))), info...)
			back(p(src()))
			for _, v := range keep {
				want = append(want, fmt.Sprint(f(f(v))))
			}
		case 5: // some element fails
			name = "MapError"
			p := stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] {
				return stream.MapError(func(v int) (int, error) {
					if v == fail {
						return 5, errMapper
					}
					return f(v), nil
				})(record(it))
			}, info...)
			back(p(src()))
			if fail < 0 {
				for _, v := range keep {
					want = append(want, fmt.Sprint(f(v)))
				}
			} else {
				werr = errMapper
			}
		}
	}) {
		return
	}
	if srcE {
		want, werr = nil, errInjected
	}
	c.Ev("parallel run: " + name)
	c.Check(sameSlice(got, want) && err == werr && st == "", "parallel-result", "%s n=%d info=%v delay=%v: got %d items %v, %v %s; want %d items %v, %v", name, n, info, delay, len(got), got, err, st, len(want), want, werr)
	c.Check(sameSlice(vals, keep), "parallel-source-changed", "%s n=%d info=%v changed the source slice", name, n, info)
	if srcE {
		c.Obs("source error", n)
		return
	}
	// every element is processed exactly once (up to the failure within its bucket), each bucket is a contiguous range
	if fail < 0 {
		for v, k := range calls {
			if !c.Check(k == 1, "parallel-exactly-once", "%s n=%d info=%v: element %d processed %d times", name, n, info, v, k) {
				break
			}
		}
	}
	sizes := map[int]int{}
	for _, b := range buckets {
		sizes[len(b)]++
		for i := 1; i < len(b); i++ {
			if !c.Check(b[i] == b[i-1]+1, "parallel-bucket-order", "%s n=%d info=%v: bucket %v is not a contiguous range", name, n, info, b) {
				break
			}
		}
		if len(info) == 1 && info[0].PUnit == stream.Items && info[0].N > 0 {
			c.Check(len(b) <= info[0].N, "parallel-bucket-size", "%s n=%d info=%v: bucket of %d items", name, n, info, len(b))
		}
	}
	// the layout that the options ask for (a failing bucket records only what it read)
	if fail < 0 && n > 1 {
		var (
			byStart = append([][]int(nil), buckets...)
			want    []int
			N       int
		)
		sort.Slice(byStart, func(i, j int) bool {
			return len(byStart[j]) > 0 && (len(byStart[i]) == 0 || byStart[i][0] < byStart[j][0])
		})
		layout := make([]int, len(byStart))
		for i, b := range byStart {
			layout[i] = len(b)
		}
		if len(info) > 0 {
			N = max(1, info[0].N)
		}
		switch {
		case len(info) == 0:
			// about the square root, all the same except for the last one
			root := 1
			for root*root < n {
				root++
			}
			ok := len(layout) >= root-2 && len(layout) <= root+2 && (n < 4 || len(layout) > 1)
			for i, l := range layout {
				ok = ok && (i == len(layout)-1 && l <= layout[0] || l == layout[0])
			}
			c.Check(ok, "parallel-layout", "%s n=%d: buckets of %v items", name, n, layout)
		case info[0].PUnit == stream.Threads && n > N:
			for i := 0; i < N; i++ {
				l := n / N
				if i < n%N {
					l++
				}
				want = append(want, l)
			}
			c.Check(sameSlice(layout, want), "parallel-layout", "%s n=%d info=%v: buckets of %v items, want %v", name, n, info, layout, want)
		case info[0].PUnit == stream.Threads:
			c.Check(len(layout) <= n, "parallel-layout", "%s n=%d info=%v: buckets of %v items", name, n, info, layout)
		default:
			for left := n; left > 0; left -= N {
				want = append(want, min(N, left))
				if N >= left {
					break
				}
			}
			c.Check(sameSlice(layout, want), "parallel-layout", "%s n=%d info=%v: buckets of %v items, want %v", name, n, info, layout, want)
		}
	}
	if peak > 1 {
		c.Ev("runs with overlapping buckets")
	}
	_ = before
	c.EvN("buckets", len(buckets))
	c.Obs(name, n, fmt.Sprint(info), fmt.Sprint(sizes), fail, peak)
	c.Sample("%s n=%d info=%v buckets=%d peak=%d", name, n, info, len(buckets), peak)
}
