package p

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"math/rand"
	goreflect "reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/tuple"

	"verif/h"
)

// elemGen generates values of a type from a small domain, so that duplicates occur.
type elemGen[T any] func(R *rand.Rand) T

var (
	gInt = func(R *rand.Rand) int {
		if R.Intn(8) == 0 {
			return R.Intn(100000) - 50000
		}
		return []int{0, 1, 2, 3, -1, math.MaxInt64, math.MinInt64, R.Intn(10)}[R.Intn(8)]
	}
	gInt8 = func(R *rand.Rand) int8 { return int8(R.Intn(256)) }
	gUint = func(R *rand.Rand) uint { return []uint{0, 1, 2, math.MaxUint64, uint(R.Intn(9))}[R.Intn(5)] }
	gStr  = func(R *rand.Rand) string {
		switch R.Intn(64) {
		case 0, 1, 2, 3:
			return fmt.Sprint("s", R.Intn(1000))
		case 4:
			return strings.Repeat("long€", R.Intn(120)) + fmt.Sprint(R.Intn(3))
		}
		return []string{"", "a", "b", "ab", "é", "A", "\x00", "a "}[R.Intn(8)]
	}
	gFloat = func(R *rand.Rand) float64 {
		return []float64{0, 1, -1, 0.5, 1e300, -1e300, 5e-324, float64(R.Intn(5))}[R.Intn(8)]
	}
	gStruct = func(R *rand.Rand) valRcvr { return valRcvr{gStr(R), gStr(R)} }
)

// genSlice returns a slice, which may be nil, with spare capacity, and the backing array to detect writes outside of it.
func genSlice[T any](R *rand.Rand, g elemGen[T]) []T {
	if R.Intn(10) == 0 {
		return nil
	}
	n := R.Intn(9)
	if R.Intn(8) == 0 {
		n = R.Intn(60)
	}
	if R.Intn(150) == 0 {
		n = szMax(R, 600, 3000)
	}
	// what lies beyond the length is somebody else's
	s := make([]T, n+R.Intn(4))
	for i := range s {
		s[i] = g(R)
	}
	return s[:n]
}

func clone[T any](s []T) []T { return append([]T(nil), s...) }

func eqs[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func removeModel[T comparable](s []T, v T, all bool) (res []T) {
	done := false
	for _, x := range s {
		if x == v && (all || !done) {
			done = true
			continue
		}
		res = append(res, x)
	}
	return
}

func allFlag(R *rand.Rand) ([]bool, bool) {
	switch R.Intn(3) {
	case 0:
		return nil, false
	case 1:
		return []bool{false}, false
	}
	return []bool{funcs.ALL}, true
}

// mset counts values.
func mset[T comparable](s []T) map[T]int {
	m := map[T]int{}
	for _, v := range s {
		m[v]++
	}
	return m
}

func sliceOps[T comparable](c *h.Ctx, typ string, g elemGen[T]) {
	var (
		R    = c.R
		s    = genSlice(R, g)
		orig = clone(s)
		rest = clone(s[len(s):cap(s)])
		v    = g(R)
		zv   T
	)
	if len(s) > 0 && R.Intn(2) == 0 {
		v = s[R.Intn(len(s))]
	}
	same := func(op string) {
		c.Check(eqs(s, orig), "source-changed", "%s of %s %v changed it to %v", op, typ, orig, s)
		c.Check(eqs(s[len(s):cap(s)], rest), "beyond-changed", "%s of %s %v changed what follows it in memory from %v to %v", op, typ, orig, rest, s[len(s):cap(s)])
	}

	// copy
	cp := funcs.SliceCopy(s)
	c.Check(eqs(cp, orig) && cp != nil, "copy", "SliceCopy(%v) = %v", s, cp)
	if len(cp) > 0 {
		cp[R.Intn(len(cp))] = g(R)
		same("changing a SliceCopy")
	}

	// index
	for k := 0; k < 4; k++ {
		i := R.Intn(2*len(s)+5) - len(s) - 2
		if R.Intn(6) == 0 {
			i = []int{math.MaxInt64, math.MinInt64, math.MinInt64 + len(s), math.MaxInt64 - len(s), -len(s), -len(s) - 1, len(s)}[R.Intn(7)]
		}
		want, inside := zv, false
		if i >= 0 && i < len(s) {
			want, inside = orig[i], true
		} else if i < 0 && i >= -len(s) {
			want, inside = orig[len(s)+i], true
		}
		c.NoPanic("index-panic", "SliceIndex", func() {
			got := funcs.SliceIndex(s, i)
			c.Check(got == want, "index", "SliceIndex(%v, %d) = %v, want %v", s, i, got, want)
			d, d2 := g(R), g(R)
			if !inside {
				want = d
			}
			got = funcs.SliceIndex(s, i, d)
			c.Check(got == want, "index-default", "SliceIndex(%v, %d, %v) = %v, want %v", s, i, d, got, want)
			got = funcs.SliceIndex(s, i, d, d2)
			c.Check(got == want, "index-default", "SliceIndex(%v, %d, %v, %v) = %v, want %v", s, i, d, d2, got, want)
		})
	}
	same("SliceIndex")

	// remove
	flag, isAll := allFlag(R)
	got, want := funcs.SliceRemove(s, v, flag...), removeModel(orig, v, isAll)
	c.Check(eqs(got, want), "remove", "SliceRemove(%v, %v, %v) = %v, want %v", s, v, flag, got, want)
	same("SliceRemove")
	if len(got) > 0 && (isAll || len(got) < len(s)) {
		got = append(clone(got[:0]), got...)
		res := funcs.SliceRemove(s, v, flag...)
		res[R.Intn(len(res))] = g(R)
		_ = append(res, g(R), g(R))
		same("changing the result of SliceRemove")
	}

	// to map
	m := funcs.SliceToMap(s)
	c.Check(m != nil && len(m) == len(mset(orig)), "to-map", "SliceToMap(%v) = %v", s, m)
	for _, x := range orig {
		c.Check(m[x], "to-map", "SliceToMap(%v) lacks %v", s, x)
	}
	mb := funcs.SliceToMapBy(s, func(x T) string { return fmt.Sprintf("<%v>", x) })
	wantB := map[string]bool{}
	for _, x := range orig {
		wantB[fmt.Sprintf("<%v>", x)] = true
	}
	c.Check(mb != nil && goreflect.DeepEqual(mb, wantB), "to-map-by", "SliceToMapBy(%v) = %v", s, mb)
	u := funcs.SliceUniqueValues(s)
	ok := u != nil && len(u) == len(mset(orig))
	for x, k := range mset(u) {
		ok = ok && k == 1 && m[x]
	}
	c.Check(ok, "unique", "SliceUniqueValues(%v) = %v", s, u)
	same("SliceToMap")

	// reverse
	rv := clone(s)
	back := funcs.SliceReverse(rv)
	ok = len(rv) == len(orig) && len(back) == len(rv) && (len(rv) == 0 || &back[0] == &rv[0])
	for i := range rv {
		ok = ok && rv[i] == orig[len(orig)-1-i]
	}
	c.Check(ok, "reverse", "SliceReverse(%v) = %v", orig, back)

	// add
	var add []T
	if R.Intn(3) > 0 {
		add = clone(s)
	}
	exp := clone(add)
	for k := R.Intn(4); k > 0; k-- {
		x := g(R)
		funcs.SliceAdd(&add, x)
		exp = append(exp, x)
		c.Check(eqs(add, exp), "add", "SliceAdd gives %v, want %v", add, exp)
	}
	of := funcs.SliceOf(orig...)
	c.Check(eqs(of, orig), "of", "SliceOf(%v...) = %v", orig, of)
	c.Ev("slices of " + typ)
	c.Obs(typ, fmt.Sprint(orig), fmt.Sprint(v), isAll)
	c.Sample("%s %v remove %v all=%v => %v", typ, orig, v, isAll, got)
}

// nanOps runs the operations that compare elements over a slice with values that are not equal to themselves:
// no value equals NaN, so none is found, removed or a duplicate.
func nanOps(c *h.Ctx) {
	R := c.R
	nan := math.NaN()
	s := genSlice(R, func(R *rand.Rand) float64 {
		if R.Intn(3) == 0 {
			return nan
		}
		return gFloat(R)
	})
	bits := func(s []float64) (res []uint64) {
		for _, v := range s {
			res = append(res, math.Float64bits(v))
		}
		return
	}
	orig := bits(s)
	flag, isAll := allFlag(R)
	got := funcs.SliceRemove(s, nan, flag...)
	c.Check(eqs(bits(got), orig), "remove-nan", "SliceRemove(%v, NaN, %v) = %v", s, flag, got)
	if len(s) > 0 {
		v := s[R.Intn(len(s))]
		got, want := funcs.SliceRemove(s, v, flag...), removeModel(s, v, isAll)
		c.Check(eqs(bits(got), bits(want)), "remove-among-nan", "SliceRemove(%v, %v, %v) = %v, want %v", s, v, flag, got, want)
	}
	// every NaN is a value of its own
	cnt := func(s []float64) (nans int, others map[float64]bool) {
		others = map[float64]bool{}
		for _, v := range s {
			if v != v {
				nans++
			} else {
				others[v] = true
			}
		}
		return
	}
	u := funcs.SliceUniqueValues(s)
	n, others := cnt(s)
	un, uothers := cnt(u)
	c.Check(un == n && goreflect.DeepEqual(uothers, others) && len(u) == n+len(others), "unique-nan", "SliceUniqueValues(%v) = %v", s, u)
	m := funcs.SliceToMap(s)
	c.Check(len(m) == n+len(others), "to-map-nan", "SliceToMap(%v) = %v", s, m)
	c.Check(eqs(bits(s), orig), "source-changed", "an operation over a slice with NaN changed it")
	c.Ev("slices with NaN")
	c.Obs("nan", fmt.Sprint(s))
}

// sorted checks an in place sort: a permutation in non-descending order, returned as the same slice.
func sorted[T any](c *h.Ctx, op string, s []T, sortf func([]T) []T, key func(T) string, greater func(a, b T) bool) {
	orig, rest := clone(s), clone(s[len(s):cap(s)])
	back := sortf(s)
	ok := len(back) == len(s) && (len(s) == 0 || &back[0] == &s[0])
	for i, x := range rest {
		ok = ok && key(x) == key(s[:cap(s)][len(s)+i])
	}
	cnt := map[string]int{}
	for i := range s {
		cnt[key(orig[i])]++
		cnt[key(s[i])]--
		if i > 0 && greater(s[i-1], s[i]) {
			ok = false
		}
	}
	for _, k := range cnt {
		ok = ok && k == 0
	}
	c.Check(ok, "sort-"+op, "%s(%v) = %v", op, orig, s)
	c.Ev("sorts")
	c.Obs(op, fmt.Sprint(orig))
}

func sliceSorts(c *h.Ctx) {
	R := c.R
	pr := func(x any) string { return fmt.Sprintf("%v", x) }
	sorted(c, "SliceSortOrdered[int]", genSlice(R, gInt), funcs.SliceSortOrdered[int], func(x int) string { return pr(x) }, func(a, b int) bool { return a > b })
	sorted(c, "SliceSortOrdered[uint]", genSlice(R, gUint), funcs.SliceSortOrdered[uint], func(x uint) string { return pr(x) }, func(a, b uint) bool { return a > b })
	sorted(c, "SliceSortOrdered[int8]", genSlice(R, gInt8), funcs.SliceSortOrdered[int8], func(x int8) string { return pr(x) }, func(a, b int8) bool { return a > b })
	sorted(c, "SliceSortOrdered[string]", genSlice(R, gStr), funcs.SliceSortOrdered[string], func(x string) string { return x }, func(a, b string) bool { return a > b })
	sorted(c, "SliceSortOrdered[float64]", genSlice(R, gFloat), funcs.SliceSortOrdered[float64], func(x float64) string { return pr(x) }, func(a, b float64) bool { return a > b })
	gc := func(R *rand.Rand) complex128 { return complex(float64(R.Intn(7)-3), float64(R.Intn(7)-3)) }
	sorted(c, "SliceSortComplex", genSlice(R, gc), funcs.SliceSortComplex[complex128], func(x complex128) string { return pr(x) }, func(a, b complex128) bool { return cmplx.Abs(a) > cmplx.Abs(b) })
	gc64 := func(R *rand.Rand) complex64 { return complex64(gc(R)) }
	sorted(c, "SliceSortComplex64", genSlice(R, gc64), funcs.SliceSortComplex[complex64], func(x complex64) string { return pr(x) }, func(a, b complex64) bool { return cmplx.Abs(complex128(a)) > cmplx.Abs(complex128(b)) })
	gb := func(R *rand.Rand) *big.Int {
		return new(big.Int).Mul(big.NewInt(int64(R.Intn(9)-4)), new(big.Int).Lsh(big.NewInt(1), uint(R.Intn(100))))
	}
	sorted(c, "SliceSortCmp", genSlice(R, gb), funcs.SliceSortCmp[*big.Int], func(x *big.Int) string { return fmt.Sprintf("%p", x) }, func(a, b *big.Int) bool { return a.Cmp(b) > 0 })
	sorted(c, "SliceSortCmp[far]", genSlice(R, genFar), funcs.SliceSortCmp[far], func(x far) string { return pr(x) }, func(a, b far) bool { return a.Cmp(b) > 0 })
	huge := func(R *rand.Rand) complex128 {
		return complex(math.Ldexp(float64(R.Intn(9)-4), R.Intn(2000)-1000), math.Ldexp(float64(R.Intn(9)-4), R.Intn(2000)-1000))
	}
	sorted(c, "SliceSortComplex of extremes", genSlice(R, huge), funcs.SliceSortComplex[complex128], func(x complex128) string { return pr(x) }, func(a, b complex128) bool { return cmplx.Abs(a) > cmplx.Abs(b)*(1+1e-12) })
	// a comparator that is not the natural order
	by := func(a, b string) bool { return len(a) < len(b) || len(a) == len(b) && a > b }
	sorted(c, "SliceSortBy", genSlice(R, gStr), func(s []string) []string { return funcs.SliceSortBy(s, by) }, func(x string) string { return x }, func(a, b string) bool { return by(b, a) })
}

// nested builds a slice of slices of the given depth, and the expected flat list.
func nested[T any](R *rand.Rand, depth int, g elemGen[T], flat *[]T) goreflect.Value {
	typ := goreflect.TypeOf((*T)(nil)).Elem()
	for i := 0; i < depth; i++ {
		typ = goreflect.SliceOf(typ)
	}
	if R.Intn(8) == 0 {
		return goreflect.Zero(typ)
	}
	n := R.Intn(4)
	all := n + R.Intn(3)
	v := goreflect.MakeSlice(typ, all, all)
	for i := 0; i < all; i++ {
		var beyond []T
		f := flat
		if i >= n {
			f = &beyond
		}
		if depth == 1 {
			e := g(R)
			*f = append(*f, e)
			v.Index(i).Set(goreflect.ValueOf(&e).Elem())
		} else {
			v.Index(i).Set(nested(R, depth-1, g, f))
		}
	}
	return v.Slice(0, n)
}

// showAll shows a slice of slices, including what lies beyond their lengths.
func showAll(v goreflect.Value) string {
	if v.Kind() != goreflect.Slice {
		return fmt.Sprintf("%v", v)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d[", v.Len())
	if !v.IsNil() {
		all := v.Slice(0, v.Cap())
		for i := 0; i < all.Len(); i++ {
			sb.WriteString(showAll(all.Index(i)) + " ")
		}
	}
	return sb.String() + "]"
}

type namedInts []int

var someInts = []*int{nil, new(int), new(int)}

func flatten[T comparable](c *h.Ctx, typ string, g elemGen[T]) {
	var flat []T
	depth := 1 + c.R.Intn(4)
	v := nested(c.R, depth, g, &flat)
	c.NoPanic("flatten-panic", fmt.Sprintf("SliceFlatten of %d dimensional %s %v", depth, typ, v), func() {
		before := showAll(v)
		got := funcs.SliceFlatten[T](v.Interface())
		c.Check(eqs(got, flat), "flatten", "SliceFlatten(%v) = %v, want %v", v, got, flat)
		c.Check(showAll(v) == before, "flatten-changed", "SliceFlatten changed its argument from %s to %s", before, showAll(v))
		if depth > 1 {
			for i := range got {
				got[i] = g(c.R)
			}
			_ = append(got, g(c.R), g(c.R))
			c.Check(showAll(v) == before, "flatten-shared", "changing the result of SliceFlatten changed its argument from %s to %s", before, showAll(v))
		}
	})
	c.Ev("flattened")
	c.Obs("flat", typ, depth, fmt.Sprint(v))
	// a slice of another type, or no slice, is refused
	bad := []any{1, "x", map[int]int{}, &flat, []struct{}{{}}, [][]chan int{}, [2]T{}, [][]uintptr{{1}}}[c.R.Intn(8)]
	_, did := h.Panics(func() { funcs.SliceFlatten[T](bad) })
	c.Check(did, "flatten-bad", "SliceFlatten[%s](%T) did not panic", typ, bad)
	c.Check(len(funcs.SliceFlatten[T](nil)) == 0, "flatten-nil", "SliceFlatten(nil)")
}

// uncomparable values: funcs, pointers, and values that print alike
func uncomparables(c *h.Ctx) {
	R := c.R
	fs := []func() int{func() int { return 0 }, func() int { return 1 }, func() int { return 2 }, nil}
	idx := make([]int, szMax(R, 9, 300))
	var s []func() int
	for i := range idx {
		idx[i] = R.Intn(len(fs))
		s = append(s, fs[idx[i]])
	}
	v := R.Intn(len(fs))
	flag, isAll := allFlag(R)
	id := func(f func() int) int {
		if f == nil {
			return 3
		}
		return f()
	}
	var got []int
	for _, f := range funcs.SliceRemoveUncomparable(s, fs[v], flag...) {
		got = append(got, id(f))
	}
	c.Check(eqs(got, removeModel(idx, v, isAll)), "remove-func", "SliceRemoveUncomparable(%v, %d, %v) = %v", idx, v, flag, got)

	o := &outer{}
	pool := []any{valRcvr{"x y", ""}, valRcvr{"x", "y "}, intRcvr(1), int2Rcvr(1), 1, "1", o, &o.in, &outer{}, "x", "y", nil, [1]int{1}, struct{ v any }{1}, struct{ v any }{"1"}}
	var as []any
	for k := szMax(R, 9, 300); k > 0; k-- {
		as = append(as, pool[R.Intn(len(pool))])
	}
	keep := clone(as)
	w := pool[R.Intn(len(pool))]
	res := funcs.SliceRemoveUncomparable(as, w, flag...)
	c.Check(eqs(res, removeModel(keep, w, isAll)), "remove-any", "SliceRemoveUncomparable(%#v, %#v, %v) = %#v", keep, w, flag, res)
	c.Check(eqs(as, keep), "source-changed", "SliceRemoveUncomparable changed the source")
	ps := []*int{new(int), new(int), new(int)}
	var pp []*int
	for k := szMax(R, 9, 300); k > 0; k-- {
		pp = append(pp, ps[R.Intn(3)])
	}
	rp := funcs.SliceRemoveUncomparable(pp, ps[0], flag...)
	c.Check(eqs(rp, removeModel(pp, ps[0], isAll)), "remove-ptr", "SliceRemoveUncomparable(pointers)")
	c.Ev("removed uncomparable")
	c.Obs("unc", fmt.Sprint(idx, v, isAll, keep, w))
}

// ==== maps

func mapOps(c *h.Ctx) {
	var (
		R  = c.R
		m  map[string]int
		ms map[string][]int
		m2 map[string]map[int]string
		s2 map[string]map[int][]int
		wm = map[string]int{}
		ws = map[string][]int{}
		w2 = map[string]map[int]string{}
		t2 = map[string]map[int][]int{}
		lg []string
		// operations of one kind of map or of all of them, on few or on many keys
		kinds = [][]int{{0, 1, 2}, {3, 3, 4}, {5, 6, 7}, {8, 8, 9}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}}[R.Intn(5)]
		keys  = [][]string{{"a"}, {"a", "b"}, {"", "a", "b", "ab"}, nil}[R.Intn(4)]
		vals  = 1 + R.Intn(4)
	)
	for n := szMax(R, 25+40*R.Intn(2), 600); n > 0; n-- {
		k, i, v := gStr(R), R.Intn(3), R.Intn(vals)
		if keys != nil {
			k = keys[R.Intn(len(keys))]
		}
		flag, isAll := allFlag(R)
		op := kinds[R.Intn(len(kinds))]
		lg = append(lg, fmt.Sprint(op, k, i, v, isAll))
		if !c.NoPanic("map-panic", fmt.Sprintf("map operation %d", op), func() {
			switch op {
			case 0, 1:
				funcs.MapSet(&m, k, v)
				wm[k] = v
			case 2:
				funcs.MapUnset(m, k)
				delete(wm, k)
			case 3:
				inner, have := m2[k]
				if (!have || inner == nil) && R.Intn(4) == 0 {
					// a second level map that is empty, and held elsewhere
					inner = map[int]string{}
					funcs.MapSet(&m2, k, inner)
				} else if !have && R.Intn(8) == 0 {
					funcs.MapSet(&m2, k, map[int]string(nil))
				}
				funcs.Map2Set(&m2, k, i, fmt.Sprint(v))
				if inner != nil {
					c.Check(inner[i] == fmt.Sprint(v) && goreflect.ValueOf(inner).Pointer() == goreflect.ValueOf(m2[k]).Pointer(), "map2-inner", "Map2Set replaced the second level map: %v, %v", inner, m2[k])
					c.Ev("second level maps kept")
				}
				if w2[k] == nil {
					w2[k] = map[int]string{}
				}
				w2[k][i] = fmt.Sprint(v)
			case 4:
				funcs.Map2Unset(m2, k, i)
				delete(w2[k], i)
			case 5, 6:
				funcs.MapSliceAdd(&ms, k, v)
				ws[k] = append(ws[k], v)
			case 7:
				if R.Intn(2) == 0 {
					funcs.MapSliceRemove(ms, k, v, flag...)
				} else {
					funcs.MapSliceRemoveUncomparable(ms, k, v, flag...)
				}
				if _, have := ws[k]; have {
					ws[k] = removeModel(ws[k], v, isAll)
				}
			case 8:
				inner, have := s2[k]
				if (!have || inner == nil) && R.Intn(4) == 0 {
					inner = map[int][]int{}
					funcs.MapSet(&s2, k, inner)
				}
				funcs.Map2SliceAdd(&s2, k, i, v)
				if inner != nil {
					c.Check(goreflect.ValueOf(inner).Pointer() == goreflect.ValueOf(s2[k]).Pointer(), "map2-inner", "Map2SliceAdd replaced the second level map: %v, %v", inner, s2[k])
					c.Ev("second level maps kept")
				}
				if t2[k] == nil {
					t2[k] = map[int][]int{}
				}
				t2[k][i] = append(t2[k][i], v)
			case 9:
				if R.Intn(2) == 0 {
					funcs.Map2SliceRemove(s2, k, i, v, flag...)
				} else {
					funcs.Map2SliceRemoveUncomparable(s2, k, i, v, flag...)
				}
				if _, have := t2[k][i]; have {
					t2[k][i] = removeModel(t2[k][i], v, isAll)
				}
			}
		}) {
			return
		}
		c.Ev("map operations")
		ok := fmt.Sprint(m) == fmt.Sprint(wm) && fmt.Sprint(ms) == fmt.Sprint(ws) && fmt.Sprint(m2) == fmt.Sprint(w2) && fmt.Sprint(s2) == fmt.Sprint(t2)
		if !c.Check(ok, "map-history", "after %v:\n%v %v %v %v, want\n%v %v %v %v", lg, m, ms, m2, s2, wm, ws, w2, t2) {
			return
		}
		q, qi := gStr(R), R.Intn(3)
		wv, have := wm[q]
		c.Check(funcs.MapTest(m, q) == have, "map-test", "MapTest(%v, %q)", m, q)
		_, have2 := w2[q][qi]
		c.Check(funcs.Map2Test(m2, q, qi) == have2, "map2-test", "Map2Test(%v, %q, %d)", m2, q, qi)
		c.Check(funcs.MapIndex(m, q) == wv, "map-index", "MapIndex(%v, %q)", m, q)
		if !have {
			wv = -7
		}
		c.Check(funcs.MapIndex(m, q, -7) == wv && funcs.MapIndex(m, q, -7, 9) == wv, "map-index-default", "MapIndex(%v, %q, -7)", m, q)
	}
	ks := funcs.MapKeysToSlice(m)
	ok := ks != nil && len(ks) == len(wm)
	for k, n := range mset(ks) {
		_, have := wm[k]
		ok = ok && n == 1 && have
	}
	c.Check(ok, "map-keys", "MapKeysToSlice(%v) = %v", wm, ks)
	c.Obs(lg)
	c.Sample("%v => %v %v %v %v", lg, m, ms, m2, s2)
}

// showMap shows a map of anything, keys that are not equal to themselves included, in an order of its own.
// The two zeros are the same key, which of them a map remembers says nothing.
func showMap(m any) string {
	v := goreflect.ValueOf(m)
	if v.Kind() != goreflect.Map {
		return fmt.Sprintf("%#v", m)
	}
	var es []string
	for it := v.MapRange(); it.Next(); {
		k := it.Key().Interface()
		if k == 0.0 {
			k = 0.0
		}
		es = append(es, fmt.Sprintf("%#v: %s", k, showMap(it.Value().Interface())))
	}
	sort.Strings(es)
	return "{" + strings.Join(es, ", ") + "}"
}

// mapAny compares histories of maps of any key and value type with plain maps, values being nil included.
func mapAny[K comparable, V any](c *h.Ctx, typ string, gk elemGen[K], gv elemGen[V]) {
	var (
		R  = c.R
		m  map[K]V
		m2 map[K]map[K]V
		ms map[K][]V
		s2 map[K]map[K][]V
		wm = map[K]V{}
		w2 = map[K]map[K]V{}
		ws = map[K][]V{}
		t2 = map[K]map[K][]V{}
		lg []string
		zv V
		is = func(a, b V) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) }
	)
	for n := 1 + R.Intn(14); n > 0; n-- {
		k, j, v, d := gk(R), gk(R), gv(R), gv(R)
		op := R.Intn(8)
		lg = append(lg, fmt.Sprintf("%d %#v %#v %#v", op, k, j, v))
		if !c.NoPanic("map-panic", fmt.Sprintf("maps of %s: %v", typ, lg), func() {
			switch op {
			case 0, 1:
				funcs.MapSet(&m, k, v)
				wm[k] = v
			case 2:
				funcs.MapUnset(m, k)
				delete(wm, k)
			case 3, 4:
				funcs.Map2Set(&m2, k, j, v)
				in := w2[k]
				if in == nil {
					in = map[K]V{}
					w2[k] = in
				}
				in[j] = v
			case 5:
				funcs.Map2Unset(m2, k, j)
				delete(w2[k], j)
			case 6:
				funcs.MapSliceAdd(&ms, k, v)
				ws[k] = append(ws[k], v)
			case 7:
				funcs.Map2SliceAdd(&s2, k, j, v)
				in := t2[k]
				if in == nil {
					in = map[K][]V{}
					t2[k] = in
				}
				in[j] = append(in[j], v)
			}
			got := showMap(m) + showMap(m2) + showMap(ms) + showMap(s2)
			want := showMap(wm) + showMap(w2) + showMap(ws) + showMap(t2)
			c.Check(got == want, "map-any", "maps of %s after %v: %s, want %s", typ, lg, got, want)
			wv, have := wm[k]
			c.Check(funcs.MapTest(m, k) == have, "map-any-test", "maps of %s after %v: MapTest(%s, %#v)", typ, lg, showMap(m), k)
			c.Check(is(funcs.MapIndex(m, k), wv), "map-any-index", "maps of %s after %v: MapIndex(%s, %#v)", typ, lg, showMap(m), k)
			if !have {
				wv = d
			}
			c.Check(is(funcs.MapIndex(m, k, d, zv), wv), "map-any-index", "maps of %s after %v: MapIndex(%s, %#v, %#v) = %#v", typ, lg, showMap(m), k, d, funcs.MapIndex(m, k, d, zv))
			_, have = w2[k][j]
			c.Check(funcs.Map2Test(m2, k, j) == have, "map-any-test", "maps of %s after %v: Map2Test(%s, %#v, %#v)", typ, lg, showMap(m2), k, j)
			ks := funcs.MapKeysToSlice(m)
			km := map[K]V{}
			for _, k := range ks {
				km[k] = zv
			}
			c.Check(len(ks) == len(wm) && len(km) == len(wm), "map-any-keys", "maps of %s after %v: MapKeysToSlice(%s) = %v", typ, lg, showMap(m), ks)
		}) {
			return
		}
		c.Ev("operations on maps of " + typ)
	}
	c.Obs(typ, fmt.Sprint(lg))
}

func mapsOfAny(c *h.Ctx) {
	var (
		ptrs = []*int{nil, new(int), new(int)}
		anys = []any{nil, 0, "", 1, int8(1), "x", valRcvr{}, (*int)(nil), error(nil), 1.5, math.NaN(), true}
		gAny = func(R *rand.Rand) any { return anys[R.Intn(len(anys))] }
		gPtr = func(R *rand.Rand) *int { return ptrs[R.Intn(3)] }
		gNaN = func(R *rand.Rand) float64 {
			return []float64{0, math.Copysign(0, -1), 1, math.NaN(), math.Inf(1), math.Inf(-1)}[R.Intn(6)]
		}
		gErr  = func(R *rand.Rand) error { return []error{nil, errInjected, fmt.Errorf("x")}[R.Intn(3)] }
		gSlc  = func(R *rand.Rand) []int { return [][]int{nil, {}, {1}}[R.Intn(3)] }
		gMap  = func(R *rand.Rand) map[int]int { return []map[int]int{nil, {}, {1: 2}}[R.Intn(3)] }
		gBool = func(R *rand.Rand) bool { return R.Intn(2) == 0 }
		gArr  = func(R *rand.Rand) [2]any { return [2]any{gAny(R), R.Intn(2)} }
	)
	switch c.Idx % 8 {
	case 0:
		mapAny(c, "any to *int", gAny, gPtr)
	case 1:
		mapAny(c, "*int to any", gPtr, gAny)
	case 2:
		mapAny(c, "float64 to error", gNaN, gErr)
	case 3:
		mapAny(c, "bool to []int", gBool, gSlc)
	case 4:
		mapAny(c, "struct to map", gStruct, gMap)
	case 5:
		mapAny(c, "array to bool", gArr, gBool)
	case 6:
		mapAny(c, "error to float64", gErr, gNaN)
	default:
		mapAny(c, "uint8 to struct", func(R *rand.Rand) uint8 { return uint8(R.Intn(3) * 127) }, gStruct)
	}
}

// genComplex gives small, huge and tiny complex numbers, whose magnitudes are always finite.
func genComplex(R *rand.Rand) complex128 {
	f := [...]float64{1, 1, 1e-300, 1e300, 1e-170, 1e160, 1e20}[R.Intn(7)]
	return complex(f*float64(R.Intn(7)-3), f*float64(R.Intn(7)-3))
}

func mapSort[K comparable](c *h.Ctx, op string, g elemGen[K], sortf func(map[K]int) []tuple.Two[K, int], greater func(a, b K) bool) {
	m := map[K]int{}
	for n := sz(c.R, 20); n > 0; n-- {
		m[g(c.R)] = c.R.Intn(100)
	}
	if len(m) == 0 && c.R.Intn(2) == 0 {
		m = nil
	}
	n := len(m)
	got := sortf(m)
	ok := len(got) == n && len(m) == n
	seen := map[K]bool{}
	for i, t := range got {
		v, have := m[t.T]
		ok = ok && have && v == t.U && !seen[t.T]
		seen[t.T] = true
		if i > 0 && greater(got[i-1].T, t.T) {
			ok = false
		}
	}
	c.Check(ok, "map-sort-"+op, "%s(%v) = %v", op, m, got)
	c.Ev("maps sorted")
	c.Obs(op, fmt.Sprint(got))
}

// orderedMap runs random histories of an ordered slice of tuples used as a map of slices.
func orderedMap[K constraint.Ordered](c *h.Ctx, typ string, dom []K) {
	var (
		R  = c.R
		mp []tuple.Two[K, []int]
		w  = map[K][]int{}
		lg []string
	)
	dom = clone(dom)
	R.Shuffle(len(dom), func(i, j int) { dom[i], dom[j] = dom[j], dom[i] })
	dom = dom[:1+R.Intn(len(dom))]
	for n := szMax(R, 40, 600); n > 0; n-- {
		k, v := dom[R.Intn(len(dom))], R.Intn(4)
		flag, isAll := allFlag(R)
		before, snapshot := mp, fmt.Sprint(mp)
		op := R.Intn(8)
		switch op {
		case 0, 1, 2, 3:
			lg = append(lg, fmt.Sprintf("add(%v,%d)", k, v))
			funcs.OrderedTuple2SliceAdd(&mp, k, v)
			w[k] = append(w[k], v)
		case 4:
			lg = append(lg, fmt.Sprintf("removeKey(%v)", k))
			funcs.OrderedTuple2SliceRemoveKey(&mp, k)
			delete(w, k)
			// a slice that someone else holds (eg is iterating) is not shifted under them
			c.Check(fmt.Sprint(before) == snapshot, "ordered-shared", "%s: removing a key changed the previous slice from %s to %v", typ, snapshot, before)
		default:
			lg = append(lg, fmt.Sprintf("remove(%v,%d,%v)", k, v, isAll))
			if op == 5 {
				funcs.OrderedTuple2SliceRemoveUncomparable(&mp, k, v, flag...)
			} else {
				funcs.OrderedTuple2SliceRemoveValue(&mp, k, v, flag...)
			}
			if _, have := w[k]; have {
				w[k] = removeModel(w[k], v, isAll)
			}
		}
		c.Ev("ordered map operations")
		var keys []K
		for key := range w {
			keys = append(keys, key)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		var want []tuple.Two[K, []int]
		for _, key := range keys {
			want = append(want, tuple.Of2(key, w[key]))
		}
		if !c.Check(fmt.Sprint(mp) == fmt.Sprint(want), "ordered-history", "%s: after %s: %v, want %v", typ, strings.Join(lg, " "), mp, want) {
			return
		}
		// search for every key of the domain
		for _, key := range dom {
			wi, wf := -1, false
			for i, kk := range keys {
				if kk <= key {
					wi, wf = i, kk == key
				}
			}
			gi, gf := funcs.OrderedTuple2Search(mp, key)
			if wi == -1 && len(keys) > 0 {
				// the position of a key below the smallest is pinned to 0 by the existing tests
				c.Check((gi == 0 || gi == -1) && !gf, "ordered-search", "%s: search of %v in %v = %d, %v", typ, key, keys, gi, gf)
				continue
			}
			c.Check(gi == wi && gf == wf, "ordered-search", "%s: search of %v in %v = %d, %v, want %d, %v", typ, key, keys, gi, gf, wi, wf)
			c.Ev("ordered map searches")
		}
		c.Obs(typ, fmt.Sprint(keys), op)
	}
	c.Sample("%s: %s => %v", typ, strings.Join(lg, " "), mp)
}

// ==== functional

func filters(c *h.Ctx) {
	R := c.R
	n := R.Intn(6)
	var (
		calls []int
		fs    []func(int) bool
		vals  []bool
		x     = R.Intn(100)
	)
	for i := 0; i < n; i++ {
		i, v := i, R.Intn(2) == 0
		vals = append(vals, v)
		fs = append(fs, func(t int) bool {
			calls = append(calls, i)
			if t != x {
				return !v
			}
			return v
		})
	}
	wantAnd, wantOr, nAnd, nOr := true, n == 0, n, n
	for i := n - 1; i >= 0; i-- {
		if !vals[i] {
			wantAnd, nAnd = false, i+1
		}
		if vals[i] {
			wantOr, nOr = true, i+1
		}
	}
	and, or := funcs.And(fs...), funcs.Or(fs...)
	for k := 0; k < 2; k++ { // a filter can be used any number of times
		calls = nil
		got := and(x)
		c.Check(got == wantAnd && len(calls) == nAnd && sort.IntsAreSorted(calls), "and", "And of %v = %v after calling %v", vals, got, calls)
		calls = nil
		got = or(x)
		c.Check(got == wantOr && len(calls) == nOr && sort.IntsAreSorted(calls), "or", "Or of %v = %v after calling %v", vals, got, calls)
		if n > 0 {
			calls = nil
			c.Check(funcs.Not(fs[0])(x) == !vals[0] && len(calls) == 1, "not", "Not")
			// De Morgan over the real combinators
			var neg []func(int) bool
			for _, f := range fs {
				neg = append(neg, funcs.Not(f))
			}
			c.Check(funcs.Not(funcs.And(fs...))(x) == funcs.Or(neg...)(x), "de-morgan", "%v", vals)
		}
	}
	c.Ev("filter combinations")
	c.Obs("f", fmt.Sprint(vals))
}

func compares[T constraint.Ordered](c *h.Ctx, typ string, g elemGen[T]) {
	a, b, d := g(c.R), g(c.R), g(c.R)
	bad := ""
	for name, p := range map[string][2]bool{
		"LessThan":         {funcs.LessThan(a)(b), b < a},
		"LessThanEqual":    {funcs.LessThanEqual(a)(b), b <= a},
		"Equal":            {funcs.Equal(a)(b), b == a},
		"GreaterThan":      {funcs.GreaterThan(a)(b), b > a},
		"GreaterThanEqual": {funcs.GreaterThanEqual(a)(b), b >= a},
		"In":               {funcs.In(a, d)(b), b == a || b == d},
		"In()":             {funcs.In[T]()(b), false},
	} {
		if p[0] != p[1] {
			bad = name
		}
	}
	c.Check(bad == "", "compare", "%s[%s](%v)(%v)", bad, typ, a, b)
	c.Ev("comparisons")
	c.Obs(typ, fmt.Sprint(a, b))
}

func signs[T constraint.Signed](c *h.Ctx, typ string, v T) {
	c.Check(funcs.IsNegative[T]()(v) == (v < 0) && funcs.IsNonNegative[T]()(v) == (v >= 0) && funcs.IsPositive[T]()(v) == (v > 0), "sign", "%s %v", typ, v)
}

type s1 string

func compose(c *h.Ctx) {
	R := c.R
	n := szMax(R, 12, 300)
	var fs []func(string) string
	want := "x"
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func(s string) string { return fmt.Sprint(i, "(", s, ")") })
		want = fmt.Sprint(i, "(", want, ")")
	}
	if n > 0 {
		f := funcs.Compose(fs[0], fs[1:]...)
		got := f("x")
		c.Check(got == want && f("x") == want, "compose", "Compose of %d funcs = %s, want %s", n, got, want)
	}
	// each stage has its own type, so that stages can be told apart
	var (
		f0 = func(p int) string { return fmt.Sprint("0:", p) }
		f1 = func(q string) []string { return []string{"1:" + q} }
		f2 = func(r []string) [1]string { return [1]string{"2:" + r[0]} }
		f3 = func(s [1]string) s1 { return s1("3:" + s[0]) }
		f4 = func(t s1) *string { x := "4:" + string(t); return &x }
		f5 = func(u *string) map[int]string { return map[int]string{0: "5:" + *u} }
		f6 = func(v map[int]string) any { return "6:" + v[0] }
		f7 = func(w any) error { return errors.New("7:" + w.(string)) }
		f8 = func(x error) []byte { return []byte("8:" + x.Error()) }
		f9 = func(y []byte) []rune { return []rune("9:" + string(y)) }
		x  = R.Intn(1000)
		w  = make([]string, 11)
	)
	w[0] = fmt.Sprint(x)
	for i := 0; i < 10; i++ {
		w[i+1] = fmt.Sprint(i, ":", w[i])
	}
	got := []string{
		2:  funcs.Compose2(f0, f1)(x)[0],
		3:  funcs.Compose3(f0, f1, f2)(x)[0],
		4:  string(funcs.Compose4(f0, f1, f2, f3)(x)),
		5:  *funcs.Compose5(f0, f1, f2, f3, f4)(x),
		6:  funcs.Compose6(f0, f1, f2, f3, f4, f5)(x)[0],
		7:  funcs.Compose7(f0, f1, f2, f3, f4, f5, f6)(x).(string),
		8:  funcs.Compose8(f0, f1, f2, f3, f4, f5, f6, f7)(x).Error(),
		9:  string(funcs.Compose9(f0, f1, f2, f3, f4, f5, f6, f7, f8)(x)),
		10: string(funcs.Compose10(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9)(x)),
	}
	for i := 2; i <= 10; i++ {
		c.Check(got[i] == w[i], fmt.Sprint("compose", i), "Compose%d = %q, want %q", i, got[i], w[i])
	}
	// same types at each stage, to detect stages that are swapped
	st := func(n string) func(string) string { return func(s string) string { return s + n } }
	S := make([]func(string) string, 10)
	for i := range S {
		S[i] = st(fmt.Sprint(i))
	}
	eq := []string{
		2: funcs.Compose2(S[0], S[1])(""), 3: funcs.Compose3(S[0], S[1], S[2])(""), 4: funcs.Compose4(S[0], S[1], S[2], S[3])(""),
		5: funcs.Compose5(S[0], S[1], S[2], S[3], S[4])(""), 6: funcs.Compose6(S[0], S[1], S[2], S[3], S[4], S[5])(""),
		7: funcs.Compose7(S[0], S[1], S[2], S[3], S[4], S[5], S[6])(""), 8: funcs.Compose8(S[0], S[1], S[2], S[3], S[4], S[5], S[6], S[7])(""),
		9:  funcs.Compose9(S[0], S[1], S[2], S[3], S[4], S[5], S[6], S[7], S[8])(""),
		10: funcs.Compose10(S[0], S[1], S[2], S[3], S[4], S[5], S[6], S[7], S[8], S[9])(""),
	}
	for i := 2; i <= 10; i++ {
		c.Check(eq[i] == "0123456789"[:i], fmt.Sprint("compose", i), "Compose%d runs stages %q", i, eq[i])
	}
	c.Ev("compositions")
	c.Obs("c", n, x)

	// ternary: only the chosen side is called
	e := R.Intn(2) == 0
	a, b := gStr(R), gStr(R)
	wt := b
	if e {
		wt = a
	}
	c.Check(funcs.Ternary(e, a, b) == wt, "ternary", "Ternary(%v, %q, %q)", e, a, b)
	var log string
	fa := func() string { log += "a"; return a }
	fb := func() string { log += "b"; return b }
	if R.Intn(4) == 0 {
		fa = nil
	}
	if R.Intn(4) == 0 {
		fb = nil
	}
	wl := "b"
	chosen := fb
	if e {
		wl, chosen = "a", fa
	}
	if chosen == nil {
		wl, wt = "", ""
	}
	g := funcs.TernaryResult(e, fa, fb)
	c.Check(g == wt && log == wl, "ternary-result", "TernaryResult(%v) = %q after calling %q", e, g, log)
}

// panicVals are the values that functions panic with, none of which is special.
var panicVals = []any{errInjected, "text", 42, new(int), "", 0, false, errors.New(""), struct{}{}, (*int)(nil), error((*nilErr)(nil))}

type nilErr struct{}

func (*nilErr) Error() string { return "nil error" }

func tryTo(c *h.Ctx) {
	R := c.R
	var (
		log     []string
		want    []string
		n       = R.Intn(5)
		tryP    = R.Intn(2) == 0
		closers []func()
		last    any
		pval    = panicVals[R.Intn(len(panicVals))]
		bad     = map[int]any{}
	)
	for i := 0; i < n; i++ {
		i := i
		if R.Intn(4) == 0 {
			bad[i] = fmt.Sprint("closer ", i)
		}
		cl := func() {
			log = append(log, fmt.Sprint("close", i))
			if v, have := bad[i]; have {
				panic(v)
			}
		}
		if R.Intn(3) == 0 && bad[i] == nil {
			closers = append(closers, funcs.IgnoreResult(func() error { cl(); return errInjected }))
		} else {
			closers = append(closers, cl)
		}
	}
	want = append(want, "try")
	if tryP {
		last = pval
	}
	for i := n - 1; i >= 0; i-- {
		want = append(want, fmt.Sprint("close", i))
		if v, have := bad[i]; have {
			last = v
		}
	}
	if last != nil {
		want = append(want, "panic")
	}
	var got any
	esc, did := h.Panics(func() {
		funcs.TryTo(func() {
			log = append(log, "try")
			if tryP {
				panic(pval)
			}
		}, func(v any) {
			log = append(log, "panic")
			got = v
		}, closers...)
	})
	c.Check(!did, "try-escaped", "panic %v escaped TryTo", esc)
	c.Check(eqs(log, want) && got == last, "try", "TryTo(panic=%v, closers=%d, panicking closers=%v) ran %v with %v, want %v with %v", tryP, n, bad, log, got, want, last)
	// a panic in the panic function is the caller's
	v, did := h.Panics(func() { funcs.TryTo(func() { panic(1) }, func(any) { panic("again") }) })
	c.Check(did && v == "again", "try-repanic", "panicFn panic became %v", v)
	c.Ev("guarded calls")
	c.Obs("try", n, tryP, fmt.Sprint(bad))

	// must
	var err error
	if R.Intn(2) == 0 {
		err = errInjected
	}
	x, y, z := gInt(R), gStr(R), gFloat(R)
	for i, f := range []func() bool{
		func() bool { funcs.Must(err); return true },
		func() bool { return funcs.MustValue(x, err) == x },
		func() bool { a, b := funcs.MustValue2(x, y, err); return a == x && b == y },
		func() bool { a, b, d := funcs.MustValue3(x, y, z, err); return a == x && b == y && d == z },
	} {
		var ok bool
		v, did := h.Panics(func() { ok = f() })
		c.Check(did == (err != nil) && (did && v == err || ok), "must", "Must form %d with %v: panicked=%v %v", i, err, did, v)
	}
	c.Check(funcs.FirstValue2(x, y) == x && funcs.SecondValue2(x, y) == y && funcs.FirstValue3(x, y, z) == x && funcs.SecondValue3(x, y, z) == y && funcs.ThirdValue3(x, y, z) == z, "nth-value", "FirstValue")
}

func suppliers(c *h.Ctx) {
	R := c.R
	v := gInt(R)
	s := funcs.SupplierOf(v)
	c.Check(s() == v && s() == v, "supplier-of", "SupplierOf")
	var calls int64
	pan := R.Intn(2) == 0
	pval := panicVals[R.Intn(len(panicVals))]
	sup := funcs.SupplierCached(func() int64 {
		k := atomic.AddInt64(&calls, 1)
		if pan {
			panic(pval)
		}
		return k * 10
	})
	if R.Intn(2) == 0 {
		for i := 0; i < 4; i++ {
			var got int64
			v, did := h.Panics(func() { got = sup() })
			c.Check(did == pan && (pan && v == pval || !pan && got == 10), "supplier-cached", "call %d of a supplier that panics (%v) with %#v: %d, panicked %v with %#v", i, pan, pval, got, did, v)
		}
	} else {
		var wg sync.WaitGroup
		var wrong int64
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 4; i++ {
					var got int64
					v, did := h.Panics(func() { got = sup() })
					if did != pan || pan && v != pval || !pan && got != 10 {
						atomic.AddInt64(&wrong, 1)
					}
				}
			}()
		}
		wg.Wait()
		c.Check(wrong == 0, "supplier-cached", "%d wrong results in concurrent calls", wrong)
		c.Ev("concurrent cached suppliers")
	}
	c.Check(calls == 1, "supplier-once", "the supplier was invoked %d times", calls)
	// not invoked before the first call
	n := 0
	funcs.SupplierCached(func() int { n++; return n })
	c.Check(n == 0, "supplier-lazy", "the supplier was invoked early")
	c.Ev("cached suppliers")
	c.Obs("sup", v, pan, calls)
}

type iface interface{ M() }
type impl struct{}

func (*impl) M() {}

func nils(c *h.Ctx) {
	R := c.R
	isNil := R.Intn(2) == 0
	chk := func(name string, val any, f1, f2 bool) {
		c.Check(f1 == isNil && f2 == !isNil, "nil-filter", "IsNil/IsNonNil of %s (nil=%v): %v %v", name, isNil, f1, f2)
		c.Check(funcs.IsNilValue(val) == isNil, "nil-value", "IsNilValue(%s nil=%v)", name, isNil)
		_, did := h.Panics(func() { funcs.MustNonNilValue(val) })
		c.Check(did == isNil, "must-non-nil", "MustNonNilValue(%s nil=%v) panicked=%v", name, isNil, did)
	}
	switch R.Intn(6) {
	case 0:
		var v chan int
		if !isNil {
			v = make(chan int)
		}
		chk("chan", v, funcs.IsNil[chan int]()(v), funcs.IsNonNil[chan int]()(v))
	case 1:
		var v func()
		if !isNil {
			v = func() {}
		}
		chk("func", v, funcs.IsNil[func()]()(v), funcs.IsNonNil[func()]()(v))
	case 2:
		var v map[int]int
		if !isNil {
			v = map[int]int{}
		}
		chk("map", v, funcs.IsNil[map[int]int]()(v), funcs.IsNonNil[map[int]int]()(v))
	case 3:
		var v *int
		if !isNil {
			v = new(int)
		}
		chk("pointer", v, funcs.IsNil[*int]()(v), funcs.IsNonNil[*int]()(v))
	case 4:
		var v []int
		if !isNil {
			v = []int{}
		}
		chk("slice", v, funcs.IsNil[[]int]()(v), funcs.IsNonNil[[]int]()(v))
	case 5:
		for _, v := range []any{0, "", 1.5, struct{}{}, [2]int{}, false} {
			c.Check(!funcs.IsNilValue(v), "nil-value", "IsNilValue(%v)", v)
			_, did := h.Panics(func() { funcs.MustNonNilValue(v) })
			c.Check(did, "must-non-nil", "MustNonNilValue(%v), not nillable", v)
		}
		_, d1 := h.Panics(func() { funcs.IsNil[int]() })
		_, d2 := h.Panics(func() { funcs.IsNonNil[string]() })
		c.Check(d1 && d2 && funcs.IsNilValue(nil) && funcs.IsNilValue(iface((*impl)(nil))), "nil-type", "IsNil of a type that is not nillable: %v %v", d1, d2)
	}
	c.Ev("nil checks")

	// conversions of any values
	n := R.Intn(5)
	var in []any
	var ints []int
	good := true
	for i := 0; i < n; i++ {
		if R.Intn(6) == 0 {
			in = append(in, []any{"x", nil, int64(1), 1.0, []any{}}[R.Intn(5)])
			good = false
		} else {
			in = append(in, i)
			ints = append(ints, i)
		}
	}
	if in == nil {
		in = []any{}
	}
	got, err := funcs.ConvertToSlice[int]("m", in)
	c.Check((err == nil) == good && (!good && got == nil || good && eqs(got, ints)), "convert-slice", "ConvertToSlice(%v) = %v, %v", in, got, err)
	_, did := h.Panics(func() { funcs.MustConvertToSlice[int]("m", in) })
	c.Check(did == !good, "convert-must", "MustConvertToSlice(%v) panicked=%v", in, did)
	var in2 []any
	var want2 [][]int
	good2 := true
	for i := szMax(R, 6, 300); i > 0; i-- {
		// rows of equal and of different lengths, all with different elements
		row, wrow := []any{}, []int{}
		for j := []int{szMax(R, 5, 300), 2}[R.Intn(2)]; j > 0; j-- {
			if R.Intn(40) == 0 {
				row, good2 = append(row, []any{"x", nil, int8(1), 1.0, row}[R.Intn(5)]), false
			} else {
				e := len(wrow) + 100*i
				row, wrow = append(row, e), append(wrow, e)
			}
		}
		in2, want2 = append(in2, row), append(want2, wrow)
	}
	if R.Intn(6) == 0 {
		in2, good2 = append(in2, 5), false
	}
	if in2 == nil {
		in2 = []any{}
	}
	got2, err := funcs.ConvertToSlice2[int]("m", in2)
	ok := (err == nil) == good2
	if good2 {
		ok = ok && len(got2) == len(want2)
		for i := range got2 {
			ok = ok && eqs(got2[i], want2[i])
		}
	} else {
		ok = ok && got2 == nil
	}
	c.Check(ok, "convert-slice2", "ConvertToSlice2(%v) = %v, %v", in2, got2, err)
	_, did = h.Panics(func() { funcs.MustConvertToSlice2[int]("m", in2) })
	c.Check(did == !good2, "convert-must", "MustConvertToSlice2(%v) panicked=%v", in2, did)
	mp, wm := map[string]any{}, map[string]int{}
	for i, v := range in {
		mp[fmt.Sprint(i)] = v
		if k, isa := v.(int); isa {
			wm[fmt.Sprint(i)] = k
		}
	}
	gm, err := funcs.ConvertToMap[string, int]("m", mp)
	c.Check((err == nil) == good && (!good && gm == nil || good && goreflect.DeepEqual(gm, wm)), "convert-map", "ConvertToMap(%v) = %v, %v", mp, gm, err)
	_, did = h.Panics(func() { funcs.MustConvertToMap[string, int]("m", mp) })
	c.Check(did == !good, "convert-must", "MustConvertToMap(%v) panicked=%v", mp, did)
	wrong := []any{nil, 1, "x", []int{1}, map[string]int{}, map[int]any{}}[R.Intn(6)]
	_, e1 := funcs.ConvertToSlice[int]("m", wrong)
	_, e2 := funcs.ConvertToSlice2[int]("m", wrong)
	_, e3 := funcs.ConvertToMap[string, int]("m", wrong)
	c.Check(e1 != nil && e2 != nil && e3 != nil, "convert-wrong", "conversion of %T accepted: %v %v %v", wrong, e1, e2, e3)
	a, err := funcs.AssertType[string]("m", wrong)
	_, isS := wrong.(string)
	ws, _ := wrong.(string)
	c.Check((err == nil) == isS && a == ws, "assert-type", "AssertType[string](%v) = %q, %v", wrong, a, err)
	_, did = h.Panics(func() { funcs.MustAssertType[string]("m", wrong) })
	c.Check(did == !isS, "assert-type-must", "MustAssertType[string](%v) panicked=%v", wrong, did)
	// must be non-zero, non-empty
	z := gInt(R)
	_, did = h.Panics(func() { c.Check(funcs.MustNonZero(z) == z, "non-zero", "MustNonZero") })
	c.Check(did == (z == 0), "non-zero", "MustNonZero(%d) panicked=%v", z, did)
	sl := genSlice(R, gInt)
	_, did = h.Panics(func() { c.Check(eqs(funcs.MustNonEmptySlice(sl), sl), "non-empty", "MustNonEmptySlice") })
	c.Check(did == (len(sl) == 0), "non-empty", "MustNonEmptySlice(%v) panicked=%v", sl, did)
	c.Obs("conv", fmt.Sprint(in), fmt.Sprint(in2), isNil)
}

// ==== case conversion

var simpleLetters = []rune("abcdefghijklmnopqrstuvwxyzéàñøžβδωжя")

// casedLetters can be capitalised and back, otherLetters are not capitals, of all languages
var casedLetters, otherLetters = func() (c, o []rune) {
	for r := rune(0x80); r <= unicode.MaxRune; r++ {
		if !unicode.IsLetter(r) {
			continue
		}
		if u := unicode.ToUpper(r); u != r && unicode.IsUpper(u) && unicode.ToLower(u) == r {
			c = append(c, r)
		}
		if !unicode.IsUpper(r) {
			o = append(o, r)
		}
	}
	return
}()

func firstLetter(R *rand.Rand) rune {
	if R.Intn(6) == 0 {
		return casedLetters[R.Intn(len(casedLetters))]
	}
	return simpleLetters[R.Intn(len(simpleLetters))]
}

func laterLetter(R *rand.Rand) rune {
	switch R.Intn(12) {
	case 0:
		return otherLetters[R.Intn(len(otherLetters))]
	case 1:
		return casedLetters[R.Intn(len(casedLetters))]
	}
	return simpleLetters[R.Intn(len(simpleLetters))]
}

func genWord(R *rand.Rand) string {
	var sb strings.Builder
	sb.WriteRune(firstLetter(R))
	for n := szMax(R, 6, 100); n > 0; n-- {
		if R.Intn(5) == 0 {
			sb.WriteRune(rune('0' + R.Intn(10)))
		} else {
			sb.WriteRune(laterLetter(R))
		}
	}
	return sb.String()
}

func capital(w string) string {
	r, n := utf8.DecodeRuneInString(w)
	return string(unicode.ToUpper(r)) + w[n:]
}

func cases(c *h.Ctx) {
	R := c.R
	n := 1 + szMax(R, 5, 40)
	var words, caps []string
	for i := 0; i < n; i++ {
		w := genWord(R)
		words, caps = append(words, w), append(caps, capital(w))
	}
	snake, camel := strings.Join(words, "_"), strings.Join(caps, "")
	lowerCamel := words[0] + strings.Join(caps[1:], "")
	mixed := append([]string{}, words...)
	for i := range mixed {
		if R.Intn(2) == 0 {
			mixed[i] = caps[i]
		}
	}
	msnake := strings.Join(mixed, "_")
	c.NoPanic("case-panic", fmt.Sprintf("case conversion of %q", snake), func() {
		g := funcs.SnakeToCamelCase(snake)
		c.Check(g == camel, "snake-camel", "SnakeToCamelCase(%q) = %q, want %q", snake, g, camel)
		g = funcs.SnakeToCamelCase(msnake)
		c.Check(g == camel, "snake-camel", "SnakeToCamelCase(%q) = %q, want %q", msnake, g, camel)
		g = funcs.CamelCaseToSnakeCase(camel)
		c.Check(g == snake, "camel-snake", "CamelCaseToSnakeCase(%q) = %q, want %q", camel, g, snake)
		g = funcs.CamelCaseToSnakeCase(lowerCamel)
		c.Check(g == snake, "camel-snake", "CamelCaseToSnakeCase(%q) = %q, want %q", lowerCamel, g, snake)
		c.Check(funcs.SnakeToCamelCase(funcs.CamelCaseToSnakeCase(camel)) == camel, "case-roundtrip", "%q", camel)
		c.Check(funcs.SnakeToCamelCase(camel) == camel, "camel-stays", "SnakeToCamelCase(%q) = %q", camel, funcs.SnakeToCamelCase(camel))
	})
	// anything at all: no panic, and no letter or digit is lost
	var sb strings.Builder
	for k := szMax(R, 8, 300); k > 0; k-- {
		sb.WriteRune([]rune{'_', '_', 'a', 'B', '1', 'é', 'É', '-', ' ', '€', '\U0001F600', 'z'}[R.Intn(12)])
	}
	x := sb.String()
	keep := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == '_' {
				return -1
			}
			return unicode.ToLower(r)
		}, s)
	}
	c.NoPanic("case-panic", fmt.Sprintf("case conversion of %q", x), func() {
		a, b := funcs.SnakeToCamelCase(x), funcs.CamelCaseToSnakeCase(x)
		c.Check(keep(a) == keep(x), "snake-camel-lost", "SnakeToCamelCase(%q) = %q", x, a)
		c.Check(keep(b) == keep(x), "camel-snake-lost", "CamelCaseToSnakeCase(%q) = %q", x, b)
		c.Check(!strings.Contains(a, "_"), "snake-camel-underscore", "SnakeToCamelCase(%q) = %q", x, a)
	})
	// any bytes at all: one char for each
	var wild strings.Builder
	for k := R.Intn(6); k > 0; k-- {
		switch R.Intn(6) {
		case 0:
			wild.WriteByte(byte(R.Intn(256)))
		case 1:
			wild.WriteByte('_')
		case 2:
			wild.WriteRune(laterLetter(R))
		default:
			wild.WriteRune(rune(R.Intn(0x110000)))
		}
	}
	w := wild.String()
	c.NoPanic("case-panic", fmt.Sprintf("case conversion of %q", w), func() {
		a, b := funcs.SnakeToCamelCase(w), funcs.CamelCaseToSnakeCase(w)
		us := strings.Count(w, "_")
		c.Check(utf8.RuneCountInString(a) == utf8.RuneCountInString(w)-us, "snake-camel-lost", "SnakeToCamelCase(%q) = %q", w, a)
		c.Check(utf8.RuneCountInString(b)-strings.Count(b, "_") == utf8.RuneCountInString(w)-us, "camel-snake-lost", "CamelCaseToSnakeCase(%q) = %q", w, b)
	})
	c.Check(funcs.SnakeToCamelCase("") == "" && funcs.CamelCaseToSnakeCase("") == "", "case-empty", "empty input")
	c.Ev("names converted")
	c.Obs(snake)
	c.Obs(x)
	c.Sample("%q <=> %q", snake, camel)
}

func init() {
	h.Register("C21", "distinct slices and arguments whose every operation was compared with a list model", func(r *h.Run) {
		n := 40000
		if r.Thorough() {
			n = 200000
		}
		r.Group("ops", n, func(c *h.Ctx) {
			switch c.Idx % 6 {
			case 4:
				sliceOps(c, "any", func(R *rand.Rand) any {
					return []any{nil, 0, "", 1, int8(1), "x", valRcvr{}, (*int)(nil), 1.5, true}[R.Intn(10)]
				})
			case 5:
				sliceOps(c, "*int", func(R *rand.Rand) *int { return someInts[R.Intn(3)] })
			case 0:
				sliceOps(c, "int", gInt)
			case 1:
				sliceOps(c, "string", gStr)
			case 2:
				sliceOps(c, "float64", gFloat)
				nanOps(c)
			default:
				sliceOps(c, "struct", gStruct)
			}
		})
		r.Group("sorts", n/4, sliceSorts)
		r.Group("flatten", n, func(c *h.Ctx) {
			switch c.Idx % 4 {
			case 0:
				flatten(c, "int", gInt)
			case 1:
				flatten(c, "string", gStr)
			case 2:
				flatten(c, "struct", gStruct)
			default:
				flatten(c, "any", func(R *rand.Rand) any { return []any{nil, 1, "x", 1.5, valRcvr{}}[R.Intn(5)] })
			}
			c.NoPanic("flatten-named", "SliceFlatten of a named slice type", func() {
				c.Check(eqs(funcs.SliceFlatten[int](namedInts{1, 2}), []int{1, 2}) && eqs(funcs.SliceFlatten[int]([]namedInts{{1}, {2}}), []int{1, 2}), "flatten-named", "wrong elements")
			})
		})
		r.Group("uncomparable", n, uncomparables)
		r.Group("large", 40+n/1000, largeSlices)
		sizes(r, 3, 4300, 17000, largeSlices)
	})
	h.Register("C22", "distinct map operation histories, sorted maps and ordered key sets compared with a model after every step", func(r *h.Run) {
		n := 32000
		if r.Thorough() {
			n = 120000
		}
		r.Group("maps", n, mapOps)
		r.Group("any-maps", n, mapsOfAny)
		r.Group("large-ordered", 60+n/1000, largeOrdered)
		sizes(r, 2, 2100, 9000, largeOrdered)
		r.Group("large-maps", 8, largeMaps)
		r.Group("sorts", n, func(c *h.Ctx) {
			switch c.Idx % 6 {
			case 0:
				mapSort(c, "MapSortOrdered[int]", gInt, funcs.MapSortOrdered[int, int], func(a, b int) bool { return a > b })
			case 1:
				mapSort(c, "MapSortOrdered[string]", gStr, funcs.MapSortOrdered[string, int], func(a, b string) bool { return a > b })
			case 2:
				mapSort(c, "MapSortOrdered[float64]", gFloat, funcs.MapSortOrdered[float64, int], func(a, b float64) bool { return a > b })
			case 3:
				mapSort(c, "MapSortComplex", genComplex, funcs.MapSortComplex[complex128, int], func(a, b complex128) bool { return cmplx.Abs(a) > cmplx.Abs(b)*(1+1e-12) })
			case 4:
				if c.R.Intn(2) == 0 {
					mapSort(c, "MapSortCmp[far]", genFar, funcs.MapSortCmp[far, int], func(a, b far) bool { return a.Cmp(b) > 0 })
					break
				}
				mapSort(c, "MapSortCmp", func(R *rand.Rand) *big.Int { return big.NewInt(int64(R.Intn(20) - 10)) }, funcs.MapSortCmp[*big.Int, int], func(a, b *big.Int) bool { return a.Cmp(b) > 0 })
			default:
				mapSort(c, "MapSortBy", gStruct, func(m map[valRcvr]int) []tuple.Two[valRcvr, int] {
					return funcs.MapSortBy(m, func(x, y valRcvr) bool { return x.B > y.B })
				}, func(a, b valRcvr) bool { return b.B > a.B })
			}
		})
		r.Group("ordered", n, func(c *h.Ctx) {
			switch c.Idx % 4 {
			case 0:
				if c.R.Intn(20) == 0 {
					many := make([]int, 400)
					for i := range many {
						many[i] = 3 * i
					}
					orderedMap(c, "int", many)
					return
				}
				orderedMap(c, "int", []int{math.MinInt64, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, math.MaxInt64})
			case 1:
				orderedMap(c, "string", []string{"", "a", "aa", "ab", "b", "Z", "é", "\x00", "10", "9"})
			case 2:
				orderedMap(c, "float64", []float64{math.Inf(-1), -1e300, -1, -0.5, 0, 5e-324, 0.5, 1, 1e300, math.Inf(1)})
			default:
				orderedMap(c, "uint8", []uint8{0, 1, 2, 3, 127, 128, 254, 255})
			}
		})
	})
	h.Register("C23", "distinct filter combinations, compositions, guarded calls and conversions whose results and call logs were compared", func(r *h.Run) {
		n := 24000
		if r.Thorough() {
			n = 100000
		}
		r.Group("filters", n, filters)
		r.Group("compares", n, func(c *h.Ctx) {
			compares(c, "int", gInt)
			compares(c, "uint", gUint)
			compares(c, "string", gStr)
			compares(c, "float64", func(R *rand.Rand) float64 {
				if R.Intn(6) == 0 {
					return []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}[R.Intn(4)]
				}
				return gFloat(R)
			})
			signs(c, "int", gInt(c.R))
			signs(c, "int8", gInt8(c.R))
			signs(c, "float64", gFloat(c.R))
			signs(c, "float64", []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 5e-324, -5e-324}[c.R.Intn(6)])
			signs(c, "float32", float32(gFloat(c.R)))
		})
		r.Group("compose", n, compose)
		r.Group("try", n, tryTo)
		r.Group("suppliers", n/3, suppliers)
		r.Group("nil-convert", n, nils)
		r.Group("large", 16+n/2000, largeFuncs)
		sizes(r, 3, 1100, 2100, largeFuncs)
	})
	h.Register("C24", "distinct names converted in both directions, and distinct arbitrary strings", func(r *h.Run) {
		n := 200000
		if r.Thorough() {
			n = 3000000
		}
		r.Group("cases", n, cases)
		r.Group("long", n/400, largeCases)
		sizes(r, 4, 2100, 4200, largeCases)
	})
}
