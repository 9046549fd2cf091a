package p

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"

	"verif/h"
)

// anyStream applies the transforms that work on any element to elements of a type whose equality is not obvious.
func anyStream[T comparable](c *h.Ctx, typ string, g elemGen[T]) {
	var (
		R     = c.R
		vals  []T
		final = iter.EOI
		n     = R.Intn(14)
	)
	if R.Intn(40) == 0 {
		n = R.Intn(500)
	}
	for i := 0; i < n; i++ {
		vals = append(vals, g(R))
	}
	if R.Intn(4) == 0 {
		final = errInjected
	}
	show := func(vs []T) string {
		var sb strings.Builder
		for _, v := range vs {
			fmt.Fprintf(&sb, "%T(%#v) ", v, v)
		}
		return sb.String()
	}
	key := func(v T) string { return fmt.Sprintf("%T(%#v)", v, v) }
	src := func() iter.Iter[T] {
		return iter.SetError(iter.OfSlice(append([]T(nil), vals...)), final)
	}
	judge := func(name string, out iter.Iter[T], want []T, werr error) {
		got, err, sticky := drain(out.Next, len(want)+2)
		c.Check(show(got) == show(want) && err == werr && sticky == "", "stream-any-"+name, "%s of %s %s (final %v): got %s, %v %s; want %s, %v", name, typ, show(vals), final, show(got), err, sticky, show(want), werr)
	}
	c.NoPanic("stream-any-panic", "a stream of "+typ, func() {
		var (
			distinct, dup, rev, even, odd []T
			seen                          = map[T]int{}
		)
		isEven := func(v T) bool { return len(key(v))%2 == 0 }
		for i, v := range vals {
			if seen[v]++; v != v || seen[v] == 1 {
				distinct = append(distinct, v)
			} else if seen[v] == 2 {
				dup = append(dup, v)
			}
			rev = append(rev, vals[len(vals)-1-i])
			if isEven(v) {
				even = append(even, v)
			} else {
				odd = append(odd, v)
			}
		}
		whole := func(vs []T) []T {
			if final != iter.EOI {
				return nil
			}
			return vs
		}
		judge("Distinct", stream.Distinct(src()), distinct, final)
		judge("Duplicate", stream.Duplicate(src()), dup, final)
		judge("Reverse", stream.Reverse(src()), whole(rev), final)
		judge("Filter", stream.Filter(isEven)(src()), even, final)
		judge("Map", stream.Map(func(v T) T { return v })(src()), vals, final)
		var peeked []T
		judge("Peek", stream.Peek(func(v T) { peeked = append(peeked, v) })(src()), vals, final)
		c.Check(show(peeked) == show(vals), "stream-any-peeked", "Peek of %s %s was shown %s", typ, show(vals), show(peeked))
		k := R.Intn(len(vals) + 3)
		if k < len(vals) {
			judge("Skip", stream.Skip[T](uint(k))(src()), vals[k:], final)
			judge("Limit", stream.Limit[T](uint(k))(src()), vals[:k], iter.EOI)
		} else {
			judge("Skip", stream.Skip[T](uint(k))(src()), nil, final)
		}
		// a comparator that puts the even ones first
		less := func(a, b T) bool { return isEven(a) && !isEven(b) }
		sorted, err, _ := drain(stream.SortBy(less)(src()).Next, len(vals)+2)
		if final == iter.EOI {
			bag := func(vs []T) string {
				var ks []string
				for _, v := range vs {
					ks = append(ks, key(v))
				}
				sort.Strings(ks)
				return strings.Join(ks, " ")
			}
			ok := len(sorted) == len(vals) && err == iter.EOI
			for i := 0; ok && i < len(sorted); i++ {
				ok = isEven(sorted[i]) == (i < len(even))
			}
			c.Check(ok && bag(sorted) == bag(vals), "stream-any-SortBy", "SortBy of %s %s: %s, %v", typ, show(vals), show(sorted), err)
		} else {
			c.Check(len(sorted) == 0 && err == final, "stream-any-SortBy", "SortBy of %s with an error: %s, %v", typ, show(sorted), err)
		}
		// reductions: the first, the last, and all of them
		first := func(a, b T) T { return a }
		last := func(a, b T) T { return b }
		id := g(R)
		switch {
		case final != iter.EOI || len(vals) == 0:
			judge("Reduce", stream.Reduce(first)(src()), nil, final)
			judge("Reduce", stream.Reduce(last, id)(src()), whole([]T{id}), final)
		default:
			judge("Reduce", stream.Reduce(first)(src()), vals[:1], final)
			judge("Reduce", stream.Reduce(first, id)(src()), []T{id}, final)
			judge("Reduce", stream.Reduce(last)(src()), vals[len(vals)-1:], final)
			judge("Reduce", stream.Reduce(last, id)(src()), vals[len(vals)-1:], final)
			judge("ReduceTo", stream.ReduceTo(last)(src()), vals[len(vals)-1:], final)
		}
		cnt, cerr := stream.Count(src()).Next()
		all, aerr := stream.ReduceToSlice(src()).Next()
		m, merr := stream.ReduceToMap(stream.Map(func(v T) tuple.Two[string, T] { return tuple.Of2(key(v), v) })(src())).Next()
		if final == iter.EOI {
			c.Check(cnt == len(vals) && cerr == nil, "stream-any-Count", "Count of %s %s = %d, %v", typ, show(vals), cnt, cerr)
			c.Check(all != nil && show(all) == show(vals) && aerr == nil, "stream-any-ReduceToSlice", "ReduceToSlice of %s %s = %s, %v", typ, show(vals), show(all), aerr)
			keys := map[string]bool{}
			ok := m != nil && merr == nil
			for _, v := range vals {
				keys[key(v)] = true
				got, have := m[key(v)]
				ok = ok && have && key(got) == key(v)
			}
			c.Check(ok && len(m) == len(keys), "stream-any-ReduceToMap", "ReduceToMap of %s %s = %v, %v", typ, show(vals), m, merr)
		} else {
			c.Check(cnt == 0 && cerr == final && all == nil && aerr == final && m == nil && merr == final, "stream-any-error", "reductions of %s with an error: %d %v, %v %v, %v %v", typ, cnt, cerr, all, aerr, m, merr)
		}
		if k < len(vals) {
			// a sub slice handed over as it is
			judge("ExpandSlices", stream.ExpandSlices(iter.SetError(iter.Of(vals[:k], nil, []T{}, vals[k:]), final)), vals, final)
		}
		// matches stop at the first element that decides
		for i, f := range []func(func(T) bool) func(iter.Iter[T]) iter.Iter[bool]{stream.AllMatch[T], stream.AnyMatch[T], stream.NoneMatch[T]} {
			got, err := f(isEven)(src()).Next()
			want := []bool{len(odd) == 0, len(even) > 0, len(even) == 0}[i]
			decided := []bool{len(odd) > 0, len(even) > 0, len(even) > 0}[i]
			if decided || final == iter.EOI {
				c.Check(got == want && err == nil, "stream-any-match", "match %d of %s %s: %v, %v", i, typ, show(vals), got, err)
			} else {
				c.Check(!got && err == final, "stream-any-match", "match %d of %s %s, with an error: %v, %v", i, typ, show(vals), got, err)
			}
		}
	})
	c.Ev("streams of " + typ)
	c.Obs(typ, show(vals), final)
	c.Sample("%s: %s", typ, show(vals))
}

func anyStreams(c *h.Ctx) {
	anys := []any{nil, 0, "", 1, int8(1), uint8(1), "1", valRcvr{}, (*int)(nil), error(nil), 1.0, math.NaN(), math.Copysign(0, -1), true, [2]int{1}, someInts[1], someInts[2]}
	switch c.Idx % 7 {
	case 0:
		anyStream(c, "any", func(R *rand.Rand) any { return anys[R.Intn(len(anys))] })
	case 1:
		anyStream(c, "float64", func(R *rand.Rand) float64 {
			return []float64{0, math.Copysign(0, -1), 1, 1 + 1e-16, math.NaN(), math.Inf(1), math.Inf(-1), 5e-324}[R.Intn(8)]
		})
	case 2:
		anyStream(c, "string", func(R *rand.Rand) string {
			return []string{"", " ", "a", "A", "a ", "é", "e\u0301", "\x00", "\xff"}[R.Intn(9)]
		})
	case 3:
		anyStream(c, "*int", func(R *rand.Rand) *int { return someInts[R.Intn(3)] })
	case 4:
		errs := []error{nil, errInjected, errors.New("injected read error"), iter.EOI}
		anyStream(c, "error", func(R *rand.Rand) error { return errs[R.Intn(4)] })
	case 5:
		anyStream(c, "struct", gStruct)
	default:
		anyStream(c, "complex128", func(R *rand.Rand) complex128 {
			fs := []float64{0, 1, math.NaN(), math.Copysign(0, -1)}
			return complex(fs[R.Intn(4)], fs[R.Intn(4)])
		})
	}
}

var largeSizes = []int{4095, 4097, 32769, 65537, 70001, 131073, 300000, 1000003}

func largeSlices(c *h.Ctx) {
	var (
		R    = c.R
		n    = largestN(c)
		s    = make([]int, n, n+3)
		rng  = []int{2, 300, 1 << 30}[R.Intn(3)]
		mark = -7
	)
	for i := range s {
		s[i] = R.Intn(rng)
	}
	s[:n+1][n] = mark
	orig := clone(s)
	c.NoPanic("large-panic", "an operation on a large slice", func() {
		cp := funcs.SliceCopy(s)
		c.Check(eqs(cp, orig), "large-copy", "SliceCopy of %d elements", n)
		for i := range cp {
			cp[i]++
		}
		c.Check(eqs(s, orig), "large-copy-shared", "changing a copy of %d elements changed the original", n)
		for k := 0; k < 50; k++ {
			i := R.Intn(n)
			if k < 4 {
				i = max(0, n-1-k)
			}
			c.Check(funcs.SliceIndex(s, i) == orig[i] && funcs.SliceIndex(s, -i-1) == orig[n-1-i], "large-index", "SliceIndex of %d elements at %d", n, i)
		}
		v := s[n-1-R.Intn(min(n, 10))]
		for _, all := range []bool{false, true} {
			c.Check(eqs(funcs.SliceRemove(s, v, all), removeModel(orig, v, all)), "large-remove", "SliceRemove of %d elements, all=%v", n, all)
		}
		want := mset(orig)
		m, u := funcs.SliceToMap(s), funcs.SliceUniqueValues(s)
		ok := len(m) == len(want) && len(u) == len(want)
		for _, x := range u {
			ok = ok && want[x] > 0 && m[x]
		}
		c.Check(ok && len(mset(u)) == len(want), "large-unique", "unique values of %d elements", n)
		c.Check(eqs(s, orig), "large-changed", "an operation changed the %d elements it was given", n)

		parts := [][]int{s[:n/3], nil, s[n/3 : n/2], s[n/2:]}
		c.Check(eqs(funcs.SliceFlatten[int](parts), orig), "large-flatten", "SliceFlatten of %d elements", n)

		rv := funcs.SliceReverse(clone(s))
		ok = len(rv) == n
		for i := range rv {
			ok = ok && rv[i] == orig[n-1-i]
		}
		c.Check(ok, "large-reverse", "SliceReverse of %d elements", n)
		st := clone(orig)
		sort.Ints(st)
		c.Check(eqs(funcs.SliceSortOrdered(clone(s)), st), "large-sort", "SliceSortOrdered of %d elements", n)
		c.Check(eqs(funcs.SliceSortBy(clone(s), func(a, b int) bool { return a < b }), st), "large-sort", "SliceSortBy of %d elements", n)
		c.Check(s[:n+1][n] == mark, "large-beyond", "what follows %d elements in memory was changed", n)

		grown := clone(orig)
		for i := 0; i < 10; i++ {
			funcs.SliceAdd(&grown, i)
		}
		ok = len(grown) == n+10 && eqs(grown[:n], orig)
		for i := 0; i < 10; i++ {
			ok = ok && grown[n+i] == i
		}
		c.Check(ok, "large-add", "SliceAdd to %d elements", n)
	})
	c.EvN("elements of large slices", n)
	c.Obs(n, rng, R.Int63())
	c.Sample("%d elements under %d", n, rng)
}

// largeOrdered searches and changes ordered maps with many keys.
func largeOrdered(c *h.Ctx) {
	var (
		R    = c.R
		n    = largestN(c)
		step = 1 + 2*R.Intn(3)
		base = -R.Intn(n * step)
		mp   = make([]tuple.Two[int, []int], n)
	)
	for i := range mp {
		mp[i] = tuple.Of2(base+i*step, []int{i})
	}
	check := func(after string, mp []tuple.Two[int, []int], key int) bool {
		at := sort.Search(len(mp), func(i int) bool { return mp[i].T >= key })
		have := at < len(mp) && mp[at].T == key
		want := at
		if !have && at > 0 {
			want = at - 1
		}
		if len(mp) == 0 {
			want = -1
		}
		got, found := funcs.OrderedTuple2Search(mp, key)
		return c.Check(got == want && found == have, "large-ordered-search", "%s: search of %d in %d keys from %d step %d: %d, %v, want %d, %v", after, key, len(mp), base, step, got, found, want, have)
	}
	c.NoPanic("large-ordered-panic", "an operation on a large ordered map", func() {
		for k := 0; k < 400; k++ {
			key := base + R.Intn(n*step+3) - 1
			if k < 20 {
				key = []int{base, base - 1, base + (n-1)*step, base + (n-1)*step + 1, math.MaxInt64, math.MinInt64, base + 65535*step, base + 65536*step, base + 32768*step, base + 32767*step}[k%10]
			}
			if !check("at first", mp, key) {
				return
			}
		}
		// some keys are added and removed again
		for k := 0; k < 6; k++ {
			key, was := base+R.Intn(n*step+3)-1, len(mp)
			_, have := funcs.OrderedTuple2Search(mp, key)
			if R.Intn(2) == 0 {
				funcs.OrderedTuple2SliceAdd(&mp, key, -1)
				i, found := funcs.OrderedTuple2Search(mp, key)
				ok := found && mp[i].U[len(mp[i].U)-1] == -1 && len(mp) == was+map[bool]int{false: 1}[have]
				c.Check(ok, "large-ordered-add", "adding %d to %d keys", key, was)
			} else {
				funcs.OrderedTuple2SliceRemoveKey(&mp, key)
				_, found := funcs.OrderedTuple2Search(mp, key)
				c.Check(!found && len(mp) == was-map[bool]int{true: 1}[have], "large-ordered-remove", "removing %d from %d keys", key, was)
			}
			ok := true
			for i := 1; i < len(mp); i++ {
				ok = ok && mp[i-1].T < mp[i].T
			}
			c.Check(ok, "large-ordered-order", "the keys are out of order after a change of %d in %d", key, was)
			check("later", mp, key+1)
		}
	})
	c.EvN("keys of large ordered maps", n)
	c.Obs(n, step, base)
	c.Sample("%d keys from %d step %d", n, base, step)
}

// largeMaps has maps with many keys.
func largeMaps(c *h.Ctx) {
	var (
		n = largeN(c)
		m = map[int]string{}
	)
	for i := 0; i < n; i++ {
		m[i*7-n] = fmt.Sprint(i)
	}
	c.NoPanic("large-map-panic", "an operation on a large map", func() {
		ks := funcs.MapKeysToSlice(m)
		sorted := funcs.MapSortOrdered(m)
		ok := len(ks) == n && len(sorted) == n && len(m) == n
		for i, t := range sorted {
			ok = ok && t.T == i*7-n && t.U == fmt.Sprint(i)
		}
		sort.Ints(ks)
		for i, k := range ks {
			ok = ok && k == i*7-n
		}
		c.Check(ok, "large-map", "the keys of a map of %d", n)
	})
	c.EvN("keys of large maps", n)
	c.Obs("maps", n)
}
