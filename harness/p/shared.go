package p

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	goreflect "reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/h"

	"github.com/bantling/micro/code"
	mjson "github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/math"
	"github.com/bantling/micro/reflect"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	ureflect "github.com/bantling/micro/union/reflect"
)

// sharedOp is an operation that only reads what it shares with others, and describes its outcome.
type sharedOp struct {
	name string
	f    func() string
}

func outcome(vals ...any) string {
	var sb strings.Builder
	for _, v := range vals {
		switch t := v.(type) {
		case error:
			sb.WriteString("error " + t.Error())
		case *big.Int, *big.Float, *big.Rat:
			sb.WriteString(show(t))
		default:
			fmt.Fprintf(&sb, "%v", t)
		}
		sb.WriteByte(';')
	}
	return sb.String()
}

// sharedOps makes operations over values that all goroutines share.
func sharedOps(R *rand.Rand, kind int) (ops []sharedOp) {
	add := func(name string, f func() string) { ops = append(ops, sharedOp{name, f}) }
	switch kind {
	case 0: // conversions of the same source
		typ := []string{"*big.Int", "*big.Float", "*big.Rat", "*big.Int", "*big.Float", "*big.Rat", "string", "float64", "int64", "uint8"}[R.Intn(10)]
		src := genBase(R, typ)
		sub := subSrc(src)
		for _, p := range convPairs {
			if p.S != typ {
				continue
			}
			p := p
			add("To "+typ+" "+p.O, func() string { v, e := p.to(src); return outcome(v, e) })
			add("AnyTo "+typ+" "+p.O, func() string { v, e := p.anyTo(sub); return outcome(v, e) })
			add("ReflectTo "+typ+" "+p.O, func() string { v, e := p.reflect(sub); return outcome(v, e) })
			add("ToBigOps "+typ+" "+p.O, func() string { v, e, _ := bigOpsAny(src, p.O); return outcome(v, e) })
		}
		for _, d := range directs {
			if d.S == typ {
				d := d
				add(d.name, func() string { v, e := d.run(src); return outcome(v, e) })
			}
		}
	case 1: // arithmetic on the same big operands
		bi := func() *big.Int {
			i := new(big.Int).Rand(R, new(big.Int).Lsh(big.NewInt(1), uint(1+R.Intn(150))))
			if R.Intn(2) == 0 {
				i.Neg(i)
			}
			return i
		}
		a, b := bi(), bi()
		if b.Sign() == 0 {
			b.SetInt64(3)
		}
		fa, fb := new(big.Float).SetInt(a), new(big.Float).SetInt(b)
		ra, rb := new(big.Rat).SetFrac(a, big.NewInt(7)), new(big.Rat).SetFrac(b, big.NewInt(3))
		add("Div *big.Int", func() string { q := new(big.Int); e := math.Div(a, b, &q); return outcome(q, e) })
		add("Div *big.Float", func() string { q := new(big.Float); e := math.Div(fa, fb, &q); return outcome(q, e) })
		add("Div *big.Rat", func() string { q := new(big.Rat); e := math.Div(ra, rb, &q); return outcome(q, e) })
		add("DivBigOps *big.Int", func() string { q := new(big.Int); e := math.DivBigOps(a, b, &q); return outcome(q, e) })
		add("DivBigOps *big.Rat", func() string { q := new(big.Rat); e := math.DivBigOps(ra, rb, &q); return outcome(q, e) })
		add("Div int8", func() string { var q int8; e := math.Div(int8(a.Int64()), int8(b.Int64()|1), &q); return outcome(q, e) })
		add("Div uint64", func() string { var q uint64; e := math.Div(a.Uint64(), b.Uint64()|1, &q); return outcome(q, e) })
		add("Abs", func() string { i := int32(a.Int64()); e := math.Abs(&i); return outcome(i, e) })
		add("MinCmp", func() string { return outcome(math.MinCmp(a, b), math.MaxCmp(ra, rb), math.MinCmp(fa, fb)) })
		big3 := []*big.Int{a, b, a}
		add("SumBigOps", func() string { v, e := stream.SumBigOps(iter.OfSlice(big3)).Next(); return outcome(v, e) })
		add("AvgBigOps", func() string { v, e := stream.AvgBigOps(iter.OfSlice(big3)).Next(); return outcome(v, e) })
		add("AbsBigOps", func() string {
			v, e := stream.ReduceToSlice(stream.AbsBigOps(iter.OfSlice(big3))).Next()
			return outcome(v, e)
		})
		add("MaxCmp", func() string { v, e := stream.MaxCmp(iter.OfSlice(big3)).Next(); return outcome(v, e) })
		rng := math.OfRange(1, math.Closed, 100, math.Open, 50)
		add("Range", func() string {
			mn, m1 := rng.GetMin()
			mx, m2 := rng.GetMax()
			c := rng
			return outcome(mn, m1, mx, m2, rng.GetValue(), c.SetValue(int(a.Int64()%200)), c.GetValue())
		})
	case 2: // decimals
		d, e := genDec(R).d, genDec(R).d
		n := uint(1 + R.Intn(20))
		text := d.String()
		add("Decimal.String", func() string {
			return outcome(d.String(), d.Precision(), d.Scale(), d.Sign(), d.Normalized(), d.MagnitudeLessThanOne())
		})
		add("Decimal.Add", func() string { v, err := d.Add(e); return outcome(v, err) })
		add("Decimal.Sub", func() string { v, err := d.Sub(e); return outcome(v, err) })
		add("Decimal.Mul", func() string { v, err := d.Mul(e); return outcome(v, err) })
		add("Decimal.Div", func() string {
			if e.Sign() == 0 {
				return ""
			}
			v, err := d.Div(e)
			return outcome(v, err)
		})
		add("Decimal.DivIntQuoRem", func() string { q, r, err := d.DivIntQuoRem(n); return outcome(q, r, err) })
		add("Decimal.DivIntAdd", func() string { v, err := d.DivIntAdd(n); return outcome(v, err) })
		add("Decimal.Cmp", func() string { return outcome(d.Cmp(e), d.Negate()) })
		add("AdjustDecimalScale", func() string { x, y := d, e; err := math.AdjustDecimalScale(&x, &y); return outcome(x, y, err) })
		add("AdjustDecimalFormat", func() string { x, y := math.AdjustDecimalFormat(d, e); return x + " " + y })
		add("StringToDecimal", func() string { v, err := math.StringToDecimal(text); return outcome(v, err) })
		add("Normalize", func() string { x := d; x.Normalize(); return outcome(x) })
	case 3: // one JSON value, document text, path
		var sb strings.Builder
		genJ(R, &sb, 4, true)
		text := sb.String()
		jv, err := parse.Parse(strings.NewReader(text))
		var nums []any
		goVal, _ := genGo(R, 3, &nums)
		doc := pathDoc(R, 3)
		dv, _ := toValue(R, doc)
		path := genPath(R, nodeOf(dv))
		fn, perr := mjson.ParsePath(path)
		add("Parse", func() string { v, err := parse.Parse(strings.NewReader(text)); return outcome(nodeOf(v), err) })
		add("Iterate", func() string {
			v, err := stream.ReduceToSlice(parse.Iterate(strings.NewReader(text))).Next()
			s := ""
			for _, x := range v {
				s += nodeOf(x).String()
			}
			return outcome(s, err)
		})
		add("ToValue", func() string {
			var v mjson.Value
			var e error
			switch t := goVal.(type) {
			case map[string]any:
				v, e = mjson.MapToValue(t)
			case []any:
				v, e = mjson.SliceToValue(t)
			default:
				v, e = mjson.SliceToValue([]any{t})
			}
			return outcome(nodeOf(v), e)
		})
		add("ParsePath", func() string {
			f, e := mjson.ParsePath(path)
			if e != nil {
				return outcome(e)
			}
			v, e := f(dv)
			return outcome(nodeOf(v), e)
		})
		if perr == nil {
			add("path lookup", func() string { v, e := fn(dv); return outcome(nodeOf(v), e) })
		}
		if err == nil {
			add("Write", func() string {
				var rs []rune
				e := write.Write(jv, writer.OfSliceWriter(&rs))
				if e != nil {
					return outcome(e)
				}
				v, e := parse.Parse(strings.NewReader(string(rs)))
				return outcome(nodeOf(v), len(rs), e)
			})
			add("ToAny", func() string { b, _ := json.Marshal(fmt.Sprint(jv.ToAny())); return string(b) })
			add("accessors", func() string { return outcome(nodeOf(jv), jv.Type(), jv.IsDocument(), jv.IsNull()) })
		}
	case 4: // slices and maps that are read
		s := genSlice(R, gInt)
		m := map[string]int{}
		ms := map[complex128][]int{}
		bm := map[*big.Int]int{}
		for i := R.Intn(12); i > 0; i-- {
			m[gStr(R)] = i
			ms[complex(float64(R.Intn(5)), float64(i))] = []int{i}
			bm[big.NewInt(int64(i*7%13))] = i
		}
		m2 := map[string]map[int]int{"a": {1: 1}, "": nil}
		var ot []tuple.Two[int, []string]
		for i := 0; i < R.Intn(9); i++ {
			ot = append(ot, tuple.Of2(i*2, []string{"x"}))
		}
		nested := [][]int{s, nil, s}
		x := R.Intn(12)
		sl := func(v []int) string { return fmt.Sprint(v) }
		add("SliceCopy", func() string { return sl(funcs.SliceCopy(s)) })
		add("SliceRemove", func() string { return sl(funcs.SliceRemove(s, x)) + sl(funcs.SliceRemove(s, x, true)) })
		add("SliceRemoveUncomparable", func() string { return sl(funcs.SliceRemoveUncomparable(s, x, true)) })
		add("SliceIndex", func() string { return outcome(funcs.SliceIndex(s, x), funcs.SliceIndex(s, -x, 9)) })
		add("SliceToMap", func() string {
			return outcome(funcs.SliceToMap(s), funcs.SliceToMapBy(s, func(i int) bool { return i > x }))
		})
		add("SliceUniqueValues", func() string { v := funcs.SliceUniqueValues(s); sort.Ints(v); return sl(v) })
		add("SliceFlatten", func() string { return sl(funcs.SliceFlatten[int](nested)) })
		add("MapIndex", func() string {
			return outcome(funcs.MapIndex(m, "a", 4), funcs.MapTest(m, ""), funcs.Map2Test(m2, "a", x), funcs.Map2Test(m2, "", x))
		})
		add("MapSortOrdered", func() string { return outcome(funcs.MapSortOrdered(m)) })
		add("MapSortComplex", func() string { return outcome(len(funcs.MapSortComplex(ms))) })
		add("MapSortCmp", func() string { return outcome(len(funcs.MapSortCmp(bm))) })
		add("MapSortBy", func() string { return outcome(funcs.MapSortBy(m, func(a, b string) bool { return a > b })) })
		add("MapKeysToSlice", func() string { k := funcs.MapKeysToSlice(m); sort.Strings(k); return outcome(k) })
		add("OrderedTuple2Search", func() string { i, b := funcs.OrderedTuple2Search(ot, x); return outcome(i, b) })
		add("iterate the map", func() string {
			v, e := stream.ReduceToMap(iter.OfMap(m)).Next()
			return outcome(v, e)
		})
		add("ConvertToSlice", func() string {
			v, e := funcs.ConvertToSlice[int]("", []any{1, x})
			w, f := funcs.ConvertToMap[string, int]("", m)
			return outcome(v, e, w, f)
		})
	case 5: // functions made once and used by all
		k := R.Intn(9)
		s := genSlice(R, gInt)
		and := funcs.And(funcs.GreaterThan(-1), funcs.LessThanEqual(k), funcs.Not(funcs.Equal(3)))
		or := funcs.Or(funcs.LessThan(2), funcs.In(s...), funcs.GreaterThanEqual(8))
		cmp := funcs.Compose(func(i int) int { return i + k }, func(i int) int { return i * 2 })
		cmp3 := funcs.Compose3(func(i int) string { return fmt.Sprint(i) }, func(s string) []string { return []string{s, s} }, func(s []string) int { return len(s) })
		sup, supC := funcs.SupplierOf(k), funcs.SupplierCached(func() int { return k * k })
		nn := funcs.IsNonNil[*int]()
		for i := 0; i < 3; i++ {
			v := i * 4
			add("filters", func() string { return outcome(and(v), or(v), funcs.IsNegative[int]()(v), nn(nil)) })
			add("compositions", func() string { return outcome(cmp(v), cmp3(v)) })
			add("suppliers", func() string { return outcome(sup(), supC()) })
			add("words", func() string {
				return funcs.SnakeToCamelCase(strings.Repeat("ab_cd", v)) + funcs.CamelCaseToSnakeCase(strings.Repeat("AbCd", v))
			})
			add("TryTo", func() string {
				out := ""
				funcs.TryTo(func() { panic(v) }, func(e any) { out += fmt.Sprint(e) }, func() { out += "closed" })
				return out
			})
		}
		ts := map[string]func(iter.Iter[int]) iter.Iter[int]{
			"Map": stream.Map(func(i int) int { return i * k }), "Filter": stream.Filter(and), "Skip": stream.Skip[int](uint(k)), "Limit": stream.Limit[int](uint(k)),
			"MapError": stream.MapError(func(i int) (int, error) { return i - k, nil }), "Reduce": stream.Reduce(func(a, b int) int { return a - b }), "ReduceTo": stream.ReduceTo(func(a, b int) int { return a - b }, k),
			"Distinct": stream.Distinct[int], "Duplicate": stream.Duplicate[int], "Reverse": stream.Reverse[int], "SortOrdered": stream.SortOrdered[int], "SortBy": stream.SortBy(func(a, b int) bool { return a > b }),
			"Abs": stream.Abs[int], "Avg": stream.AvgInt[int], "Max": stream.Max[int], "Sum": stream.Sum[int], "Count": stream.Count[int], "Peek": stream.Peek(func(int) {}),
			"Composed": funcs.Compose2(stream.Map(func(i int) int { return i + 1 }), funcs.Compose2(stream.Skip[int](1), stream.Limit[int](uint(k)))),
			"Parallel": stream.Parallel(stream.Map(func(i int) int { return i * k }), stream.PInfo{N: 3}),
		}
		for name, t := range ts {
			t := t
			add("transform "+name, func() string { v, e := stream.ReduceToSlice(t(iter.OfSlice(s))).Next(); return outcome(v, e) })
		}
		all := stream.AllMatch(and)
		add("transform AllMatch", func() string { v, e := all(iter.OfSlice(s)).Next(); return outcome(v, e) })
		it := func() iter.Iter[int] { return iter.Of(s...) }
		add("Of", func() string { v, e := stream.ReduceToSlice(iter.Concat(it(), it())).Next(); return outcome(v, e) })
		csv := "a,b\n" + strings.Repeat("c,\"d\ne\"\n", k)
		add("OfCSV", func() string { v, e := stream.Count(iter.OfCSV(strings.NewReader(csv))).Next(); return outcome(v, e) })
		add("OfStringAsLines", func() string { v, e := stream.ReduceToSlice(iter.OfStringAsLines(csv)).Next(); return outcome(v, e) })
		add("OfReaderAsRunes", func() string {
			v, e := stream.ReduceToSlice(iter.OfReaderAsRunes(strings.NewReader("é€\U0001F600" + csv))).Next()
			return outcome(string(v), e)
		})
		add("Fibonnaci", func() string { g := iter.FibonnaciIterGen(); a, _ := g(); b, _ := g(); return outcome(a, b) })
	case 6: // unions, tuples, code definitions and reflection of the same values
		mb, em := union.Of(big.NewInt(3)), union.Empty[int]()
		u2, u3, u4 := union.Of2T[int, string](3), union.Of3U[int, string, []int]("x"), union.Of4V[int, string, []int, bool]([]int{1})
		rs, re := union.OfResult("r"), union.OfError[int](errInjected)
		t3 := tuple.Of3(1, "a", []int{2})
		add("unions", func() string {
			return outcome(u2, u3, u4, u2.T(), u3.U(), u4.V(), u2.Which(), u3.Which(), u4.Which(), rs, re, rs.Get(), re.Error(), t3)
		})
		add("maybe", func() string { return outcome(mb, em, mb.Get(), em.OrElse(4), em.Present()) })
		st := []any{uint8(3), subInt(4), "x", subSub(2), &subUintVal, []int{1}, valRcvr{}, &mb, &em, map[string]int{"a": 1}, struct {
			A int
			B *string
		}{}}
		for _, x := range st {
			v := goreflect.ValueOf(x)
			t := v.Type()
			add("reflect of "+t.String(), func() string {
				return outcome(reflect.TypeToBaseType(t), reflect.ValueToBaseType(v), reflect.DerefType(t), reflect.IsNumeric(t), reflect.IsNillable(v), reflect.TypeOf(v), reflect.NumPointers(t),
					len(reflect.FieldsByName(t)), reflect.IsBigPtr(t), reflect.DerefValueMaxOnePtr(v).IsValid(), reflect.TypeAssert(v, goreflect.TypeOf(1)), reflect.ResolveValueType(v).Type())
			})
			add("maybe reflection of "+t.String(), func() string {
				p := ureflect.MaybeValueIsPresent(v)
				g := ureflect.GetMaybeValue(v)
				return outcome(ureflect.GetMaybeType(t), p, g.IsValid())
			})
		}
		inner := code.OfScalarType(code.Int8)
		arr := code.OfArrayType(inner, []uint{2, 3}, code.Public)
		lit, vr := code.OfLitVal(inner, "1"), code.OfVarVal(false, arr, "v", code.Package)
		add("code", func() string {
			a, b := code.OfListType(inner), code.OfMapType(inner, arr)
			e := code.OfBinaryExpr(code.Add, &lit, &vr)
			return outcome(a.Typ, b.Typ, e.Op, e.Val1 == &lit, code.IsScalar(a.Typ), code.Operator(code.Add).IsBinary())
		})
	}
	return
}

var subUintVal = subUint(7)

// readers runs operations that only read shared values from several goroutines, and then one by one.
func readers(c *h.Ctx) {
	var (
		R     = c.R
		kind  = c.Idx % 7
		ops   = sharedOps(R, kind)
		n     = 2 + R.Intn(5)
		perms = make([][]int, n)
		got   = make([][]string, n)
		start = make(chan struct{})
		wg    sync.WaitGroup
	)
	run := func(o sharedOp) (res string) {
		defer func() {
			if v := recover(); v != nil {
				res = fmt.Sprintf("panic %v", v)
			}
		}()
		return o.f()
	}
	for g := range perms {
		perms[g] = R.Perm(len(ops))
		if R.Intn(3) == 0 && g > 0 {
			perms[g] = perms[0] // in step with another one
		}
		got[g] = make([]string, len(ops))
	}
	var inFlight, overlap int64
	for g := 0; g < n; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, i := range perms[g] {
				if g == 0 && n > 2 { // only one goroutine looks, so that the monitor does not order the others
					if atomic.LoadInt64(&inFlight) > 0 {
						overlap++
					}
				} else if g == 1 && n > 2 {
					atomic.AddInt64(&inFlight, 1)
				}
				got[g][i] = run(ops[i])
				if g == 1 && n > 2 {
					atomic.AddInt64(&inFlight, -1)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	// what every operation gives on its own
	for i, o := range ops {
		want := run(o)
		for g := range got {
			if !c.Check(got[g][i] == want, "shared-result", "%s by one of %d goroutines gives %s, alone %s", o.name, n, trimTo(got[g][i], 500), trimTo(want, 500)) {
				return
			}
		}
		if strings.HasPrefix(want, "panic") {
			c.Ev("operations that panic alone and concurrently alike")
		}
		c.Ev("operations compared with running alone: kind " + fmt.Sprint(kind))
		c.Obs(kind, o.name, want)
	}
	c.EvN("overlapping operations seen", int(overlap))
	if c.Idx < 7 {
		c.Sample("kind %d: %d goroutines, %d operations, e.g. %s = %s", kind, n, len(ops), ops[0].name, got[0][0])
	}
}

// Cases of the other properties that work on values of their own, by property and group. Groups are left out that take
// long, count goroutines of the process, or run processes.
var othersLeftOut = map[string]bool{"C16/many": true, "C13/deep": true, "C14/deep": true, "C15/long": true, "C19/gzip-large": true, "C21/large": true, "C22/large-ordered": true, "C22/large-maps": true,
	"C04/exhaustive8": true, "C09/long-lines": true, "C12/all-token-sequences": true, "C12/all-number-texts": true, "C12/all-escapes": true, "C12/all-code-points": true, "C12/nesting": true, "C12/endless": true,
	"C13/all-code-points": true, "C16/closures": true, "C16/concurrent": true, "C27/generator": true,
	"C01/large": true, "C08/large": true, "C09/large": true, "C10/large": true, "C12/large": true, "C13/large": true, "C14/large": true, "C15/large": true, "C16/large": true, "C17/large": true, "C19/large": true, "C20/large": true, "C23/large": true, "C24/long": true, "C25/large": true, "C26/large": true,
}

// othersJobs collects the cases of the other properties.
func othersJobs() (jobs []h.Job) {
	for i := 1; i <= 27; i++ {
		id := fmt.Sprintf("C%02d", i)
		if h.Props[id] == nil || id == "C11" || id == "C18" {
			continue
		}
		for _, j := range h.Jobs(id) {
			if !othersLeftOut[id+"/"+j.Group] {
				jobs = append(jobs, j)
			}
		}
	}
	return
}

// others runs cases of one group of another property at the same time, each of which uses values of its own.
func others(c *h.Ctx, jobs []h.Job) {
	var (
		R     = c.R
		j     = jobs[c.Idx%len(jobs)]
		n     = 2 + R.Intn(3)
		idx   = make([]int, n)
		fails = make([][]string, n)
		wg    sync.WaitGroup
		start = make(chan struct{})
	)
	for g := range idx {
		idx[g] = R.Intn(j.N)
		if g > 0 && R.Intn(2) == 0 {
			idx[g] = idx[0]
		}
	}
	for g := 0; g < n; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			fails[g] = h.RunJob(int64(c.Idx), j, idx[g])
		}()
	}
	t := time.Now()
	close(start)
	wg.Wait()
	if d := time.Since(t); d > 3*time.Second {
		c.Ev("slow " + j.Prop + " " + j.Group)
	}
	for g := 0; g < n; g++ {
		if len(fails[g]) == 0 {
			continue
		}
		if len(h.RunJob(int64(c.Idx), j, idx[g])) > 0 {
			// fails alone as well, which is what that property is about
			c.Ev("cases of " + j.Prop + " that fail alone")
			continue
		}
		c.Fail("concurrent-"+j.Prop, "case %d of %s %s holds alone, not while %d others run: %s", idx[g], j.Prop, j.Group, n-1, fails[g][0])
	}
	c.EvN("cases of "+j.Prop+" run concurrently", n)
	c.Obs(j.Prop, j.Group, fmt.Sprint(idx))
}

func init() {
	h.Register("C28", "operations that only read values shared by several goroutines, and cases of the other properties on values of their own run at the same time, under the race detector, compared with the outcome when run alone; a case is non-trivial when it is a distinct operation and outcome, or set of cases", func(r *h.Run) {
		n, m := 14000, 24000
		if r.Thorough() {
			n, m = 140000, 240000
		}
		r.Group("readers", n, readers)
		jobs := othersJobs()
		r.Group("others", m, func(c *h.Ctx) { others(c, jobs) })
	})
}
