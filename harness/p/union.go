package p

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	goreflect "reflect"
	"strings"

	"github.com/bantling/micro/reflect"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	ureflect "github.com/bantling/micro/union/reflect"

	"verif/h"
)

// unionHistory drives unions of two, three and four members through random sets.
func unionHistory(c *h.Ctx) {
	R := c.R
	// all member types are the same, so that a mix up of members is a wrong value rather than a compile error
	type S = string
	var (
		val   = fmt.Sprint("v", R.Intn(1000))
		w     = R.Intn(4)
		size  = 2 + R.Intn(3)
		log   []string
		u2    union.Two[S, S]
		u3    union.Three[S, S, S]
		u4    union.Four[S, S, S, S]
		get   func() (which union.Which, reads [4]func() S, str string)
		set   func(w int, v S)
		fresh bool
	)
	w %= size
	if R.Intn(4) == 0 {
		w, val, fresh = 0, "", true // the zero value holds a zero T
	}
	copy2, copy3, copy4 := u2, u3, u4
	switch size {
	case 2:
		if !fresh {
			u2 = []func(S) union.Two[S, S]{union.Of2T[S, S], union.Of2U[S, S]}[w](val)
		}
		get = func() (union.Which, [4]func() S, string) {
			return u2.Which(), [4]func() S{u2.T, u2.U}, u2.String()
		}
		set = func(w int, v S) { []func(S){u2.SetT, u2.SetU}[w](v) }
	case 3:
		if !fresh {
			u3 = []func(S) union.Three[S, S, S]{union.Of3T[S, S, S], union.Of3U[S, S, S], union.Of3V[S, S, S]}[w](val)
		}
		get = func() (union.Which, [4]func() S, string) {
			return u3.Which(), [4]func() S{u3.T, u3.U, u3.V}, u3.String()
		}
		set = func(w int, v S) { []func(S){u3.SetT, u3.SetU, u3.SetV}[w](v) }
	default:
		if !fresh {
			u4 = []func(S) union.Four[S, S, S, S]{union.Of4T[S, S, S, S], union.Of4U[S, S, S, S], union.Of4V[S, S, S, S], union.Of4W[S, S, S, S]}[w](val)
		}
		get = func() (union.Which, [4]func() S, string) {
			return u4.Which(), [4]func() S{u4.T, u4.U, u4.V, u4.W}, u4.String()
		}
		set = func(w int, v S) { []func(S){u4.SetT, u4.SetU, u4.SetV, u4.SetW}[w](v) }
	}
	log = append(log, fmt.Sprintf("Of%d %c %q", size, "TUVW"[w], val))
	check := func() bool {
		which, reads, str := get()
		ok := which == union.Which(w) && str == val && which.String() == "TUVW"[w:w+1]
		for i := 0; i < size; i++ {
			var got S
			v, did := h.Panics(func() { got = reads[i]() })
			_, isErr := v.(error)
			ok = ok && did == (i != w) && (did && isErr || got == val)
		}
		c.Ev("union states")
		c.Obs(size, w, len(log), fresh)
		return c.Check(ok, "union", "%s: which=%v string=%q, want member %d = %q", strings.Join(log, "; "), which, str, w, val)
	}
	if !check() {
		return
	}
	for n := R.Intn(8); n > 0; n-- {
		w, val = R.Intn(size), fmt.Sprint("n", R.Intn(1000))
		if R.Intn(5) == 0 {
			val = ""
		}
		copy2, copy3, copy4 = u2, u3, u4
		s2, s3, s4 := copy2.String(), copy3.String(), copy4.String()
		set(w, val)
		log = append(log, fmt.Sprintf("Set %c %q", "TUVW"[w], val))
		if !check() {
			return
		}
		c.Check(copy2.String() == s2 && copy3.String() == s3 && copy4.String() == s4, "union-copy", "%s: setting changed a copy", strings.Join(log, "; "))
	}
	c.Sample("%s", strings.Join(log, "; "))
}

// maybeHistory drives a Maybe through random operations; nilable types become empty when set to nil.
func maybeHistory[T any](c *h.Ctx, typ string, g func(R *rand.Rand) T, isNil func(T) bool, eq func(a, b T) bool) {
	var (
		R       = c.R
		m       union.Maybe[T]
		present bool
		val     T
		log     []string
		zv      T
	)
	v := g(R)
	switch R.Intn(5) {
	case 0:
		log = append(log, "zero value")
	case 1:
		log = append(log, "Empty")
		m = union.Empty[T]()
	case 2:
		log = append(log, fmt.Sprintf("Of(%v)", v))
		m, present, val = union.Of(v), !isNil(v), v
	case 3:
		log = append(log, fmt.Sprintf("Present(%v)", v))
		_, did := h.Panics(func() { m = union.Present(v) })
		c.Check(did == isNil(v), "maybe-present", "Present[%s](%v) panicked=%v", typ, v, did)
		present, val = !did, v
	default:
		slc := []T{}
		for n := R.Intn(3); n > 0; n-- {
			slc = append(slc, g(R))
		}
		log = append(log, fmt.Sprintf("First(%v)", slc))
		m = union.First(slc)
		if len(slc) > 0 {
			present, val = !isNil(slc[0]), slc[0]
		}
	}
	for step := R.Intn(8); ; step-- {
		ok := m.Present() == present && m.Empty() == !present
		var got T
		_, did := h.Panics(func() { got = m.Get() })
		ok = ok && did == !present && (did || eq(got, val))
		e := g(R)
		or := m.OrElse(e)
		ok = ok && (present && eq(or, val) || !present && eq(or, e))
		res, err := m.OrError(errInjected)
		ok = ok && (present && err == nil && eq(res, val) || !present && err == errInjected && eq(res, zv))
		if present {
			ok = ok && m.String() == fmt.Sprintf("%v", any(val))
		} else {
			ok = ok && strings.HasPrefix(m.String(), "Empty ")
		}
		c.Ev("maybe states")
		if !c.Check(ok, "maybe", "Maybe[%s] %s: present=%v get=%v panicked=%v orElse(%v)=%v orError=%v,%v string=%q; want present=%v %v", typ, strings.Join(log, "; "), m.Present(), got, did, e, or, res, err, m.String(), present, val) {
			return
		}
		c.Obs(typ, strings.Join(log, ";"))
		if step <= 0 {
			break
		}
		v := g(R)
		cp := m
		switch R.Intn(3) {
		case 0:
			log = append(log, fmt.Sprintf("Set(%v)", v))
			m.Set(v)
			cp.SetEmpty()
			present, val = !isNil(v), v
		case 1:
			log = append(log, "SetEmpty")
			m.SetEmpty()
			present = false
		default:
			log = append(log, fmt.Sprintf("SetOrError(%v)", v))
			err := m.SetOrError(v)
			c.Check((err != nil) == present, "maybe-set-or-error", "Maybe[%s] %s: error %v, present before %v", typ, strings.Join(log, "; "), err, present)
			if !present {
				present, val = !isNil(v), v
			}
		}
	}
	c.Sample("Maybe[%s] %s", typ, strings.Join(log, "; "))
}

type typedErr struct{}

func (*typedErr) Error() string { return "typed" }

func results(c *h.Ctx) {
	R := c.R
	s := gStr(R)
	var err error
	if R.Intn(2) == 0 {
		err = []error{errInjected, errors.New(""), &typedErr{}}[R.Intn(3)]
	}
	check := func(what string, r union.Result[string], s string, err error) {
		ok := r.HasResult() == (err == nil) && r.HasError() == (err != nil) && r.Get() == s && r.Error() == err
		if err == nil {
			ok = ok && r.String() == s
		} else {
			ok = ok && r.String() == err.Error()
		}
		c.Check(ok, "result", "%s(%q, %v): %v %v %q %v %q", what, s, err, r.HasResult(), r.HasError(), r.Get(), r.Error(), r.String())
	}
	check("OfResult", union.OfResult(s), s, nil)
	var r union.Result[string]
	check("zero value", r, "", nil)
	_, did := h.Panics(func() { r = union.OfError[string](err) })
	c.Check(did == (err == nil), "result-error-nil", "OfError(%v) panicked=%v", err, did)
	if !did {
		check("OfError", r, "", err)
	}
	_, did = h.Panics(func() { r = union.OfResultError(s, err) })
	c.Check(did == (err != nil && s != ""), "result-both", "OfResultError(%q, %v) panicked=%v", s, err, did)
	if !did {
		check("OfResultError", r, s, err)
	}
	// an error that is a nil pointer is one or is not, but not both or neither
	var te *typedErr
	h.Panics(func() {
		r = union.OfError[string](te)
		c.Check(r.HasResult() != r.HasError() && (r.Error() != nil) == r.HasError(), "result-typed-nil", "OfError of a nil %T: HasResult %v HasError %v Error %v", te, r.HasResult(), r.HasError(), r.Error())
	})
	h.Panics(func() {
		r = union.OfResultError("", error(te))
		c.Check(r.HasResult() != r.HasError() && (r.Error() != nil) == r.HasError(), "result-typed-nil", "OfResultError of a nil %T: HasResult %v HasError %v Error %v", te, r.HasResult(), r.HasError(), r.Error())
	})
	// values that are not comparable, or interfaces
	for _, x := range [][]int{nil, {}, {1}} {
		_, did = h.Panics(func() { union.OfResultError(x, err) })
		c.Check(did == (err != nil && x != nil), "result-both", "OfResultError(%v, %v) panicked=%v", x, err, did)
	}
	for _, x := range []any{nil, 0, "", []int{1}} {
		_, did = h.Panics(func() { union.OfResultError(x, err) })
		// an interface holding a zero value is itself not a zero value
		c.Check(did == (err != nil && x != nil), "result-both", "OfResultError[any](%v, %v) panicked=%v", x, err, did)
	}
	c.Ev("results")
	c.Obs("res", s, err)

	// tuples
	a, b, d, e := gInt(R), gStr(R), gFloat(R), gStruct(R)
	t2, t3, t4 := tuple.Of2(a, b), tuple.Of3(a, b, d), tuple.Of4(a, b, d, e)
	a2, b2 := t2.Values()
	a3, b3, d3 := t3.Values()
	a4, b4, d4, e4 := t4.Values()
	ok := a2 == a && a3 == a && a4 == a && b2 == b && b3 == b && b4 == b && d3 == d && d4 == d && e4 == e &&
		t2.T == a && t2.U == b && t3.T == a && t3.U == b && t3.V == d && t4.T == a && t4.U == b && t4.V == d && t4.W == e
	ok = ok && t2.String() == fmt.Sprintf("{T: %v, U: %v}", a, b) && t3.String() == fmt.Sprintf("{T: %v, U: %v, V: %v}", a, b, d) && t4.String() == fmt.Sprintf("{T: %v, U: %v, V: %v, W: %v}", a, b, d, e)
	x := []string{gStr(R) + "0", gStr(R) + "1", gStr(R) + "2", gStr(R) + "3"}
	s2, s3, s4 := tuple.Of2Same(x[0], x[1]), tuple.Of3Same(x[0], x[1], x[2]), tuple.Of4Same(x[0], x[1], x[2], x[3])
	ok = ok && s2 == tuple.Of2(x[0], x[1]) && s3 == tuple.Of3(x[0], x[1], x[2]) && s4 == tuple.Of4(x[0], x[1], x[2], x[3])
	c.Check(ok && s4.W == x[3] && s4.V == x[2] && s4.U == x[1] && s4.T == x[0] && s3.V == x[2] && s2.U == x[1], "tuple", "tuples of %v %q %v %v: %v %v %v %v %v %v", a, b, d, e, t2, t3, t4, s2, s3, s4)
	c.Ev("tuples")
}

// ==== reflection on Maybe

type maybeHolder struct {
	I union.Maybe[int]
	S union.Maybe[string]
	P union.Maybe[*big.Int]
	A union.Maybe[any]
}

func setReflect[T any](c *h.Ctx, typ string, g func(R *rand.Rand) T, isNil func(T) bool, eq func(a, b T) bool) {
	var (
		R    = c.R
		m    union.Maybe[T]
		ptr  = &m
		ptr2 = &ptr
		ptr3 = &ptr2
		hold struct{ F union.Maybe[T] }
		rt   = goreflect.TypeOf((*T)(nil)).Elem()
	)
	if R.Intn(2) == 0 {
		m = union.Of(g(R))
	}
	depth := R.Intn(5)
	var rv goreflect.Value
	target := &m
	switch depth {
	case 0:
		rv = goreflect.ValueOf(&m).Elem()
	case 4:
		rv = goreflect.ValueOf(&hold).Elem().Field(0)
		hold.F = m
		target = &hold.F
	default:
		rv = goreflect.ValueOf([]any{ptr, ptr2, ptr3}[depth-1])
	}
	what := fmt.Sprintf("Maybe[%s] through %v", typ, rv.Type())
	c.NoPanic("maybe-reflect-panic", what, func() {
		c.Check(ureflect.GetMaybeType(rv.Type()) == rt, "maybe-type", "GetMaybeType(%v) = %v", rv.Type(), ureflect.GetMaybeType(rv.Type()))
		for step := 0; step < 4; step++ {
			switch R.Intn(5) {
			case 0, 1:
				v := g(R)
				err := ureflect.SetMaybeValue(rv, goreflect.ValueOf(&v).Elem())
				c.Check(err == nil && target.Present() == !isNil(v) && (isNil(v) || eq(target.Get(), v)), "maybe-set", "%s: set to %v: %v, now %v", what, v, err, target)
			case 2:
				err := ureflect.SetMaybeValueEmpty(rv)
				c.Check(err == nil && target.Empty(), "maybe-set-empty", "%s: %v, now %v", what, err, target)
			case 3: // a value of another type, or no value at all, is an error and changes nothing
				was := *target
				bad := []goreflect.Value{{}, goreflect.ValueOf(struct{ X int }{1}), goreflect.ValueOf([]uintptr{1}), goreflect.ValueOf(int16(3)), goreflect.ValueOf(was)}[R.Intn(5)]
				if bad.IsValid() && rt.Kind() == goreflect.Interface {
					continue
				}
				var err error
				ok := c.NoPanic("maybe-set-bad-panic", fmt.Sprintf("SetMaybeValue of %s with %v", what, bad), func() { err = ureflect.SetMaybeValue(rv, bad) })
				c.Check(!ok || err != nil && goreflect.DeepEqual(was, *target), "maybe-set-bad", "SetMaybeValue of %s with %v: %v", what, bad, err)
			case 4: // a value that cannot be set
				if R.Intn(2) == 0 {
					err := ureflect.SetMaybeValue(goreflect.ValueOf(*target), goreflect.Zero(rt))
					c.Check(err != nil, "maybe-set-copy", "a Maybe that is not addressable was set")
				} else {
					err := ureflect.SetMaybeValueEmpty(goreflect.ValueOf(*target))
					c.Check(err != nil, "maybe-set-copy", "a Maybe that is not addressable was emptied")
				}
			}
			c.Check(ureflect.MaybeValueIsPresent(rv) == target.Present(), "maybe-is-present", "%s: MaybeValueIsPresent %v", what, ureflect.MaybeValueIsPresent(rv))
			gv := ureflect.GetMaybeValue(rv)
			c.Check(gv.IsValid() == target.Present(), "maybe-get", "%s: GetMaybeValue of %v", what, target)
			if gv.IsValid() {
				c.Check(gv.Type() == rt && eq(gv.Interface().(T), target.Get()), "maybe-get", "%s: GetMaybeValue = %v (%v), want %v", what, gv, gv.Type(), target)
			}
			c.Ev("maybe reflection steps")
		}
	})
	// nil pointers at every level
	var np *union.Maybe[T]
	var npp **union.Maybe[T]
	nppp := &np
	npppp := &npp
	for _, x := range []any{np, npp, nppp, npppp, nil, 0, "x", &rt} {
		v := goreflect.ValueOf(x)
		c.NoPanic("maybe-nil-panic", fmt.Sprintf("a %T that is nil at some level", x), func() {
			p, g := ureflect.MaybeValueIsPresent(v), ureflect.GetMaybeValue(v)
			e1, e2 := ureflect.SetMaybeValue(v, goreflect.Zero(rt)), ureflect.SetMaybeValueEmpty(v)
			c.Check(!p && !g.IsValid() && e1 != nil && e2 != nil, "maybe-nil", "%T: %v %v %v %v", x, p, g, e1, e2)
		})
	}
	// other types are not optionals, whatever their name, methods or package
	for _, x := range []any{Maybe[T]{}, &Maybe[T]{}, struct{ union.Maybe[T] }{}, union.OfResult(m), tuple.Two[T, T]{}, union.Two[T, int]{}, []union.Maybe[T]{m}, map[string]union.Maybe[T]{}, &rt} {
		x := ptrTo(goreflect.ValueOf(x))
		c.NoPanic("maybe-decoy-panic", x.Type().String(), func() {
			c.Check(ureflect.GetMaybeType(x.Type()) == nil, "maybe-decoy", "GetMaybeType(%v) = %v", x.Type(), ureflect.GetMaybeType(x.Type()))
			p, g := ureflect.MaybeValueIsPresent(x), ureflect.GetMaybeValue(x)
			e1, e2 := ureflect.SetMaybeValue(x, goreflect.Zero(rt)), ureflect.SetMaybeValueEmpty(x)
			c.Check(!p && !g.IsValid() && e1 != nil && e2 != nil, "maybe-decoy", "%v: %v %v %v %v", x.Type(), p, g, e1, e2)
		})
	}
	c.Obs(typ, depth, fmt.Sprint(m))
	c.Sample("%s", what)
}

// Maybe looks like union.Maybe by name and methods
type Maybe[T any] struct {
	V T
}

func (m Maybe[T]) Get() T        { return m.V }
func (m Maybe[T]) Present() bool { return true }
func (m Maybe[T]) Empty() bool   { return false }
func (m *Maybe[T]) Set(v T)      { m.V = v }
func (m *Maybe[T]) SetEmpty()    {}

func ptrTo(v goreflect.Value) goreflect.Value {
	p := goreflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

type (
	subInt    int
	subInt8   int8
	subUint   uint
	subUint16 uint16
	subBool   bool
	subSub    subInt
)

type fieldy struct {
	A     int
	b     string
	C     *fieldy
	union union.Maybe[int]
	S     struct{ X int }
}

// reflectHelpers checks the predicates and conversions on a value of a random type behind a random number of pointers.
// different types that print the same
func sameName1(n int) [2]any {
	type local uint8
	return [2]any{local(n), uint8(n)}
}

func sameName2(n int) [2]any {
	type local string
	return [2]any{local(fmt.Sprint(n)), fmt.Sprint(n)}
}

func sameName3(n int) [2]any {
	type local int16
	return [2]any{local(n), int16(n)}
}

func sameName4(n int) [2]any {
	type local float64
	return [2]any{local(n), float64(n)}
}

func reflectHelpers(c *h.Ctx) {
	R := c.R
	type item struct {
		v       any
		base    any  // value of the base type, if v is of a primitive subtype
		prim    bool // primitive kind
		num     bool
		signed  bool
		unsig   bool
		nilable bool
	}
	var (
		n  = R.Intn(100)
		it = []item{
			{v: n, prim: true, num: true, signed: true}, {v: int8(n), prim: true, num: true, signed: true}, {v: int16(n), prim: true, num: true, signed: true},
			{v: int32(n), prim: true, num: true, signed: true}, {v: int64(n), prim: true, num: true, signed: true},
			{v: uint(n), prim: true, num: true, unsig: true}, {v: uint8(n), prim: true, num: true, unsig: true}, {v: uint16(n), prim: true, num: true, unsig: true},
			{v: uint32(n), prim: true, num: true, unsig: true}, {v: uint64(n), prim: true, num: true, unsig: true},
			{v: float32(n), prim: true, num: true}, {v: float64(n), prim: true, num: true}, {v: complex64(complex(float32(n), 1)), prim: true}, {v: complex(float64(n), 1), prim: true},
			{v: fmt.Sprint(n), prim: true}, {v: n%2 == 0, prim: true}, {v: uintptr(n)},
			{v: subInt(n), base: n, prim: true, num: true, signed: true}, {v: subSub(n), base: n, prim: true, num: true, signed: true}, {v: subInt8(n), base: int8(n), prim: true, num: true, signed: true},
			{v: subUint(n), base: uint(n), prim: true, num: true, unsig: true}, {v: subUint16(n), base: uint16(n), prim: true, num: true, unsig: true},
			{v: subF32(n), base: float32(n), prim: true, num: true}, {v: subF64(n), base: float64(n), prim: true, num: true}, {v: subC64(complex(float32(n), 0)), base: complex64(complex(float32(n), 0)), prim: true},
			{v: subStr(fmt.Sprint(n)), base: fmt.Sprint(n), prim: true}, {v: subBool(n%2 == 0), base: n%2 == 0, prim: true},
			{v: []int{n}, nilable: true}, {v: map[string]int{"a": n}, nilable: true}, {v: func() {}, nilable: true}, {v: make(chan int), nilable: true}, {v: struct{ X int }{n}}, {v: [2]int{n, 1}}, {v: fieldy{A: n}},
			{v: []int(nil), nilable: true}, {v: map[string]int(nil), nilable: true},
		}[R.Intn(36)]
		v     = goreflect.ValueOf(it.v)
		depth = R.Intn(4)
		nilAt = -1 // the pointer level that is nil, 0 is the innermost
	)
	typ := v.Type()
	pt := typ
	for i := 0; i < depth; i++ {
		pt = goreflect.PtrTo(pt)
	}
	rv := v
	if depth > 0 && R.Intn(3) == 0 {
		nilAt = R.Intn(depth)
	}
	for i := 0; i < depth; i++ {
		if i == nilAt {
			rv = goreflect.Zero(goreflect.PtrTo(rv.Type()))
		} else {
			rv = ptrTo(rv)
		}
	}
	d := fmt.Sprintf("%v (%d pointers, nil at %d)", pt, depth, nilAt)
	c.NoPanic("reflect-panic", d, func() {
		c.Check(reflect.DerefType(pt) == typ, "deref-type", "DerefType(%s)", d)
		c.Check(reflect.NumPointers(pt) == depth, "num-pointers", "NumPointers(%s)", d)
		wt := typ
		if depth > 0 {
			wt = goreflect.PtrTo(typ)
		}
		c.Check(reflect.DerefTypeMaxOnePtr(pt) == wt, "deref-type-max", "DerefTypeMaxOnePtr(%s) = %v", d, reflect.DerefTypeMaxOnePtr(pt))
		dv := reflect.DerefValue(rv)
		c.Check(dv.IsValid() == (nilAt < 0) && (nilAt >= 0 || dv.Type() == typ && sameAny(dv.Interface(), it.v)), "deref-value", "DerefValue(%s) = %v", d, dv)
		mv := reflect.DerefValueMaxOnePtr(rv)
		wantValid := nilAt <= 0
		ok := mv.IsValid() == wantValid
		if ok && wantValid {
			ok = mv.Type() == wt
			if ok && depth > 0 {
				ok = mv.IsNil() == (nilAt == 0) && (nilAt == 0 || sameAny(mv.Elem().Interface(), it.v))
			}
		}
		c.Check(ok, "deref-value-max", "DerefValueMaxOnePtr(%s) = %v", d, mv)
		vt := reflect.ValueMaxOnePtrType(rv)
		if depth > 1 {
			c.Check(vt == nil, "value-max-type", "ValueMaxOnePtrType(%s) = %v", d, vt)
		} else {
			c.Check(vt == typ, "value-max-type", "ValueMaxOnePtrType(%s) = %v", d, vt)
		}
		if depth == 0 {
			c.Check(reflect.IsPrimitive(typ) == it.prim && reflect.IsPrimitive(v) == it.prim, "is-primitive", "IsPrimitive(%v)", typ)
			c.Check(reflect.IsNumeric(typ) == it.num && reflect.IsSignedInteger(typ) == it.signed && reflect.IsUnsignedInteger(typ) == it.unsig, "is-numeric", "IsNumeric etc of %v", typ)
		} else {
			c.Check(!reflect.IsPrimitive(pt) && !reflect.IsNumeric(pt) && !reflect.IsSignedInteger(pt) && !reflect.IsUnsignedInteger(pt), "is-numeric", "IsNumeric etc of %v", pt)
		}
		nilable := it.nilable || depth > 0
		isNil := nilAt == depth-1 && depth > 0 || depth == 0 && it.nilable && v.IsNil()
		c.Check(reflect.IsNillable(pt) == nilable && reflect.IsNillable(rv) == nilable && reflect.IsNil(rv) == isNil, "is-nil", "IsNillable / IsNil of %s", d)
		c.Check(reflect.TypeOf(rv) == pt.String(), "type-of", "TypeOf(%s) = %q", d, reflect.TypeOf(rv))
		// base types
		bt := reflect.TypeToBaseType(typ)
		for _, l := range [][2]any{sameName1(n), sameName2(n), sameName3(n), sameName4(n)} {
			lt, lb := goreflect.TypeOf(l[0]), goreflect.TypeOf(l[1])
			c.Check(reflect.TypeToBaseType(lt) == lb, "type-to-base", "TypeToBaseType(%v of kind %v) = %v", lt, lt.Kind(), reflect.TypeToBaseType(lt))
			lv := reflect.ValueToBaseType(goreflect.ValueOf(l[0]))
			c.Check(lv.Type() == lb && lv.Interface() == l[1], "value-to-base", "ValueToBaseType(%v of kind %v) = %v %v", lt, lt.Kind(), lv.Type(), lv)
			c.Check(reflect.IsNumeric(lt) == (lt.Kind() != goreflect.String) && reflect.IsSignedInteger(lt) == (lt.Kind() == goreflect.Int16), "is-numeric", "IsNumeric(%v of kind %v)", lt, lt.Kind())
		}
		var wb goreflect.Type
		if it.base != nil {
			wb = goreflect.TypeOf(it.base)
		}
		c.Check(bt == wb, "type-to-base", "TypeToBaseType(%v) = %v", typ, bt)
		if depth <= 1 {
			bv := reflect.ValueToBaseType(rv)
			ok := false
			switch {
			case it.base == nil:
				ok = bv.Type() == pt
			case depth == 0:
				ok = bv.Type() == wb && bv.Interface() == it.base
			default:
				ok = bv.Type() == goreflect.PtrTo(wb) && bv.IsNil() == (nilAt == 0) && (nilAt == 0 || bv.Elem().Interface() == it.base && bv.Pointer() == rv.Pointer())
			}
			c.Check(ok, "value-to-base", "ValueToBaseType(%s) = %v (%v)", d, bv, bv.Type())
		}
		// an interface typed value is resolved to what it contains
		iv := goreflect.ValueOf([]any{rv.Interface()}).Index(0)
		c.Check(iv.Kind() == goreflect.Interface && reflect.ResolveValueType(iv).Type() == pt && reflect.ResolveValueType(rv) == rv, "resolve", "ResolveValueType(%s)", d)
		if str, ok := rv.Interface().(fmt.Stringer); ok {
			sv := goreflect.ValueOf([]fmt.Stringer{str}).Index(0)
			c.Check(reflect.ResolveValueType(sv).Type() == pt && reflect.TypeAssert(sv, pt) == nil, "resolve", "ResolveValueType of a Stringer of %s", d)
		}
		for _, sv := range []goreflect.Value{goreflect.ValueOf([]error{errInjected}).Index(0), goreflect.ValueOf(&struct{ E error }{errInjected}).Elem().Field(0)} {
			et := goreflect.TypeOf(errInjected)
			c.Check(reflect.ResolveValueType(sv).Type() == et && reflect.TypeAssert(sv, et) == nil && reflect.TypeAssert(sv, goreflect.TypeOf(1)) != nil, "resolve", "ResolveValueType of an error")
		}
		c.Check(reflect.TypeAssert(iv, pt) == nil && reflect.TypeAssert(rv, pt) == nil, "type-assert", "TypeAssert(%s)", d)
		other := goreflect.TypeOf([]any{new(int8), 1, int8(1), "x", subInt(0), []int{}, new(*subStr)}[R.Intn(7)])
		err := reflect.TypeAssert(iv, other, "msg")
		_, did := h.Panics(func() { reflect.MustTypeAssert(rv, other) })
		c.Check((err != nil) == (other != pt) && did == (other != pt), "type-assert", "TypeAssert(%s, %v) = %v", d, other, err)
		if err != nil {
			c.Check(strings.HasPrefix(err.Error(), "msg: ") && strings.Contains(err.Error(), pt.String()) && strings.Contains(err.Error(), other.String()), "type-assert-message", "TypeAssert(%s, %v) = %v", d, other, err)
		}
		// set through pointers
		if depth > 0 {
			nv := goreflect.New(typ).Elem()
			if it.base != nil {
				nv = goreflect.New(goreflect.TypeOf(it.base)).Elem() // convertible
			}
			_, did := h.Panics(func() { reflect.SetPointerValue(rv, nv) })
			c.Check(did == (nilAt >= 0), "set-pointer", "SetPointerValue(%s) panicked=%v", d, did)
			if !did {
				c.Check(reflect.DerefValue(rv).IsZero(), "set-pointer", "SetPointerValue(%s): %v", d, reflect.DerefValue(rv))
			}
		}
	})
	c.Ev("values inspected")
	c.Obs(d)
	c.Sample("%s", d)
	// different types of the same name
	for _, ts := range [][]any{{likeNamed1(), likeNamed2()}, {uint8Named(), uint8(0)}} {
		t0, t1 := goreflect.TypeOf(ts[0]), goreflect.TypeOf(ts[1])
		for _, v := range []goreflect.Value{goreflect.ValueOf(ts[0]), goreflect.ValueOf(ts[:1]).Index(0)} {
			c.Check(reflect.TypeAssert(v, t0) == nil && reflect.TypeAssert(v, t1) != nil && reflect.TypeAssert(v, goreflect.PtrTo(t0)) != nil, "type-assert-same-name", "TypeAssert of different types %v and %v: %v, %v", t0, t1, reflect.TypeAssert(v, t0), reflect.TypeAssert(v, t1))
		}
	}
	// invalid values and nil interfaces
	c.NoPanic("reflect-invalid-panic", "invalid values", func() {
		var iv goreflect.Value
		nilIface := goreflect.ValueOf([]any{nil}).Index(0)
		c.Check(reflect.IsNil(iv) && reflect.IsNillable(iv) && reflect.IsNillable[goreflect.Type](nil) && reflect.IsNil(nilIface), "invalid", "IsNil of invalid")
		c.Check(!reflect.DerefValue(iv).IsValid() && !reflect.DerefValueMaxOnePtr(iv).IsValid() && reflect.ValueMaxOnePtrType(iv) == nil && !reflect.ResolveValueType(iv).IsValid() && !reflect.ResolveValueType(nilIface).IsValid(), "invalid", "deref of invalid")
		c.Check(reflect.TypeAssert(iv, typ) != nil && reflect.TypeAssert(nilIface, typ) != nil, "invalid-assert", "TypeAssert of invalid")
		c.Check(!reflect.IsPrimitive(iv) && reflect.TypeOf(iv) == "<invalid Value>" && !reflect.ValueToBaseType(iv).IsValid(), "invalid", "IsPrimitive of invalid")
	})
	// big types and fields
	for _, b := range []any{big.NewInt(1), big.NewFloat(1), big.NewRat(1, 2)} {
		t := goreflect.TypeOf(b)
		c.Check(!reflect.IsNumeric(goreflect.PtrTo(t)) && !reflect.IsNumeric(goreflect.PtrTo(goreflect.PtrTo(t))), "big", "IsNumeric(*%v)", t)
		c.Check(reflect.IsBigPtr(t) && reflect.IsNumeric(t) && !reflect.IsBigPtr(t.Elem()) && !reflect.IsNumeric(t.Elem()) && !reflect.IsBigPtr(goreflect.PtrTo(t)), "big", "IsBigPtr(%v)", t)
	}
	c.Check(!reflect.IsBigPtr(pt), "big", "IsBigPtr(%v)", pt)
	// subtypes that have the same name as the type they are based on, or as another one
	type uint8 alias8
	type int aliasStr
	for _, x := range []struct {
		v    any
		base goreflect.Type
	}{{uint8(3), goreflect.TypeOf(byte(0))}, {int("x"), goreflect.TypeOf("")}} {
		t := goreflect.TypeOf(x.v)
		bt := reflect.TypeToBaseType(t)
		c.Check(bt == x.base, "type-to-base", "TypeToBaseType(%v of kind %v) = %v", t, t.Kind(), bt)
		bv := reflect.ValueToBaseType(goreflect.ValueOf(x.v))
		c.Check(bv.Type() == x.base, "value-to-base", "ValueToBaseType(%v of kind %v) = %v", t, t.Kind(), bv.Type())
	}
	// structs of generated fields, some embedded
	if R.Intn(4) == 0 {
		var fs []goreflect.StructField
		for _, i := range R.Perm(5)[:R.Intn(6)] {
			fs = append(fs, []goreflect.StructField{
				{Name: "A", Type: goreflect.TypeOf(1)}, {Name: "B", Type: goreflect.TypeOf("")},
				{Name: "Emb1", Type: goreflect.TypeOf(Emb1{}), Anonymous: true}, {Name: "Emb2", Type: goreflect.TypeOf(&Emb2{}), Anonymous: true}, {Name: "é", Type: goreflect.TypeOf([]byte{}), PkgPath: "verif/p"},
			}[i])
		}
		st := goreflect.StructOf(fs)
		checkFields(c, st)
		c.Ev("struct types")
	}
	checkFields(c, goreflect.TypeOf(Emb3{}))
	checkFields(c, goreflect.TypeOf(Emb2{}))
	f := reflect.FieldsByName(pt)
	if pt.Kind() != goreflect.Struct {
		c.Check(f == nil, "fields", "FieldsByName(%v) = %v", pt, f)
	} else {
		ok := len(f) == pt.NumField()
		for i := 0; i < pt.NumField(); i++ {
			ok = ok && goreflect.DeepEqual(f[pt.Field(i).Name], pt.Field(i))
			ok = ok && goreflect.DeepEqual(reflect.GetFieldByName(pt, pt.Field(i).Name), pt.Field(i))
		}
		_, did := h.Panics(func() { reflect.GetFieldByName(pt, "none") })
		c.Check(ok && did && len(reflect.FieldsByName(goreflect.TypeOf(struct{}{}))) == 0, "fields", "FieldsByName(%v) = %v", pt, f)
		// the map belongs to the caller
		for k := range f {
			delete(f, k)
		}
		g := reflect.FieldsByName(pt)
		names := 0
		for i := 0; i < pt.NumField(); i++ {
			if _, have := g[pt.Field(i).Name]; have {
				names++
			}
		}
		c.Check(names == pt.NumField(), "fields", "after the map it returned was emptied, FieldsByName(%v) = %v", pt, g)
	}
}

type (
	alias8   = uint8
	aliasStr = string
)

// Emb1 to Emb3 are structs that embed
type (
	Emb1 struct{ P, Q int }
	Emb2 struct {
		Emb1
		Q string
		R int
	}
	Emb3 struct {
		*Emb2
		Emb1
		s int
		_ int
	}
)

func checkFields(c *h.Ctx, st goreflect.Type) {
	f := reflect.FieldsByName(st)
	ok := len(f) == st.NumField()
	for i := 0; i < st.NumField(); i++ {
		w := st.Field(i)
		ok = ok && goreflect.DeepEqual(f[w.Name], w) && goreflect.DeepEqual(reflect.GetFieldByName(st, w.Name), w)
	}
	c.Check(ok, "fields", "FieldsByName(%v) = %v", st, f)
	for _, p := range []string{"Z", "", "a"} {
		if _, have := f[p]; !have {
			_, did := h.Panics(func() { reflect.GetFieldByName(st, p) })
			c.Check(did, "fields", "GetFieldByName(%v, %q) did not panic", st, p)
		}
	}
}

func sameAny(a, b any) bool {
	if goreflect.TypeOf(a).Kind() == goreflect.Func {
		return goreflect.ValueOf(a).Pointer() == goreflect.ValueOf(b).Pointer()
	}
	return goreflect.DeepEqual(a, b)
}

func init() {
	comp := func(c *h.Ctx, f int) {
		never := func(int) bool { return false }
		switch f {
		case 0:
			maybeHistory(c, "int", gInt, never, func(a, b int) bool { return a == b })
		case 1:
			maybeHistory(c, "string", gStr, func(string) bool { return false }, func(a, b string) bool { return a == b })
		case 2:
			maybeHistory(c, "*big.Int", gBigPtr, func(p *big.Int) bool { return p == nil }, func(a, b *big.Int) bool { return a == b })
		case 3:
			maybeHistory(c, "any", gAny, func(x any) bool { return isNilAny(x) }, func(a, b any) bool { return goreflect.DeepEqual(a, b) })
		case 4:
			maybeHistory(c, "[]int", gInts, func(x []int) bool { return x == nil }, func(a, b []int) bool { return goreflect.DeepEqual(a, b) })
		default:
			maybeHistory(c, "struct", gStruct, func(valRcvr) bool { return false }, func(a, b valRcvr) bool { return a == b })
		}
	}
	h.Register("C25", "distinct operation histories of unions, optional values, results and tuples, checked after every step", func(r *h.Run) {
		n := 60000
		if r.Thorough() {
			n = 300000
		}
		r.Group("large", 40+n/5000, largeUnions)
		r.Group("unions", n, unionHistory)
		r.Group("maybe", n, func(c *h.Ctx) { comp(c, c.Idx%6) })
		r.Group("results-tuples", n, results)
	})
	h.Register("C26", "distinct types, pointer depths and nil positions inspected, and optional values read and written by reflection", func(r *h.Run) {
		n := 80000
		if r.Thorough() {
			n = 200000
		}
		r.Group("large", 40+n/5000, largeTypes)
		sizes(r, 1, 300, 600, largeTypes)
		r.Group("helpers", n, reflectHelpers)
		r.Group("maybe", n, func(c *h.Ctx) {
			switch c.Idx % 5 {
			case 0:
				setReflect(c, "int", gInt, func(int) bool { return false }, func(a, b int) bool { return a == b })
			case 1:
				setReflect(c, "string", gStr, func(string) bool { return false }, func(a, b string) bool { return a == b })
			case 2:
				setReflect(c, "*big.Int", gBigPtr, func(p *big.Int) bool { return p == nil }, func(a, b *big.Int) bool { return a == b })
			case 3:
				setReflect(c, "[]int", gInts, func(x []int) bool { return x == nil }, func(a, b []int) bool { return goreflect.DeepEqual(a, b) })
			default:
				setReflect(c, "struct", gStruct, func(valRcvr) bool { return false }, func(a, b valRcvr) bool { return a == b })
			}
		})
	})
}

func gBigPtr(R *rand.Rand) *big.Int {
	if R.Intn(3) == 0 {
		return nil
	}
	return big.NewInt(int64(R.Intn(9)))
}

func gInts(R *rand.Rand) []int {
	return [][]int{nil, {}, {1}, {1, 2}}[R.Intn(4)]
}

func gAny(R *rand.Rand) any {
	return []any{nil, (*int)(nil), []int(nil), map[int]int(nil), 0, "", "x", []int{1}, valRcvr{}, (*typedErr)(nil)}[R.Intn(10)]
}

func isNilAny(x any) bool {
	if x == nil {
		return true
	}
	v := goreflect.ValueOf(x)
	switch v.Kind() {
	case goreflect.Pointer, goreflect.Slice, goreflect.Map, goreflect.Chan, goreflect.Func:
		return v.IsNil()
	}
	return false
}

// likeNamed1 and likeNamed2 return values of different types that have the same name.
func likeNamed1() any {
	type alike struct{ A int }
	return alike{1}
}

func likeNamed2() any {
	type alike struct{ A int }
	return alike{1}
}

func uint8Named() any {
	type uint8 int16
	return uint8(1)
}
