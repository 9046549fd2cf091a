package p

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	goreflect "reflect"
	"strconv"
	"strings"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"

	"verif/h"
)

var baseTypes = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "*big.Int", "*big.Float", "*big.Rat", "string"}

// judge decides whether (out, err) is an acceptable result of converting src to the type of out ("" = acceptable).
func judge(src any, otyp string, out any, err error) string {
	ok := err == nil
	want := func(must bool, x num) string { // must succeed with exactly x
		if !ok {
			if must {
				return fmt.Sprintf("refused although %s is representable: %v", x, err)
			}
			return ""
		}
		if y := exactOf(out); !y.eq(x) {
			return fmt.Sprintf("gave %s for %s without an error", y, x)
		}
		return ""
	}
	refuse := func() string {
		if ok {
			return fmt.Sprintf("gave %v instead of an error", show(out))
		}
		return ""
	}
	if s, isa := src.(string); isa {
		kind, x := textNum(s)
		_, isInt := intBounds[otyp]
		switch {
		case otyp == "string":
			if !ok || out.(string) != s {
				return "string copy differs"
			}
			return ""
		case isInt:
			if kind == "int" {
				if inBounds(x.r.Num(), otyp) {
					// an explicit sign on text for an unsigned type may be refused
					return want(!(otyp[0] == 'u' && strings.ContainsAny(s[:1], "+-")), x)
				}
				return refuse()
			}
			if kind == "dec" && x.r.IsInt() && inBounds(x.r.Num(), otyp) {
				return want(false, x)
			}
			return refuse()
		case otyp == "*big.Int":
			if kind == "int" {
				return want(true, x)
			}
			if kind == "dec" && x.r.IsInt() {
				return want(false, x)
			}
			return refuse()
		case otyp == "*big.Rat":
			if kind == "int" || kind == "dec" || kind == "ratio" {
				return want(true, x)
			}
			return refuse()
		case otyp == "float32" || otyp == "float64":
			bits := 64
			if otyp == "float32" {
				bits = 32
			}
			switch kind {
			case "special":
				return want(true, x)
			case "inf":
				return want(false, x)
			case "int", "dec":
				exact := float64Exact(x.r)
				if bits == 32 {
					exact = float32Exact(x.r)
				}
				if exact {
					return want(true, x)
				}
				if ok {
					f, perr := strconv.ParseFloat(s, bits)
					if perr != nil {
						return refuse()
					}
					return want(false, floatNum(f))
				}
				return ""
			}
			return refuse()
		case otyp == "*big.Float":
			switch kind {
			case "special":
				if x.k == 'n' {
					return refuse()
				}
				return want(true, x)
			case "inf":
				return want(false, x)
			case "int", "dec":
				if !ok {
					return "refused number text: " + err.Error()
				}
				o := out.(*big.Float)
				digits := 0
				for _, ch := range strings.TrimLeft(strings.SplitN(strings.ToLower(s), "e", 2)[0], "+-0.") {
					if ch >= '0' && ch <= '9' {
						digits++
					}
				}
				minPrec := uint(math.Max(53, math.Ceil(float64(digits)*math.Log2(10))))
				if o.Prec() < minPrec {
					return fmt.Sprintf("precision %d cannot hold the %d digits of the text", o.Prec(), digits)
				}
				w, _, _ := big.ParseFloat(s, 10, o.Prec(), big.ToNearestEven)
				if w.Cmp(o) != 0 {
					return fmt.Sprintf("gave %s which is not the nearest value", o.Text('g', -1))
				}
				return ""
			}
			return refuse()
		}
		return "unknown target " + otyp
	}

	x := exactOf(src)
	if _, isInt := intBounds[otyp]; isInt {
		if x.k == 'r' && x.r.IsInt() && inBounds(x.r.Num(), otyp) {
			return want(true, x)
		}
		return refuse()
	}
	switch otyp {
	case "float32", "float64":
		if x.k != 'r' {
			return want(true, x)
		}
		if _, isa := src.(float64); isa && otyp == "float32" {
			a := math.Abs(src.(float64))
			if a > math.MaxFloat32 || (a != 0 && a < math.SmallestNonzeroFloat32) {
				return refuse()
			}
			return want(true, floatNum(float64(float32(src.(float64)))))
		}
		if (otyp == "float32" && float32Exact(x.r)) || (otyp == "float64" && float64Exact(x.r)) {
			return want(true, x)
		}
		return refuse()
	case "*big.Int":
		if x.k == 'r' && x.r.IsInt() {
			return want(true, x)
		}
		return refuse()
	case "*big.Rat":
		if x.k == 'r' {
			return want(true, x)
		}
		return refuse()
	case "*big.Float":
		if x.k == 'n' {
			return refuse()
		}
		if _, isa := src.(*big.Rat); isa && !isDyadic(x.r) {
			if !ok {
				return "refused a finite ratio: " + err.Error()
			}
			y := exactOf(out)
			if y.k != 'r' {
				return "gave " + y.String()
			}
			// relative error at most 2^-52
			d := new(big.Rat).Sub(y.r, x.r)
			d.Abs(d)
			lim := new(big.Rat).Abs(x.r)
			lim.Mul(lim, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 52)))
			if d.Cmp(lim) > 0 {
				return fmt.Sprintf("gave %s, which is not the ratio rounded to at least 53 bits", y)
			}
			return ""
		}
		return want(true, x)
	case "string":
		if !ok {
			return "refused conversion to text: " + err.Error()
		}
		return judgeText(src, x, out.(string))
	}
	return "unknown target " + otyp
}

// judgeText decides if s is a faithful text form of src
func judgeText(src any, x num, s string) string {
	switch x.k {
	case 'n', '+', '-':
		if s != x.String() {
			return fmt.Sprintf("text %q for %s", s, x)
		}
		return ""
	}
	bad := func() string { return fmt.Sprintf("text %q does not denote %s", s, x) }
	switch t := src.(type) {
	case float32:
		f, err := strconv.ParseFloat(s, 32)
		if err != nil || !floatNum(f).eq(x) || !reDec.MatchString(s) || math.Signbit(f) != math.Signbit(float64(t)) {
			return bad()
		}
		if want := strconv.FormatFloat(float64(t), 'f', -1, 32); len(s) > len(want) {
			return fmt.Sprintf("text %q is not the shortest text of float32 %s", s, want)
		}
	case float64:
		f, err := strconv.ParseFloat(s, 64)
		if err != nil || !floatNum(f).eq(x) || !reDec.MatchString(s) || math.Signbit(f) != math.Signbit(t) {
			return bad()
		}
		if want := strconv.FormatFloat(t, 'f', -1, 64); len(s) > len(want) {
			return fmt.Sprintf("text %q is not the shortest text of float64 %s", s, want)
		}
	case *big.Float:
		if t.Sign() == 0 {
			if s != "0" && s != "-0" {
				return bad()
			}
			return ""
		}
		f, _, err := big.ParseFloat(s, 10, t.Prec(), big.ToNearestEven)
		if err != nil || f.Cmp(t) != 0 {
			return bad()
		}
	case *big.Rat:
		r, ok := new(big.Rat).SetString(s)
		if !ok || r.Cmp(x.r) != 0 || !reRatio.MatchString(s) {
			return bad()
		}
	default:
		i, ok := new(big.Int).SetString(s, 10)
		if !ok || i.Cmp(x.r.Num()) != 0 || s != i.String() {
			return bad()
		}
	}
	return ""
}

func show(v any) string {
	switch t := v.(type) {
	case *big.Float:
		if t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(prec %d)", t.Text('g', -1), t.Prec())
	case *big.Rat:
		if t == nil {
			return "nil"
		}
		return t.String()
	case string:
		return fmt.Sprintf("%q", t)
	}
	return fmt.Sprint(v)
}

// mutate changes a big value in place, as a user computing with a copy would
func mutate(v any) {
	switch t := v.(type) {
	case *big.Int:
		w := t.Bits()
		for i := range w {
			w[i] ^= 0x5a5a
		}
		t.Add(t, big.NewInt(7))
	case *big.Float:
		if t.IsInf() {
			t.SetInt64(3)
			return
		}
		t.Add(t, big.NewFloat(7))
		t.Mul(t, t)
		t.SetPrec(3)
	case *big.Rat:
		w := t.Num().Bits()
		for i := range w {
			w[i] ^= 0x5a5a
		}
		w = t.Denom().Bits()
		for i := range w {
			w[i] |= 0x10
		}
		t.Num().Add(t.Num(), big.NewInt(7))
	}
}

// setBig sets a big value to another of the same type.
func setBig(v, to any) {
	switch t := v.(type) {
	case *big.Int:
		t.Set(to.(*big.Int))
	case *big.Float:
		*t = *new(big.Float).Copy(to.(*big.Float))
	case *big.Rat:
		t.Set(to.(*big.Rat))
	}
}

func cloneBig(v any) any {
	switch t := v.(type) {
	case *big.Int:
		return new(big.Int).Set(t)
	case *big.Float:
		return new(big.Float).Copy(t)
	case *big.Rat:
		return new(big.Rat).Set(t)
	}
	return v
}

func isBig(typ string) bool { return strings.HasPrefix(typ, "*big.") }

// sameOutcome compares two conversion outcomes
func sameOutcome(o1 any, e1 error, o2 any, e2 error) bool {
	if (e1 == nil) != (e2 == nil) {
		return false
	}
	if e1 != nil {
		return true
	}
	if s1, isa := o1.(string); isa {
		s2, isa := o2.(string)
		return isa && s1 == s2
	}
	return exactOf(o1).eq(exactOf(o2))
}

type presetFn struct {
	name string
	f    func(src, old any) (any, error)
}

type pairFn struct {
	S, O string
	// to, anyTo, mustTo, reflectTo run the generic entry points on src; a target is allocated
	to          func(src any) (any, error)
	anyTo       func(src any) (any, error)
	must        func(src any) (any, error)
	reflect     func(src any) (any, error)
	mustReflect func(src any) (any, error)
	// preset runs the generic entry points with a target already holding another value
	preset []presetFn
}

func mustErr(f func()) (err error) {
	v, did := h.Panics(f)
	if did {
		if e, isa := v.(error); isa {
			if _, isRt := v.(interface{ RuntimeError() }); isRt {
				panic(v)
			}
			return e
		}
		return fmt.Errorf("panic %v", v)
	}
	return nil
}

func mkPair[S, O constraint.Numeric | string](s, o string) pairFn {
	return pairFn{
		S: s, O: o,
		to:    func(src any) (any, error) { var t O; err := conv.To(src.(S), &t); return t, err },
		anyTo: func(src any) (any, error) { var t O; err := conv.AnyTo(src, &t); return t, err },
		must: func(src any) (any, error) {
			var t O
			err := mustErr(func() { conv.MustTo(src.(S), &t) })
			return t, err
		},
		reflect: func(src any) (any, error) {
			var t O
			err := conv.ReflectTo(goreflect.ValueOf(src), goreflect.ValueOf(&t))
			return t, err
		},
		mustReflect: func(src any) (any, error) {
			var t O
			err := mustErr(func() { conv.MustReflectTo(goreflect.ValueOf(src), goreflect.ValueOf(&t)) })
			return t, err
		},
		preset: []presetFn{
			{"To", func(src, old any) (any, error) { t := old.(O); err := conv.To(src.(S), &t); return t, err }},
			{"AnyTo", func(src, old any) (any, error) { t := old.(O); err := conv.AnyTo(src, &t); return t, err }},
			{"MustTo", func(src, old any) (any, error) {
				t := old.(O)
				err := mustErr(func() { conv.MustTo(src.(S), &t) })
				return t, err
			}},
			{"ReflectTo", func(src, old any) (any, error) {
				t := old.(O)
				err := conv.ReflectTo(goreflect.ValueOf(src), goreflect.ValueOf(&t))
				return t, err
			}},
		},
	}
}

func mkRow[S constraint.Numeric | string](s string) []pairFn {
	return []pairFn{
		mkPair[S, int](s, "int"), mkPair[S, int8](s, "int8"), mkPair[S, int16](s, "int16"), mkPair[S, int32](s, "int32"), mkPair[S, int64](s, "int64"),
		mkPair[S, uint](s, "uint"), mkPair[S, uint8](s, "uint8"), mkPair[S, uint16](s, "uint16"), mkPair[S, uint32](s, "uint32"), mkPair[S, uint64](s, "uint64"),
		mkPair[S, float32](s, "float32"), mkPair[S, float64](s, "float64"),
		mkPair[S, *big.Int](s, "*big.Int"), mkPair[S, *big.Float](s, "*big.Float"), mkPair[S, *big.Rat](s, "*big.Rat"), mkPair[S, string](s, "string"),
	}
}

var convPairs = func() (res []pairFn) {
	res = append(res, mkRow[int]("int")...)
	res = append(res, mkRow[int8]("int8")...)
	res = append(res, mkRow[int16]("int16")...)
	res = append(res, mkRow[int32]("int32")...)
	res = append(res, mkRow[int64]("int64")...)
	res = append(res, mkRow[uint]("uint")...)
	res = append(res, mkRow[uint8]("uint8")...)
	res = append(res, mkRow[uint16]("uint16")...)
	res = append(res, mkRow[uint32]("uint32")...)
	res = append(res, mkRow[uint64]("uint64")...)
	res = append(res, mkRow[float32]("float32")...)
	res = append(res, mkRow[float64]("float64")...)
	res = append(res, mkRow[*big.Int]("*big.Int")...)
	res = append(res, mkRow[*big.Float]("*big.Float")...)
	res = append(res, mkRow[*big.Rat]("*big.Rat")...)
	res = append(res, mkRow[string]("string")...)
	return
}()

// ==== direct functions

type directFn struct {
	name string
	S, O string
	run  func(src any) (any, error)
	must func(src any) (any, error)
	// preset runs it with a target already holding another value
	preset func(src, old any) (any, error)
}

var directs []directFn

// zz_ types are named subtypes of every basic kind
type (
	myInt     int
	myInt8    int8
	myInt16   int16
	myInt32   int32
	myInt64   int64
	myUint    uint
	myUint8   uint8
	myUint16  uint16
	myUint32  uint32
	myUint64  uint64
	myFloat32 float32
	myFloat64 float64
	myString  string
)

// toBase converts a value of a named subtype into its base type
func toBase(v any) any {
	rv := goreflect.ValueOf(v)
	switch rv.Kind() {
	case goreflect.Int:
		return int(rv.Int())
	case goreflect.Int8:
		return int8(rv.Int())
	case goreflect.Int16:
		return int16(rv.Int())
	case goreflect.Int32:
		return int32(rv.Int())
	case goreflect.Int64:
		return rv.Int()
	case goreflect.Uint:
		return uint(rv.Uint())
	case goreflect.Uint8:
		return uint8(rv.Uint())
	case goreflect.Uint16:
		return uint16(rv.Uint())
	case goreflect.Uint32:
		return uint32(rv.Uint())
	case goreflect.Uint64:
		return rv.Uint()
	case goreflect.Float32:
		return float32(rv.Float())
	case goreflect.Float64:
		return rv.Float()
	case goreflect.String:
		return rv.String()
	}
	return v
}

func addDirect[S, O any](name string, f func(S, *O) error, m func(S, *O)) {
	var (
		s S
		o O
	)
	d := directFn{name: name, S: baseName(s), O: baseName(o)}
	cast := func(src any) S { return goreflect.ValueOf(src).Convert(goreflect.TypeOf(s)).Interface().(S) }
	d.run = func(src any) (any, error) { var o O; err := f(cast(src), &o); return toBase(o), err }
	d.preset = func(src, old any) (any, error) {
		o := goreflect.ValueOf(old).Convert(goreflect.TypeOf(o)).Interface().(O)
		err := f(cast(src), &o)
		return toBase(o), err
	}
	if m != nil {
		d.must = func(src any) (any, error) {
			var o O
			err := mustErr(func() { m(cast(src), &o) })
			return toBase(o), err
		}
	}
	directs = append(directs, d)
}

func baseName(v any) string {
	return fmt.Sprintf("%T", toBase(v))
}

func noErr[S, O any](f func(S, *O)) func(S, *O) error {
	return func(s S, o *O) error { f(s, o); return nil }
}

func regInt2[S, T constraint.SignedInteger]() {
	addDirect[S, T]("IntToInt", conv.IntToInt[S, T], conv.MustIntToInt[S, T])
}
func regIntU[S constraint.SignedInteger, T constraint.UnsignedInteger]() {
	addDirect[S, T]("IntToUint", conv.IntToUint[S, T], conv.MustIntToUint[S, T])
}
func regUI[S constraint.UnsignedInteger, T constraint.SignedInteger]() {
	addDirect[S, T]("UintToInt", conv.UintToInt[S, T], conv.MustUintToInt[S, T])
}
func regUU[S, T constraint.UnsignedInteger]() {
	addDirect[S, T]("UintToUint", conv.UintToUint[S, T], conv.MustUintToUint[S, T])
}
func regIF[S constraint.Integer, T constraint.Float]() {
	addDirect[S, T]("IntToFloat", conv.IntToFloat[S, T], conv.MustIntToFloat[S, T])
}
func regFI[S constraint.Float, T constraint.SignedInteger]() {
	addDirect[S, T]("FloatToInt", conv.FloatToInt[S, T], conv.MustFloatToInt[S, T])
}
func regFU[S constraint.Float, T constraint.UnsignedInteger]() {
	addDirect[S, T]("FloatToUint", conv.FloatToUint[S, T], conv.MustFloatToUint[S, T])
}
func regFF[S, T constraint.Float]() {
	addDirect[S, T]("FloatToFloat", conv.FloatToFloat[S, T], conv.MustFloatToFloat[S, T])
}

func regSigned[S constraint.SignedInteger]() {
	regInt2[S, int]()
	regInt2[S, int8]()
	regInt2[S, int16]()
	regInt2[S, int32]()
	regInt2[S, int64]()
	regInt2[S, myInt8]()
	regInt2[S, myInt64]()
	regIntU[S, uint]()
	regIntU[S, uint8]()
	regIntU[S, uint16]()
	regIntU[S, uint32]()
	regIntU[S, uint64]()
	regIntU[S, myUint16]()
	regIF[S, float32]()
	regIF[S, float64]()
	regIF[S, myFloat32]()
	addDirect[S, *big.Float]("IntToBigFloat", noErr(conv.IntToBigFloat[S]), nil)
	addDirect[S, *big.Rat]("IntToBigRat", noErr(conv.IntToBigRat[S]), nil)
	addDirect[S, *big.Int]("IntToBigInt", noErr(conv.IntToBigInt[S]), nil)
	addDirect[S, *big.Int]("IntegerToBigInt", noErr(conv.IntegerToBigInt[S]), nil)
	addDirect[S, string]("IntToString", noErr(func(s S, o *string) { *o = conv.IntToString(s) }), nil)
}
func regUnsigned[S constraint.UnsignedInteger]() {
	regUI[S, int]()
	regUI[S, int8]()
	regUI[S, int16]()
	regUI[S, int32]()
	regUI[S, int64]()
	regUI[S, myInt32]()
	regUU[S, uint]()
	regUU[S, uint8]()
	regUU[S, uint16]()
	regUU[S, uint32]()
	regUU[S, uint64]()
	regUU[S, myUint8]()
	regIF[S, float32]()
	regIF[S, float64]()
	regIF[S, myFloat64]()
	addDirect[S, *big.Float]("UintToBigFloat", noErr(conv.UintToBigFloat[S]), nil)
	addDirect[S, *big.Rat]("UintToBigRat", noErr(conv.UintToBigRat[S]), nil)
	addDirect[S, *big.Int]("UintToBigInt", noErr(conv.UintToBigInt[S]), nil)
	addDirect[S, *big.Int]("IntegerToBigInt", noErr(conv.IntegerToBigInt[S]), nil)
	addDirect[S, string]("UintToString", noErr(func(s S, o *string) { *o = conv.UintToString(s) }), nil)
}
func regFloat[S constraint.Float]() {
	regFI[S, int]()
	regFI[S, int8]()
	regFI[S, int16]()
	regFI[S, int32]()
	regFI[S, int64]()
	regFI[S, myInt16]()
	regFU[S, uint]()
	regFU[S, uint8]()
	regFU[S, uint16]()
	regFU[S, uint32]()
	regFU[S, uint64]()
	regFU[S, myUint32]()
	regFF[S, float32]()
	regFF[S, float64]()
	regFF[S, myFloat32]()
	regFF[S, myFloat64]()
	addDirect[S, *big.Int]("FloatToBigInt", conv.FloatToBigInt[S], conv.MustFloatToBigInt[S])
	addDirect[S, *big.Float]("FloatToBigFloat", conv.FloatToBigFloat[S], conv.MustFloatToBigFloat[S])
	addDirect[S, *big.Rat]("FloatToBigRat", conv.FloatToBigRat[S], conv.MustFloatToBigRat[S])
	addDirect[S, string]("FloatToString", noErr(func(s S, o *string) { *o = conv.FloatToString(s) }), nil)
}

func init() {
	regSigned[int]()
	regSigned[int8]()
	regSigned[int16]()
	regSigned[int32]()
	regSigned[int64]()
	regSigned[myInt]()
	regSigned[myInt8]()
	regSigned[myInt16]()
	regSigned[myInt32]()
	regSigned[myInt64]()
	regUnsigned[uint]()
	regUnsigned[uint8]()
	regUnsigned[uint16]()
	regUnsigned[uint32]()
	regUnsigned[uint64]()
	regUnsigned[myUint]()
	regUnsigned[myUint8]()
	regUnsigned[myUint16]()
	regUnsigned[myUint32]()
	regUnsigned[myUint64]()
	regFloat[float32]()
	regFloat[float64]()
	regFloat[myFloat32]()
	regFloat[myFloat64]()

	addDirect("BigIntToInt64", conv.BigIntToInt64, conv.MustBigIntToInt64)
	addDirect("BigFloatToInt64", conv.BigFloatToInt64, conv.MustBigFloatToInt64)
	addDirect("BigRatToInt64", conv.BigRatToInt64, conv.MustBigRatToInt64)
	addDirect("StringToInt64", conv.StringToInt64, conv.MustStringToInt64)
	addDirect("BigIntToUint64", conv.BigIntToUint64, conv.MustBigIntToUint64)
	addDirect("BigFloatToUint64", conv.BigFloatToUint64, conv.MustBigFloatToUint64)
	addDirect("BigRatToUint64", conv.BigRatToUint64, conv.MustBigRatToUint64)
	addDirect("StringToUint64", conv.StringToUint64, conv.MustStringToUint64)
	addDirect("BigIntToFloat32", conv.BigIntToFloat32, conv.MustBigIntToFloat32)
	addDirect("BigFloatToFloat32", conv.BigFloatToFloat32, conv.MustBigFloatToFloat32)
	addDirect("BigRatToFloat32", conv.BigRatToFloat32, conv.MustBigRatToFloat32)
	addDirect("StringToFloat32", conv.StringToFloat32, conv.MustStringToFloat32)
	addDirect("BigIntToFloat64", conv.BigIntToFloat64, conv.MustBigIntToFloat64)
	addDirect("BigFloatToFloat64", conv.BigFloatToFloat64, conv.MustBigFloatToFloat64)
	addDirect("BigRatToFloat64", conv.BigRatToFloat64, conv.MustBigRatToFloat64)
	addDirect("StringToFloat64", conv.StringToFloat64, conv.MustStringToFloat64)
	addDirect("BigIntToBigFloat", noErr(conv.BigIntToBigFloat), nil)
	addDirect("BigRatToBigFloat", noErr(conv.BigRatToBigFloat), nil)
	addDirect("StringToBigFloat", conv.StringToBigFloat, conv.MustStringToBigFloat)
	addDirect("BigIntToBigRat", noErr(conv.BigIntToBigRat), nil)
	addDirect("BigFloatToBigRat", conv.BigFloatToBigRat, conv.MustBigFloatToBigRat)
	addDirect("StringToBigRat", conv.StringToBigRat, conv.MustStringToBigRat)
	addDirect("FloatStringToBigRat", conv.FloatStringToBigRat, conv.MustFloatStringToBigRat)
	addDirect("BigFloatToBigInt", conv.BigFloatToBigInt, conv.MustBigFloatToBigInt)
	addDirect("BigRatToBigInt", conv.BigRatToBigInt, conv.MustBigRatToBigInt)
	addDirect("StringToBigInt", conv.StringToBigInt, conv.MustStringToBigInt)
	addDirect("BigIntToString", noErr(func(s *big.Int, o *string) { *o = conv.BigIntToString(s) }), nil)
	addDirect("BigFloatToString", noErr(func(s *big.Float, o *string) { *o = conv.BigFloatToString(s) }), nil)
	addDirect("BigRatToString", noErr(func(s *big.Rat, o *string) { *o = conv.BigRatToString(s) }), nil)
	addDirect("BigRatToNormalizedString", noErr(func(s *big.Rat, o *string) { *o = conv.BigRatToNormalizedString(s) }), nil)

	h.Register("C01", "Each case draws a source value (integer limits, powers of two +-2, float edge values, decimals, ratios, big values up to 300 bits, numeric and malformed text) for one of the 16x16 (source,target) type pairs or one of the exported conversion functions (including named subtypes) and compares the outcome with the exact rational value. Distinct = (function, source value); non-trivial = the oracle decided it (must equal / must refuse).", runC01)
	h.Register("C02", "Each case converts one source value through every entry point (To, MustTo, AnyTo, ReflectTo, ToBigOps, the direct function, named subtypes of source and target, preset targets) and compares outcomes; big sources and results are then mutated in place and re-read. Distinct = (pair, source value).", runC02)
}

func runC01(r *h.Run) {
	n := 240000
	if r.Thorough() {
		n = 6000000
	}
	r.Group("large", 40+n/4000, largeNumbers)
	sizes(r, 1, 2000, 6000, largeNumbers)
	r.Group("to-pairs", n, func(c *h.Ctx) {
		p := convPairs[c.Idx%len(convPairs)]
		src := genBase(c.R, p.S)
		c.NoPanic("panic:"+p.S+"->"+p.O, fmt.Sprintf("To %s(%s) -> %s", p.S, show(src), p.O), func() {
			out, err := p.to(src)
			if msg := judge(src, p.O, out, err); msg != "" {
				c.Fail("to:"+p.S+"->"+p.O, "To %s(%s) -> %s: %s", p.S, show(src), p.O, msg)
			}
			c.Ev(map[bool]string{true: "converted", false: "refused"}[err == nil])
		})
		c.Obs(p.S, p.O, show(src))
		c.Sample("%s(%s) -> %s", p.S, show(src), p.O)
	})
	r.Group("direct", n*2, func(c *h.Ctx) {
		d := directs[c.Idx%len(directs)]
		src := genBase(c.R, d.S)
		sig := d.name + ":" + d.S + "->" + d.O
		what := fmt.Sprintf("%s %s(%s) -> %s", d.name, d.S, show(src), d.O)
		c.NoPanic("panic:"+sig, what, func() {
			out, err := d.run(src)
			var msg string
			switch d.name {
			case "FloatStringToBigRat":
				kind, x := textNum(src.(string))
				switch {
				case kind == "int" || kind == "dec":
					if err != nil {
						msg = "refused number text"
					} else if !exactOf(out).eq(x) {
						msg = "gave " + exactOf(out).String()
					}
				case err == nil:
					msg = "accepted text that is not a float string: " + show(out)
				}
			case "BigRatToNormalizedString":
				msg = judgeNormalized(src.(*big.Rat), out.(string))
			default:
				msg = judge(src, d.O, out, err)
			}
			if msg != "" {
				c.Fail(sig, "%s: %s", what, msg)
			}
			if d.must != nil {
				mo, merr := d.must(src)
				if !sameOutcome(out, err, mo, merr) {
					c.Fail("must:"+sig, "%s: Must variant disagrees: (%s, %v) vs (%s, %v)", what, show(out), err, show(mo), merr)
				}
			}
			c.Ev(map[bool]string{true: "converted", false: "refused"}[err == nil])
		})
		c.Obs(d.name, d.S, d.O, show(src))
		c.Sample("%s", what)
	})
	// small domains completely
	r.Group("exhaustive-8-16-bit", 256+65536, func(c *h.Ctx) {
		var vals []any
		if c.Idx < 256 {
			vals = []any{int8(c.Idx), uint8(c.Idx)}
		} else {
			vals = []any{int16(c.Idx - 256), uint16(c.Idx - 256)}
		}
		for _, src := range vals {
			s := baseName(src)
			for _, p := range convPairs {
				if p.S != s {
					continue
				}
				if !r.Thorough() && c.Idx >= 256 && c.Idx%16 != 0 && p.O != "int8" && p.O != "uint8" {
					continue
				}
				out, err := p.to(src)
				if msg := judge(src, p.O, out, err); msg != "" {
					c.Fail("to:"+p.S+"->"+p.O, "To %s(%s) -> %s: %s", p.S, show(src), p.O, msg)
				}
				c.Ev("small-domain-conversion")
			}
		}
		c.Obs("small", c.Idx)
	})
}

// judgeNormalized: integer text when the ratio is an integer, else decimal text that denotes the ratio exactly when the
// ratio is a terminating binary fraction, else to at least 15 significant digits
func judgeNormalized(r *big.Rat, s string) string {
	if r.IsInt() {
		if s != r.Num().String() {
			return fmt.Sprintf("text %q for integer %s", s, r.Num())
		}
		return ""
	}
	if !reDec.MatchString(s) {
		return fmt.Sprintf("text %q is not a decimal", s)
	}
	y, _ := new(big.Rat).SetString(s)
	d := new(big.Rat).Sub(y, r)
	d.Abs(d)
	lim := new(big.Rat).Abs(r)
	lim.Mul(lim, big.NewRat(1, 1000000000000000))
	if d.Cmp(lim) > 0 {
		return fmt.Sprintf("text %q denotes a different value than %s", s, r)
	}
	return ""
}

// ==== C02

func subSrc(src any) any { // as a named subtype
	switch t := src.(type) {
	case int:
		return myInt(t)
	case int8:
		return myInt8(t)
	case int16:
		return myInt16(t)
	case int32:
		return myInt32(t)
	case int64:
		return myInt64(t)
	case uint:
		return myUint(t)
	case uint8:
		return myUint8(t)
	case uint16:
		return myUint16(t)
	case uint32:
		return myUint32(t)
	case uint64:
		return myUint64(t)
	case float32:
		return myFloat32(t)
	case float64:
		return myFloat64(t)
	}
	return src
}

type subFn struct {
	S, O string
	f    func(src any) (any, error)
}

func mkSub[S, O constraint.Numeric | string](s, o string) subFn {
	return subFn{s, o, func(src any) (any, error) {
		var t O
		v, isa := src.(S)
		if !isa {
			v = goreflect.ValueOf(src).Convert(goreflect.TypeOf(v)).Interface().(S)
		}
		err := conv.To(v, &t)
		return toBase(t), err
	}}
}

func mkSubRow[S constraint.Numeric | string](s string) []subFn {
	return []subFn{
		mkSub[S, myInt](s, "int"), mkSub[S, myInt8](s, "int8"), mkSub[S, myInt16](s, "int16"), mkSub[S, myInt32](s, "int32"), mkSub[S, myInt64](s, "int64"),
		mkSub[S, myUint](s, "uint"), mkSub[S, myUint8](s, "uint8"), mkSub[S, myUint16](s, "uint16"), mkSub[S, myUint32](s, "uint32"), mkSub[S, myUint64](s, "uint64"),
		mkSub[S, myFloat32](s, "float32"), mkSub[S, myFloat64](s, "float64"),
	}
}

var subPairs = func() map[string]map[string]subFn {
	res := map[string]map[string]subFn{}
	add := func(fs []subFn) {
		for _, f := range fs {
			if res[f.S] == nil {
				res[f.S] = map[string]subFn{}
			}
			res[f.S][f.O] = f
		}
	}
	add(mkSubRow[myInt]("int"))
	add(mkSubRow[myInt8]("int8"))
	add(mkSubRow[myInt16]("int16"))
	add(mkSubRow[myInt32]("int32"))
	add(mkSubRow[myInt64]("int64"))
	add(mkSubRow[myUint]("uint"))
	add(mkSubRow[myUint8]("uint8"))
	add(mkSubRow[myUint16]("uint16"))
	add(mkSubRow[myUint32]("uint32"))
	add(mkSubRow[myUint64]("uint64"))
	add(mkSubRow[myFloat32]("float32"))
	add(mkSubRow[myFloat64]("float64"))
	add(mkSubRow[*big.Int]("*big.Int"))
	add(mkSubRow[*big.Float]("*big.Float"))
	add(mkSubRow[*big.Rat]("*big.Rat"))
	add(mkSubRow[string]("string"))
	return res
}()

var directByPair = map[string][]directFn{}

func bigOpsAny(src any, otyp string, old ...any) (out any, err error, called bool) {
	called = true
	switch otyp {
	case "*big.Int":
		out, err = bigOpsTo[*big.Int](src, old...)
	case "*big.Float":
		out, err = bigOpsTo[*big.Float](src, old...)
	case "*big.Rat":
		out, err = bigOpsTo[*big.Rat](src, old...)
	default:
		return nil, nil, false
	}
	return
}

func bigOpsTo[O constraint.BigOps[O]](src any, old ...any) (any, error) {
	var (
		o   O
		m   O
		err error
		mer error
	)
	if len(old) > 0 {
		o, m = old[0].(O), old[0].(O)
	}
	switch t := src.(type) {
	case int:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case int8:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case int16:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case int32:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case int64:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case uint:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case uint8:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case uint16:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case uint32:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case uint64:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case float32:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case float64:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myInt:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myInt8:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myInt16:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myInt32:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myInt64:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myUint:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myUint8:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myUint16:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myUint32:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myUint64:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myFloat32:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case myFloat64:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case *big.Int:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case *big.Float:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case *big.Rat:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	case string:
		err, mer = conv.ToBigOps(t, &o), mustErr(func() { conv.MustToBigOps(t, &m) })
	}
	if !sameOutcome(any(o), err, any(m), mer) {
		panic(fmt.Sprintf("MustToBigOps disagrees with ToBigOps for %T %s", src, show(src)))
	}
	return o, err
}

func bigOpsNil[O constraint.BigOps[O]](s any, t *O) error {
	switch v := s.(type) {
	case *big.Int:
		return conv.ToBigOps(v, t)
	case *big.Float:
		return conv.ToBigOps(v, t)
	}
	return conv.ToBigOps(s.(*big.Rat), t)
}

func runC02(r *h.Run) {
	for _, d := range directs {
		k := d.S + "|" + d.O
		directByPair[k] = append(directByPair[k], d)
	}
	n := 120000
	if r.Thorough() {
		n = 2500000
	}
	r.Group("entry-points", n, func(c *h.Ctx) {
		p := convPairs[c.Idx%len(convPairs)]
		src := genBase(c.R, p.S)
		what := fmt.Sprintf("%s(%s) -> %s", p.S, show(src), p.O)
		before := snapshot(src)
		c.NoPanic("panic:"+p.S+"->"+p.O, what, func() {
			ref, rerr := p.to(src)
			cmp := func(name string, o any, e error) {
				c.Ev("compared-" + name)
				if !sameOutcome(ref, rerr, o, e) {
					c.Fail(name+":"+p.S+"->"+p.O, "%s: %s gives (%s, %v), To gives (%s, %v)", what, name, show(o), e, show(ref), rerr)
				}
			}
			o, e := p.must(src)
			cmp("MustTo", o, e)
			o, e = p.anyTo(src)
			cmp("AnyTo", o, e)
			o, e = p.anyTo(subSrc(src))
			cmp("AnyTo-subtype", o, e)
			o, e = p.reflect(src)
			cmp("ReflectTo", o, e)
			o, e = p.mustReflect(src)
			cmp("MustReflectTo", o, e)
			o, e = p.reflect(subSrc(src))
			cmp("ReflectTo-subtype", o, e)
			if f, has := subPairs[p.S][p.O]; has {
				o, e = f.f(src)
				cmp("To-subtypes", o, e)
			}
			if o, e, called := bigOpsAny(src, p.O); called {
				cmp("ToBigOps", o, e)
				o, e, _ = bigOpsAny(subSrc(src), p.O)
				cmp("ToBigOps-subtype", o, e)
			}
			for _, d := range directByPair[p.S+"|"+p.O] {
				if d.name == "FloatStringToBigRat" || d.name == "BigRatToNormalizedString" {
					continue
				}
				o, e = d.run(src)
				cmp(d.name, o, e)
			}
			// the target holds another value, which may be in use elsewhere
			preset := func(name string, f func(src, old any) (any, error)) {
				old := genBase(c.R, p.O)
				held := snapshot(old)
				o, e := f(src, old)
				cmp(name+"-preset", o, e)
				c.Check(snapshot(old) == held, "target-modified:"+name+":"+p.S+"->"+p.O, "%s: %s changed the value the target held before from %s to %s", what, name, held, snapshot(old))
				if e == nil {
					mutate(o)
					c.Check(snapshot(old) == held, "target-alias:"+name+":"+p.S+"->"+p.O, "%s: %s: modifying the result changed the value the target held before from %s to %s", what, name, held, snapshot(old))
					mutate(old)
				}
			}
			for _, f := range p.preset {
				preset(f.name, f.f)
			}
			if isBig(p.O) {
				preset("ToBigOps", func(src, old any) (any, error) { o, e, _ := bigOpsAny(src, p.O, old); return o, e })
			}
			for _, d := range directByPair[p.S+"|"+p.O] {
				if d.name != "FloatStringToBigRat" && d.name != "BigRatToNormalizedString" {
					preset(d.name, d.preset)
				}
			}
			if snapshot(src) != before {
				c.Fail("input-modified:"+p.S+"->"+p.O, "%s: the conversion modified its input: %s -> %s", what, before, snapshot(src))
			}
		})
		c.Obs(p.S, p.O, show(src))
		c.Sample("%s", what)
	})
	// independence of big results from big inputs
	bigs := []string{"*big.Int", "*big.Float", "*big.Rat"}
	r.Group("independence", n/2, func(c *h.Ctx) {
		S := bigs[c.Idx%3]
		src := genBase(c.R, S)
		if c.R.Intn(3) == 0 { // integral values convert to everything
			i := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(1+c.R.Intn(200))))
			switch S {
			case "*big.Int":
				src = i
			case "*big.Float":
				src = new(big.Float).SetInt(i)
			case "*big.Rat":
				src = new(big.Rat).SetInt(i)
			}
		}
		what := S + "(" + show(src) + ")"
		try := func(name, O string, f func(src any) (any, error)) {
			c.NoPanic("panic-independence:"+name+":"+S+"->"+O, name+" "+what+"->"+O, func() {
				mine := cloneBig(src)
				before := snapshot(mine)
				out, err := f(mine)
				if err != nil {
					return
				}
				ob := snapshot(out)
				mutate(out)
				if snapshot(mine) != before {
					c.Fail("alias:"+name+":"+S+"->"+O, "%s %s -> %s: modifying the result changed the input from %s to %s", name, what, O, before, snapshot(mine))
					return
				}
				mine = cloneBig(src)
				out, _ = f(mine)
				mutate(mine)
				if snapshot(out) != ob {
					c.Fail("alias:"+name+":"+S+"->"+O, "%s %s -> %s: modifying the input changed the result from %s to %s", name, what, O, ob, snapshot(out))
				}
				c.Ev("independence-checked")
			})
		}
		for _, p := range convPairs {
			if p.S == S && isBig(p.O) {
				p := p
				try("To", p.O, p.to)
				try("AnyTo", p.O, p.anyTo)
				try("ReflectTo", p.O, p.reflect)
				try("ToBigOps", p.O, func(s any) (any, error) { o, e, _ := bigOpsAny(s, p.O); return o, e })
				old := genBase(c.R, p.O)
				for _, f := range p.preset {
					try(f.name+"-preset", p.O, func(s any) (any, error) { return f.f(s, cloneBig(old)) })
					if p.S == p.O {
						try(f.name+"-self", p.O, func(s any) (any, error) { return f.f(s, s) })
					}
				}
				for _, d := range directByPair[S+"|"+p.O] {
					try(d.name, p.O, d.run)
					if S == p.O {
						try(d.name+"-self", p.O, func(s any) (any, error) { return d.preset(s, s) })
					}
				}
			}
		}
		// the same variable converted again after its value changed
		other := genBase(c.R, S)
		for _, p := range convPairs {
			if p.S != S || c.R.Intn(12) > 0 {
				continue
			}
			for _, f := range []struct {
				name string
				f    func(any) (any, error)
			}{{"To", p.to}, {"AnyTo", p.anyTo}, {"ReflectTo", p.reflect}, {"ToBigOps", func(s any) (any, error) { o, e, _ := bigOpsAny(s, p.O); return o, e }}} {
				c.NoPanic("panic-again", f.name+" "+what, func() {
					want, werr := f.f(cloneBig(other))
					mine := cloneBig(src)
					f.f(mine)
					setBig(mine, other)
					got, err := f.f(mine)
					c.Check((err == nil) == (werr == nil) && (err != nil || snapshot(got) == snapshot(want)), "again:"+f.name+":"+S+"->"+p.O, "%s %s -> %s after the variable was set to %s: %v, %v; want %v, %v", f.name, what, p.O, show(other), got, err, want, werr)
					c.Ev("variables converted again")
				})
			}
		}
		c.Obs("indep", what)
	})
	// different types that print the same
	r.Group("same-names", 200, func(c *h.Ctx) {
		n := c.R.Intn(100)
		want := fmt.Sprint(n)
		ls := []localConv{localConv1(n), localConv2(n), localConv3(n), localConv4(n)}
		for k := 0; k < 12; k++ {
			l := ls[c.R.Intn(len(ls))]
			what := fmt.Sprintf("%T of kind %v", l.val, goreflect.TypeOf(l.val).Kind())
			c.NoPanic("panic-same-name", what, func() {
				s, e := l.toStr()
				c.Check(e == nil && s == want, "same-name", "To from %s = %q, %v; want %q", what, s, e, want)
				s = ""
				e = conv.AnyTo(l.val, &s)
				c.Check(e == nil && s == want, "same-name", "AnyTo from %s = %q, %v; want %q", what, s, e, want)
				var b *big.Int
				e = conv.ReflectTo(goreflect.ValueOf(l.val), goreflect.ValueOf(&b))
				c.Check(e == nil && b.String() == want, "same-name", "ReflectTo from %s = %v, %v; want %q", what, b, e, want)
				s, e = l.from(big.NewInt(int64(n)))
				c.Check(e == nil && s == want, "same-name", "To to %s = %q, %v; want %q", what, s, e, want)
				t := goreflect.New(goreflect.TypeOf(l.val))
				e = conv.ReflectTo(goreflect.ValueOf(n), t)
				c.Check(e == nil && fmt.Sprint(t.Elem()) == want, "same-name", "ReflectTo to %s = %v, %v; want %q", what, t.Elem(), e, want)
				c.Ev("conversions of types that print the same")
			})
		}
		c.Obs("same-names", n)
	})
	// any kind of source and target: a value or an error, never a crash
	r.Group("hostile", 4000, func(c *h.Ctx) {
		srcs, tgts := hostileSources(), hostileTargets()
		s, t := srcs[c.R.Intn(len(srcs))], tgts[c.R.Intn(len(tgts))]
		what := func() string {
			d := func(v goreflect.Value) string {
				if !v.IsValid() {
					return "invalid"
				}
				return fmt.Sprintf("%v %v", v.Type(), v)
			}
			return "ReflectTo(" + d(s) + ", " + d(t) + ")"
		}()
		c.NoPanic("panic-hostile", what, func() {
			err := conv.ReflectTo(s, t)
			_, did := h.Panics(func() { conv.MustReflectTo(s, t) })
			c.Check(did == (err != nil), "hostile-must", "%s: %v, but MustReflectTo panics=%v", what, err, did)
			if err == nil {
				c.Ev("hostile pairs converted")
			} else {
				c.Ev("hostile pairs refused")
			}
			if s.IsValid() && s.CanInterface() {
				var (
					i  int
					st string
					f  float32
					bi = new(big.Int)
				)
				e := []error{conv.AnyTo(s.Interface(), &i), conv.AnyTo(s.Interface(), &st), conv.AnyTo(s.Interface(), &f), conv.AnyTo(s.Interface(), &bi)}
				c.Check(s.Kind() != goreflect.Func || e[0] != nil && e[1] != nil && e[2] != nil && e[3] != nil, "hostile-any", "AnyTo(%s): %v", what, e)
			}
		})
		c.Obs("hostile", what)
	})
	// nil and invalid targets/sources are refused, never a crash
	r.Group("refusals", 1, func(c *h.Ctx) {
		c.NoPanic("panic-refusals", "refusal", func() {
			var (
				i   int
				bi  *big.Int
				nbf *big.Float
			)
			bad := map[string]error{
				"To nil target":              conv.To(1, (*int)(nil)),
				"ToBigOps nil target":        conv.ToBigOps(1, (**big.Int)(nil)),
				"AnyTo nil target":           conv.AnyTo(1, (*int)(nil)),
				"AnyTo nil":                  conv.AnyTo(nil, &i),
				"AnyTo struct":               conv.AnyTo(struct{}{}, &i),
				"AnyTo bool":                 conv.AnyTo(true, &i),
				"AnyTo slice":                conv.AnyTo([]int{1}, &i),
				"AnyTo map":                  conv.AnyTo(map[string]int{}, &i),
				"AnyTo complex":              conv.AnyTo(complex(1, 1), &i),
				"AnyTo *int":                 conv.AnyTo(new(int), &i),
				"ReflectTo invalid source":   conv.ReflectTo(goreflect.Value{}, goreflect.ValueOf(&i)),
				"ReflectTo invalid target":   conv.ReflectTo(goreflect.ValueOf(1), goreflect.Value{}),
				"ReflectTo non pointer":      conv.ReflectTo(goreflect.ValueOf(1), goreflect.ValueOf(i)),
				"ReflectTo nil pointer":      conv.ReflectTo(goreflect.ValueOf(1), goreflect.ValueOf((*int)(nil))),
				"ReflectTo single big ptr":   conv.ReflectTo(goreflect.ValueOf(1), goreflect.ValueOf(big.NewInt(1))),
				"ReflectTo bool source":      conv.ReflectTo(goreflect.ValueOf(true), goreflect.ValueOf(&i)),
				"ReflectTo struct target":    conv.ReflectTo(goreflect.ValueOf(1), goreflect.ValueOf(&struct{}{})),
				"ReflectTo **int source":     conv.ReflectTo(goreflect.ValueOf((**int)(nil)), goreflect.ValueOf(&i)),
				"ReflectTo string to struct": conv.ReflectTo(goreflect.ValueOf("a"), goreflect.ValueOf(&struct{ A int }{})),
			}
			for k, e := range bad {
				c.Check(e != nil, "refusal:"+k, "%s: no error", k)
				c.Ev("refusal")
			}
			// nil big copies
			bi = big.NewInt(3)
			c.Check(conv.To((*big.Int)(nil), &bi) == nil && bi == nil, "nil-copy", "copying a nil *big.Int must give nil")
			var br = big.NewRat(1, 2)
			c.Check(conv.ToBigOps((*big.Rat)(nil), &br) == nil && br == nil, "nil-copy", "copying a nil *big.Rat must give nil")
			c.Check(conv.To(nbf, &nbf) == nil && nbf == nil, "nil-copy", "copying a nil *big.Float must give nil")
		})
		c.Obs("refusals")
	})
	// a nil big value has no value: every other type refuses it through every entry point
	r.Group("nil-big", len(convPairs), func(c *h.Ctx) {
		p := convPairs[c.Idx]
		if !isBig(p.S) {
			return
		}
		src := map[string]any{"*big.Int": (*big.Int)(nil), "*big.Float": (*big.Float)(nil), "*big.Rat": (*big.Rat)(nil)}[p.S]
		try := func(name string, f func(any) (any, error)) {
			c.NoPanic("panic-nil-big:"+name+":"+p.S+"->"+p.O, name+" nil "+p.S+" -> "+p.O, func() {
				o, e := f(src)
				if p.S == p.O {
					c.Check(e == nil && goreflect.ValueOf(o).IsNil(), "nil-big-copy:"+name, "%s of nil %s to its own type gives (%s, %v)", name, p.S, show(o), e)
				} else {
					c.Check(e != nil, "nil-big:"+name+":"+p.S+"->"+p.O, "%s of nil %s to %s gives %v without an error", name, p.S, p.O, o)
				}
				c.Ev("nil-big")
			})
		}
		try("To", p.to)
		try("AnyTo", p.anyTo)
		try("ReflectTo", p.reflect)
		try("MustTo", p.must)
		if isBig(p.O) {
			try("ToBigOps", func(s any) (any, error) {
				var o any
				var e error
				switch p.O {
				case "*big.Int":
					var t *big.Int
					e = bigOpsNil(s, &t)
					o = t
				case "*big.Float":
					var t *big.Float
					e = bigOpsNil(s, &t)
					o = t
				default:
					var t *big.Rat
					e = bigOpsNil(s, &t)
					o = t
				}
				return o, e
			})
		}
		c.Obs("nil-big", p.S, p.O)
	})
	_ = rand.Int
}

func snapshot(v any) string {
	switch t := v.(type) {
	case *big.Int:
		return t.String()
	case *big.Float:
		return fmt.Sprintf("%s prec=%d mode=%d", t.Text('p', 0), t.Prec(), t.Mode())
	case *big.Rat:
		return t.String()
	}
	return fmt.Sprint(v)
}

type localConv struct {
	val   any
	toStr func() (string, error)
	from  func(*big.Int) (string, error)
}

func localConv1(n int) localConv {
	type local uint8
	return localConv{local(n), func() (s string, e error) { e = conv.To(local(n), &s); return },
		func(b *big.Int) (string, error) { var l local; e := conv.To(b, &l); return fmt.Sprint(l), e }}
}

func localConv2(n int) localConv {
	type local string
	v := local(fmt.Sprint(n))
	return localConv{v, func() (s string, e error) { e = conv.AnyTo(v, &s); return },
		func(b *big.Int) (string, error) {
			var l local
			e := conv.ReflectTo(goreflect.ValueOf(b), goreflect.ValueOf(&l))
			return string(l), e
		}}
}

func localConv3(n int) localConv {
	type local int16
	return localConv{local(n), func() (s string, e error) { e = conv.To(local(n), &s); return },
		func(b *big.Int) (string, error) { var l local; e := conv.To(b, &l); return fmt.Sprint(l), e }}
}

func localConv4(n int) localConv {
	type local float64
	return localConv{local(n), func() (s string, e error) { e = conv.To(local(n), &s); return },
		func(b *big.Int) (string, error) { var l local; e := conv.To(b, &l); return fmt.Sprint(l), e }}
}

// hostileSources has values of all kinds.
func hostileSources() []goreflect.Value {
	var (
		i      = 3
		p      = &i
		any1   any
		st     = struct{ Exp, unexp int }{1, 2}
		np     *int
		chans  = make(chan int)
		arr    = [2]int{1, 2}
		bigVal = *big.NewInt(5)
		err    error
	)
	vs := []goreflect.Value{{}}
	for _, v := range []any{1, int8(-1), uint8(200), uintptr(7), 1.5, float32(2), "x", "12", "", true, complex(1, 2), p, &p, np, any1, &any1, st, &st, chans, arr, &arr, arr[:], []int(nil),
		map[string]int{"a": 1}, func() {}, (func())(nil), subInt(3), subStr("4"), subBool(true), big.NewInt(1), big.NewRat(1, 2), big.NewFloat(1.5), (*big.Int)(nil), (*big.Rat)(nil), bigVal, &bigVal, errInjected, err, goreflect.TypeOf(1), goreflect.ValueOf(1)} {
		vs = append(vs, goreflect.ValueOf(v))
	}
	any2 := any(5)
	return append(vs, goreflect.ValueOf(&any1).Elem(), goreflect.ValueOf(&any2).Elem(), goreflect.ValueOf(&err).Elem(), goreflect.ValueOf(&st).Elem().Field(0), goreflect.ValueOf(arr).Index(0))
}

// hostileTargets has targets of all kinds.
func hostileTargets() []goreflect.Value {
	var (
		i    int
		p    = &i
		a    any
		st   struct{ Exp, unexp int }
		e    error
		bi   *big.Int
		br   = big.NewRat(1, 3)
		bf   *big.Float
		bv   big.Int
		s    string
		f    float32
		b    bool
		u    uintptr
		c    complex128
		si   subInt8
		ss   subStr
		fn   func()
		ch   chan int
		m    map[string]int
		arr  [2]int
		slc  []int
		np   *int
		nps  *string
		npbi **big.Int
	)
	vs := []goreflect.Value{{}}
	for _, v := range []any{&i, p, &p, &a, &st, &e, &bi, &br, &bf, &bv, bi, br, &s, &f, &b, &u, &c, &si, &ss, &fn, &ch, &m, &arr, &slc, np, nps, npbi, i, s, fn, m, arr, slc, 1, "x", nil, new(**big.Int), new(any), goreflect.ValueOf(&i)} {
		vs = append(vs, goreflect.ValueOf(v))
	}
	return append(vs, goreflect.ValueOf(&st).Elem().Field(0), goreflect.ValueOf(&st).Elem().Field(0).Addr(), goreflect.ValueOf(&a).Elem(), goreflect.ValueOf(&e).Elem())
}
