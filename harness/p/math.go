package p

import (
	"errors"
	"fmt"
	gomath "math"
	"math/big"
	"math/cmplx"
	"math/rand"
	"time"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"

	"verif/h"
)

type (
	subI8  int8
	subI64 int64
	subU8  uint8
	subU16 uint16
	subF32 float32
	subF64 float64
	subStr string
	subC64 complex64
)

func bigOf[T constraint.Integer](v T) *big.Int {
	var zero T
	if zero-1 > zero { // unsigned
		return new(big.Int).SetUint64(uint64(v))
	}
	return big.NewInt(int64(v))
}

func boundsOf[T constraint.Integer]() (lo, hi *big.Int) {
	var zero T
	bits := uint(8)
	for k := uint(16); k <= 64; k *= 2 {
		one := T(1)
		if one<<(k-1) != 0 && one<<(k/2) != 0 {
			bits = k
		}
	}
	if zero-1 > zero {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
	}
	hb := new(big.Int).Lsh(big.NewInt(1), bits-1)
	return new(big.Int).Neg(hb), new(big.Int).Sub(hb, big.NewInt(1))
}

func fromBig[T constraint.Integer](b *big.Int) T {
	if b.Sign() < 0 {
		return T(b.Int64())
	}
	return T(b.Uint64())
}

// genInt favours bounds, powers of two, halves and small values
func genInt[T constraint.Integer](R *rand.Rand) T {
	lo, hi := boundsOf[T]()
	bits := hi.BitLen()
	var b *big.Int
	switch R.Intn(6) {
	case 0:
		b = new(big.Int).Add(lo, big.NewInt(int64(R.Intn(3))))
	case 1:
		b = new(big.Int).Sub(hi, big.NewInt(int64(R.Intn(3))))
	case 2:
		b = new(big.Int).Lsh(big.NewInt(1), uint(R.Intn(bits)))
		b.Add(b, big.NewInt(int64(R.Intn(3)-1)))
	case 3:
		b = new(big.Int).Rsh(hi, uint(R.Intn(bits)))
	case 4:
		b = big.NewInt(int64(R.Intn(12)))
	default:
		b = new(big.Int).Rand(R, new(big.Int).Lsh(big.NewInt(1), uint(1+R.Intn(bits))))
	}
	if lo.Sign() < 0 && R.Intn(2) == 0 {
		b.Neg(b)
	}
	if b.Cmp(lo) < 0 {
		b = lo
	}
	if b.Cmp(hi) > 0 {
		b = hi
	}
	return fromBig[T](b)
}

// judgeInt checks (got, err) against the exact result.
func judgeInt[T constraint.Integer](c *h.Ctx, op string, a, b T, got T, err error, exact *big.Int) {
	lo, hi := boundsOf[T]()
	switch {
	case exact == nil: // division by zero
		c.Check(errors.Is(err, math.DivByZeroErr), op+"-zero", "%T: %s(%d, %d) = %d, %v; want division by zero error", a, op, a, b, got, err)
		c.Ev("div-by-zero")
	case exact.Cmp(hi) > 0:
		c.Check(errors.Is(err, math.OverflowErr), op+"-overflow", "%T: %s(%d, %d) = %d, %v; want overflow error, exact result is %s", a, op, a, b, got, err, exact)
		c.Ev("overflow")
	case exact.Cmp(lo) < 0:
		c.Check(errors.Is(err, math.UnderflowErr), op+"-underflow", "%T: %s(%d, %d) = %d, %v; want underflow error, exact result is %s", a, op, a, b, got, err, exact)
		c.Ev("underflow")
	default:
		c.Check(err == nil && bigOf(got).Cmp(exact) == 0, op+"-exact", "%T: %s(%d, %d) = %d, %v; want %s", a, op, a, b, got, err, exact)
		c.Ev("exact")
	}
}

// roundDiv divides rounding half away from zero
func roundDiv(a, b *big.Int) *big.Int {
	if b.Sign() == 0 {
		return nil
	}
	n := new(big.Int).Abs(a)
	d := new(big.Int).Abs(b)
	n.Lsh(n, 1)
	n.Add(n, d)
	n.Quo(n, new(big.Int).Lsh(d, 1))
	if a.Sign()*b.Sign() < 0 {
		n.Neg(n)
	}
	return n
}

func checkCommon[T constraint.Integer](c *h.Ctx, a, b T) {
	A, B := bigOf(a), bigOf(b)
	got := b
	err := math.Mul(a, &got)
	judgeInt(c, "Mul", a, b, got, err, new(big.Int).Mul(A, B))
	q := T(7)
	err = math.Div(a, b, &q)
	judgeInt(c, "Div", a, b, q, err, roundDiv(A, B))
	v := a
	err = math.Abs(&v)
	abs := new(big.Int).Abs(A)
	if _, hi := boundsOf[T](); abs.Cmp(hi) > 0 {
		c.Check(err != nil, "Abs-overflow", "%T: Abs(%d) = %d without an error", a, a, v)
	} else {
		c.Check(err == nil && bigOf(v).Cmp(abs) == 0, "Abs", "%T: Abs(%d) = %d, %v", a, a, v, err)
	}
}

func checkSigned[T constraint.SignedInteger](c *h.Ctx, a, b T) {
	A, B := bigOf(a), bigOf(b)
	got := b
	err := math.AddInt(a, &got)
	judgeInt(c, "AddInt", a, b, got, err, new(big.Int).Add(A, B))
	got = b
	err = math.SubInt(a, &got)
	judgeInt(c, "SubInt", a, b, got, err, new(big.Int).Sub(A, B))
	checkCommon(c, a, b)
	c.Obs("s", fmt.Sprintf("%T", a), a, b)
}

func checkUnsigned[T constraint.UnsignedInteger](c *h.Ctx, a, b T) {
	A, B := bigOf(a), bigOf(b)
	got := b
	err := math.AddUint(a, &got)
	judgeInt(c, "AddUint", a, b, got, err, new(big.Int).Add(A, B))
	got = b
	err = math.SubUint(a, &got)
	judgeInt(c, "SubUint", a, b, got, err, new(big.Int).Sub(A, B))
	checkCommon(c, a, b)
	c.Obs("u", fmt.Sprintf("%T", a), a, b)
}

func sameFloat(a, b float64) bool {
	return a == b && gomath.Signbit(a) == gomath.Signbit(b) || a != a && b != b
}

func genF64(R *rand.Rand) float64 { return genBase(R, "float64").(float64) }

func init() {
	h.Register("C04", "every pair of 8 bit values, and boundary-biased random pairs of every wider integer type, named subtypes, floats and big types; a case is non-trivial when it is a distinct operand pair, and the events count exact results, overflows, underflows and divisions by zero observed", func(r *h.Run) {
		r.Group("exhaustive8", 256, func(c *h.Ctx) {
			for j := 0; j < 256; j++ {
				checkSigned(c, int8(c.Idx-128), int8(j-128))
				checkUnsigned(c, uint8(c.Idx), uint8(j))
				if j%16 == c.Idx%16 {
					checkSigned(c, subI8(c.Idx-128), subI8(j-128))
					checkUnsigned(c, subU8(c.Idx), subU8(j))
				}
			}
		})
		n := 30000
		if r.Thorough() {
			n = 200000
		}
		r.Group("wide", n, func(c *h.Ctx) {
			R := c.R
			for k := 0; k < 3; k++ {
				checkSigned(c, genInt[int16](R), genInt[int16](R))
				checkSigned(c, genInt[int32](R), genInt[int32](R))
				checkSigned(c, genInt[int64](R), genInt[int64](R))
				checkSigned(c, genInt[int](R), genInt[int](R))
				checkSigned(c, genInt[subI64](R), genInt[subI64](R))
				checkSigned(c, time.Duration(genInt[int64](R)), time.Duration(genInt[int64](R)))
				checkUnsigned(c, genInt[uint16](R), genInt[uint16](R))
				checkUnsigned(c, genInt[uint32](R), genInt[uint32](R))
				checkUnsigned(c, genInt[uint64](R), genInt[uint64](R))
				checkUnsigned(c, genInt[uint](R), genInt[uint](R))
				checkUnsigned(c, genInt[subU16](R), genInt[subU16](R))
			}
			c.Sample("a=%d b=%d", genInt[int64](R), genInt[int64](R))
		})
		r.Group("near-product", n/2, func(c *h.Ctx) {
			// operands whose product or sum is right at a bound
			lo, hi := boundsOf[int64]()
			_, uhi := boundsOf[uint64]()
			b := genInt[int64](c.R)
			if b == 0 {
				b = 3
			}
			for _, bound := range []*big.Int{lo, hi} {
				q := new(big.Int).Quo(bound, big.NewInt(b))
				for d := int64(-1); d <= 1; d++ {
					a := new(big.Int).Add(q, big.NewInt(d))
					if a.IsInt64() {
						checkSigned(c, a.Int64(), b)
						checkSigned(c, b, a.Int64())
					}
				}
				for d := int64(-1); d <= 1; d++ {
					a := new(big.Int).Sub(bound, big.NewInt(b))
					a.Add(a, big.NewInt(d))
					if a.IsInt64() {
						checkSigned(c, a.Int64(), b)
					}
					a = new(big.Int).Add(bound, big.NewInt(b))
					a.Add(a, big.NewInt(d))
					if a.IsInt64() {
						checkSigned(c, a.Int64(), b)
					}
				}
			}
			u := genInt[uint64](c.R)
			if u == 0 {
				u = 5
			}
			q := new(big.Int).Quo(uhi, bigOf(u)).Uint64()
			for d := uint64(0); d < 3; d++ {
				checkUnsigned(c, q-1+d, u)
				checkUnsigned(c, ^u-1+d, u)
			}
		})
		r.Group("half", n/2, func(c *h.Ctx) {
			// quotients at and next to a half
			b := genInt[int32](c.R)
			if b == 0 {
				b = 2
			}
			q := int64(c.R.Intn(2000) - 1000)
			for d := int64(-1); d <= 1; d++ {
				a := int64(b)*q + int64(b)/2 + d
				checkCommon(c, a, int64(b))
				if a >= gomath.MinInt32 && a <= gomath.MaxInt32 {
					checkCommon(c, int32(a), b)
				}
				if a >= 0 && b > 0 {
					checkCommon(c, uint64(a), uint64(b))
				}
			}
		})
		r.Group("float", n, func(c *h.Ctx) {
			a, b := genF64(c.R), genF64(c.R)
			q := 3.0
			err := math.Div(a, b, &q)
			c.Check(err == nil && sameFloat(q, a/b), "Div-float64", "Div(%v, %v) = %v, %v", a, b, q, err)
			sq := subF64(3)
			err = math.Div(subF64(a), subF64(b), &sq)
			c.Check(err == nil && sameFloat(float64(sq), a/b), "Div-subfloat64", "Div(%v, %v) = %v, %v", a, b, sq, err)
			a32, b32 := float32(a), float32(b)
			q32 := float32(3)
			err = math.Div(a32, b32, &q32)
			c.Check(err == nil && sameFloat(float64(q32), float64(a32/b32)), "Div-float32", "Div(%v, %v) = %v, %v", a32, b32, q32, err)
			v, v32, sv := a, a32, subF32(a32)
			e1, e2, e3 := math.Abs(&v), math.Abs(&v32), math.Abs(&sv)
			c.Check(e1 == nil && sameFloat(v, gomath.Abs(a)) && e2 == nil && sameFloat(float64(v32), gomath.Abs(float64(a32))) && e3 == nil && sameFloat(float64(sv), gomath.Abs(float64(a32))), "Abs-float", "Abs(%v)", a)
			c.Obs("f", a, b)
		})
		r.Group("big", n, func(c *h.Ctx) {
			R := c.R
			gi := func() *big.Int {
				if R.Intn(3) == 0 {
					return big.NewInt(int64(R.Intn(21) - 10))
				}
				return genBase(R, "*big.Int").(*big.Int)
			}
			a, b := gi(), gi()
			if R.Intn(4) == 0 && b.Sign() != 0 { // near halves
				a = new(big.Int).Mul(b, big.NewInt(int64(R.Intn(9)-4)))
				a.Add(a, new(big.Int).Rsh(b, 1))
				a.Add(a, big.NewInt(int64(R.Intn(3)-1)))
			}
			want := roundDiv(a, b)
			a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
			judge := func(what string, q *big.Int, err error) {
				if want == nil {
					c.Check(errors.Is(err, math.DivByZeroErr), "Div-bigint-zero", "%s: Div(%s, %s): %v, %v", what, a0, b0, q, err)
				} else {
					c.Check(err == nil && q.Cmp(want) == 0, "Div-bigint", "%s: Div(%s, %s) = %v, %v; want %s", what, a0, b0, q, err, want)
				}
			}
			var q *big.Int
			err := math.Div(a, b, &q)
			judge("nil quotient", q, err)
			q2 := big.NewInt(-99)
			err = math.DivBigOps(a, b, &q2)
			judge("DivBigOps", q2, err)
			c.Check(a.Cmp(a0) == 0 && b.Cmp(b0) == 0, "Div-bigint-modifies", "Div(%s, %s) modified an operand: %s, %s", a0, b0, a, b)
			x := new(big.Int).Set(a)
			err = math.Div(x, b, &x)
			judge("quotient is dividend", x, err)
			x = new(big.Int).Set(b)
			err = math.Div(a, x, &x)
			judge("quotient is divisor", x, err)
			v := new(big.Int).Set(a)
			err = math.Abs(&v)
			c.Check(err == nil && v.Cmp(new(big.Int).Abs(a)) == 0, "Abs-bigint", "Abs(%s) = %s, %v", a, v, err)

			ra, rb := genRat(R), genRat(R)
			if R.Intn(20) == 0 {
				rb = new(big.Rat)
			}
			ra0, rb0 := new(big.Rat).Set(ra), new(big.Rat).Set(rb)
			var rq *big.Rat
			err = math.Div(ra, rb, &rq)
			if rb.Sign() == 0 {
				c.Check(errors.Is(err, math.DivByZeroErr), "Div-bigrat-zero", "Div(%s, %s): %v, %v", ra, rb, rq, err)
			} else {
				w := new(big.Rat).Quo(ra0, rb0)
				c.Check(err == nil && rq.Cmp(w) == 0 && ra.Cmp(ra0) == 0 && rb.Cmp(rb0) == 0, "Div-bigrat", "Div(%s, %s) = %v, %v; want %s", ra0, rb0, rq, err, w)
				rx := new(big.Rat).Set(rb)
				err = math.DivBigOps(ra, rx, &rx)
				c.Check(err == nil && rx.Cmp(w) == 0, "Div-bigrat-alias", "Div(%s, %s) = %v, %v; want %s", ra0, rb0, rx, err, w)
			}
			rv := new(big.Rat).Set(ra)
			err = math.Abs(&rv)
			c.Check(err == nil && rv.Cmp(new(big.Rat).Abs(ra)) == 0, "Abs-bigrat", "Abs(%s) = %s, %v", ra, rv, err)

			fa, fb := genBase(R, "*big.Float").(*big.Float), genBase(R, "*big.Float").(*big.Float)
			fa0, fb0 := new(big.Float).Copy(fa), new(big.Float).Copy(fb)
			q64 := new(big.Float).SetPrec(200)
			err = math.Div(fa, fb, &q64)
			if fa.Sign() == 0 && fb.Sign() == 0 || fa.IsInf() && fb.IsInf() {
				c.Check(err != nil, "Div-bigfloat-nan", "Div(%v, %v) = %v without an error", fa, fb, q64)
			} else {
				w := new(big.Float).SetPrec(200).Quo(fa0, fb0)
				c.Check(err == nil && q64.Cmp(w) == 0, "Div-bigfloat", "Div(%v, %v) = %v, %v; want %v", fa0, fb0, q64, err, w)
				var fq *big.Float
				err = math.Div(fa, fb, &fq)
				ok := err == nil
				if ok && !w.IsInf() && w.Sign() != 0 {
					d := new(big.Float).SetPrec(300).Sub(w, fq)
					d.Quo(d, w)
					d.Abs(d)
					ok = d.Cmp(new(big.Float).SetMantExp(big.NewFloat(1), -52)) <= 0
				} else if ok {
					ok = fq.Cmp(w) == 0
				}
				c.Check(ok, "Div-bigfloat-nil", "Div(%v, %v) = %v, %v; want %v", fa0, fb0, fq, err, w)
			}
			c.Check(fa.Cmp(fa0) == 0 && fb.Cmp(fb0) == 0, "Div-bigfloat-modifies", "Div(%v, %v) modified an operand", fa0, fb0)
			fv := new(big.Float).Copy(fa)
			err = math.Abs(&fv)
			c.Check(err == nil && fv.Cmp(new(big.Float).Abs(fa)) == 0, "Abs-bigfloat", "Abs(%v) = %v, %v", fa, fv, err)
			c.Obs("big", a, b, ra, rb)
			c.Ev("big-division")
		})
	})

	h.Register("C05", "random ordered, complex and comparable pairs and triples (with ties, NaN, infinities, signed zeros) and ranges of every open and closed combination with values at, next to and beyond the bounds; a case is non-trivial when it is a distinct pair, or a distinct range and history of set attempts", func(r *h.Run) {
		n := 60000
		if r.Thorough() {
			n = 600000
		}
		r.Group("ordered", n, func(c *h.Ctx) {
			R := c.R
			checkOrdered(c, genInt[int8](R), genInt[int8](R))
			checkOrdered(c, genInt[int64](R), genInt[int64](R))
			checkOrdered(c, genInt[uint64](R), genInt[uint64](R))
			checkOrdered(c, genInt[subI64](R), genInt[subI64](R))
			checkOrdered(c, float32(genF64(R)), float32(genF64(R)))
			a, b := genF64(R), genF64(R)
			checkOrdered(c, a, b)
			checkOrdered(c, a, gomath.Nextafter(a, 0))
			checkOrdered(c, a, a)
			s := func() string {
				b := make([]byte, R.Intn(4))
				for i := range b {
					b[i] = "abA\x00\xff"[R.Intn(5)]
				}
				return string(b)
			}
			checkOrdered(c, s(), s())
			checkOrdered(c, subStr(s()), subStr(s()))
		})
		r.Group("complex", n, func(c *h.Ctx) {
			R := c.R
			g := func() float64 {
				switch R.Intn(12) {
				case 0:
					return gomath.Inf(1 - 2*R.Intn(2))
				case 1:
					return gomath.MaxFloat64
				case 2:
					return gomath.SmallestNonzeroFloat64
				}
				if R.Intn(4) == 0 {
					// squares that overflow or underflow
					return gomath.Ldexp(float64(R.Intn(21)-10), []int{1000, 700, 513, -513, -700, -1060}[R.Intn(6)])
				}
				return float64(R.Intn(21)-10) / 2
			}
			checkComplex(c, complex(g(), g()), complex(g(), g()))
			checkComplex(c, complex64(complex(g(), g())), complex64(complex(g(), g())))
			checkComplex(c, subC64(complex(g(), g())), subC64(complex(g(), g())))
		})
		r.Group("cmp", n, func(c *h.Ctx) {
			R := c.R
			a, b := genRat(R), genRat(R)
			if R.Intn(4) == 0 {
				b = new(big.Rat).Set(a)
			}
			checkCmp(c, a, b)
			checkCmp(c, new(big.Int).Set(a.Num()), new(big.Int).Set(b.Num()))
			checkCmp(c, genBase(R, "*big.Float").(*big.Float), genBase(R, "*big.Float").(*big.Float))
			checkCmp(c, genFar(R), genFar(R))
			checkCmp(c, math.MustDecimal(int64(R.Intn(2001)-1000), uint(R.Intn(4))), math.MustDecimal(int64(R.Intn(2001)-1000), uint(R.Intn(4))))
			c.Obs("cmp", a, b)
		})
		r.Group("range", n, func(c *h.Ctx) {
			R := c.R
			lo := int64(R.Intn(10) - 5)
			hi := lo + int64(R.Intn(6)-1)
			vals := make([]int64, 8)
			for i := range vals {
				vals[i] = lo - 1 + int64(R.Intn(int(hi-lo)+4))
			}
			runRange(c, int8(lo), int8(hi), func(i int) int8 { return int8(vals[i]) })
			runRange(c, lo, hi, func(i int) int64 { return vals[i] })
			runRange(c, uint8(lo+10), uint8(hi+10), func(i int) uint8 { return uint8(vals[i] + 10) })
			runRange(c, subI8(lo), subI8(hi), func(i int) subI8 { return subI8(vals[i]) })
			runRange(c, genInt[int64](R), genInt[int64](R), func(i int) int64 { return genInt[int64](R) })
			f := genF64(R)
			runRange(c, f, f+1, func(i int) float64 {
				switch i % 4 {
				case 0:
					return f
				case 1:
					return f + 1
				case 2:
					return gomath.Nextafter(f+float64(i/4), gomath.Inf(1-2*R.Intn(2)))
				}
				return genF64(R)
			})
			runRange(c, float32(genF64(R)), float32(genF64(R)), func(i int) float32 { return float32(genF64(R)) })
		})
	})
}

func checkOrdered[T constraint.Ordered](c *h.Ctx, a, b T) {
	want := 0
	if a < b {
		want = -1
	} else if b < a {
		want = 1
	}
	got := math.CmpOrdered(a, b)
	c.Check(got == want, "CmpOrdered", "%T CmpOrdered(%v, %v) = %d, want %d", a, a, b, got, want)
	c.Check(math.CmpOrdered(b, a) == -got, "CmpOrdered-anti", "%T CmpOrdered(%v, %v) is not antisymmetric", a, a, b)
	if a == a && b == b {
		lo, hi := a, b
		if want > 0 {
			lo, hi = b, a
		}
		mi, ma := math.MinOrdered(a, b), math.MaxOrdered(a, b)
		c.Check(mi == lo && ma == hi, "MinMaxOrdered", "%T min, max of (%v, %v) = %v, %v", a, a, b, mi, ma)
		c.Ev("ordered-pair")
	}
	c.Obs("o", fmt.Sprintf("%T", a), a, b)
}

func checkComplex[T constraint.Complex](c *h.Ctx, a, b T) {
	x, y := cmplx.Abs(complex128(a)), cmplx.Abs(complex128(b))
	got := math.CmpComplex(a, b)
	mi, ma := math.MinComplex(a, b), math.MaxComplex(a, b)
	is := func(v, w T) bool { return v == w }
	c.Check(math.CmpComplex(b, a) == -got, "CmpComplex-anti", "CmpComplex(%v, %v) is not antisymmetric", a, b)
	near := x == y || gomath.Abs(x-y) <= 1e-9*gomath.Max(x, y)
	if near {
		if x == y && real(complex128(a)) == real(complex128(b)) && imag(complex128(a)) == imag(complex128(b)) {
			c.Check(got == 0, "CmpComplex-eq", "CmpComplex(%v, %v) = %d", a, b, got)
		}
		c.Check((is(mi, a) || is(mi, b)) && (is(ma, a) || is(ma, b)), "MinMaxComplex-member", "min, max of (%v, %v) = %v, %v", a, b, mi, ma)
	} else if x < y {
		c.Check(got == -1 && is(mi, a) && is(ma, b), "CmpComplex", "(%v, %v): cmp %d min %v max %v", a, b, got, mi, ma)
	} else {
		c.Check(got == 1 && is(mi, b) && is(ma, a), "CmpComplex", "(%v, %v): cmp %d min %v max %v", a, b, got, mi, ma)
	}
	c.Ev("complex-pair")
	c.Obs("c", a, b)
}

func checkCmp[T constraint.Cmp[T]](c *h.Ctx, a, b T) {
	mi, ma := math.MinCmp(a, b), math.MaxCmp(a, b)
	k := a.Cmp(b)
	lo, hi := a, b
	if k > 0 {
		lo, hi = b, a
	}
	c.Check(mi.Cmp(lo) == 0 && (mi == a || mi == b) && ma.Cmp(hi) == 0 && (ma == a || ma == b), "MinMaxCmp", "%T min, max of (%v, %v) = %v, %v", a, a, b, mi, ma)
}

// runRange monitors a history of set attempts against the interval model.
func runRange[T constraint.IntegerAndFloat](c *h.Ctx, lo, hi T, val func(i int) T) {
	lm, hm := math.RangeMode(c.R.Intn(2) == 0), math.RangeMode(c.R.Intn(2) == 0)
	in := func(v T) bool {
		return (v > lo || (lm == math.Closed && v == lo)) && (v < hi || (hm == math.Closed && v == hi))
	}
	initial := val(0)
	valid := lo < hi && in(initial)
	var rg math.Range[T]
	pv, p := h.Panics(func() { rg = math.OfRange(lo, lm, hi, hm, initial) })
	c.Obs("r", fmt.Sprintf("%T", lo), lo, hi, lm, hm, initial)
	if lo != lo || hi != hi { // NaN bounds hold nothing
		c.Check(p, "OfRange-nan", "OfRange(%v, %v, %v, %v, %v) accepted a NaN bound", lo, lm, hi, hm, initial)
		return
	}
	if !c.Check(p != valid, "OfRange", "%T OfRange(%v, %v, %v, %v, %v): panic %v %v, want panic %v", lo, lo, lm, hi, hm, initial, p, pv, !valid) || p {
		c.Ev("range-refused")
		return
	}
	cur := initial
	copyOf := rg
	for i := 1; i < 8; i++ {
		v := val(i)
		err := rg.SetValue(v)
		if in(v) {
			c.Check(err == nil, "Range-set", "%T [%v %v %v %v] SetValue(%v) refused: %v", lo, lo, lm, hi, hm, v, err)
			cur = v
			c.Ev("range-set")
		} else {
			c.Check(err != nil, "Range-set-outside", "%T [%v %v %v %v] SetValue(%v) accepted", lo, lo, lm, hi, hm, v)
			c.Ev("range-set-refused")
		}
		c.Check(rg.GetValue() == cur, "Range-value", "%T [%v %v %v %v] value %v after SetValue(%v), want %v", lo, lo, lm, hi, hm, rg.GetValue(), v, cur)
		a, am := rg.GetMin()
		b, bm := rg.GetMax()
		c.Check(a == lo && am == lm && b == hi && bm == hm, "Range-bounds", "bounds changed")
	}
	c.Check(copyOf.GetValue() == initial, "Range-copy", "a copy of a range follows the original")
}

// far is compared by its method, which returns any number below or above zero; values that compare equal may differ
type far struct{ V, Tag int }

func (f far) Cmp(o far) int { return (f.V - o.V) * 1000003 }

func genFar(R *rand.Rand) far { return far{R.Intn(9) - 4, R.Intn(3)} }
