package p

import (
	"fmt"
	gomath "math"
	"math/big"
	"math/rand"
	"regexp"
	"strings"

	"github.com/bantling/micro/math"

	"verif/h"
)

const decMax = 999_999_999_999_999_999

var (
	pow10     [60]*big.Int
	reDecText = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?$`)
	reDecIn   = regexp.MustCompile(`^-?[0-9]*\.?[0-9]*$`)
)

func init() {
	for i := range pow10 {
		pow10[i] = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(i)), nil)
	}
}

func genDecInt(R *rand.Rand) int64 {
	var v int64
	switch R.Intn(8) {
	case 0:
		v = int64(R.Intn(30))
	case 1:
		v = decMax - int64(R.Intn(12))
	case 2:
		v = pow10[R.Intn(18)].Int64() + int64(R.Intn(3)-1)
	case 3:
		v = pow10[R.Intn(17)].Int64() * 5
	case 4:
		v = pow10[R.Intn(18)].Int64()
		v *= int64(R.Intn(9) + 1)
	case 5: // repeated digits
		d := int64(R.Intn(10))
		for k := R.Intn(18); k >= 0; k-- {
			v = v*10 + d
		}
		if R.Intn(2) == 0 && v < decMax-10 {
			v += int64(R.Intn(10))
		}
	case 6:
		v = 1 << uint(R.Intn(60))
	default:
		v = R.Int63n(pow10[1+R.Intn(18)].Int64())
	}
	if v > decMax {
		v = decMax
	}
	if R.Intn(2) == 0 {
		v = -v
	}
	return v
}

func ratOfScaled(v int64, scale uint) *big.Rat {
	return new(big.Rat).SetFrac(big.NewInt(v), pow10[scale])
}

type dec struct {
	d math.Decimal
	v *big.Rat
}

// decRat reads a decimal through its text form, which C06 checks against the construction arguments.
func decRat(d math.Decimal) *big.Rat {
	r, ok := new(big.Rat).SetString(d.String())
	if !ok {
		return nil
	}
	return r
}

func genDec(R *rand.Rand) dec {
	v, s := genDecInt(R), uint(R.Intn(19))
	switch R.Intn(3) {
	case 0:
		s = uint(R.Intn(3))
	}
	if R.Intn(2) == 0 {
		return dec{math.MustDecimal(v, s), ratOfScaled(v, s)}
	}
	return dec{math.MustDecimal(v, s, false), ratOfScaled(v, s)}
}

// minScale is the least scale that represents r, or -1
func minScale(r *big.Rat) int {
	for s := 0; s <= 18; s++ {
		if new(big.Rat).Mul(r, new(big.Rat).SetInt(pow10[s])).IsInt() {
			return s
		}
	}
	return -1
}

// roundAt rounds r half away from zero at scale s, returning the scaled integer
func roundAt(r *big.Rat, s int) *big.Int {
	n := new(big.Int).Mul(r.Num(), pow10[s])
	return roundDiv(n, r.Denom())
}

var bigDecMax = big.NewInt(decMax)

// bestDec is r rounded half away from zero to the largest scale <= maxScale that needs at most 18 digits
func bestDec(r *big.Rat, maxScale int) (*big.Rat, bool) {
	for s := maxScale; s >= 0; s-- {
		i := roundAt(r, s)
		if i.CmpAbs(bigDecMax) <= 0 {
			return new(big.Rat).SetFrac(i, pow10[s]), true
		}
	}
	return nil, false
}

// wellFormed checks what must hold for any decimal
func wellFormed(c *h.Ctx, what string, d math.Decimal) bool {
	s := d.String()
	r := decRat(d)
	if !c.Check(reDecText.MatchString(s) && r != nil && !(strings.HasPrefix(s, "-") && r.Sign() == 0), "malformed", "%s: text %q", what, s) {
		return false
	}
	digits := strings.NewReplacer("-", "", ".", "").Replace(s)
	frac := ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		frac = s[i+1:]
	}
	ok := c.Check(d.Precision() == len(digits), "Precision", "%s: %s precision %d", what, s, d.Precision())
	ok = c.Check(int(d.Scale()) == len(frac) && d.Scale() <= 18, "Scale", "%s: %s scale %d", what, s, d.Scale()) && ok
	ok = c.Check(len(strings.TrimLeft(digits, "0")) <= 18, "too-many-digits", "%s: %s has more than 18 digits", what, s) && ok
	ok = c.Check(d.Sign() == r.Sign(), "Sign", "%s: %s sign %d", what, s, d.Sign()) && ok
	ok = c.Check(d.MagnitudeLessThanOne() == (new(big.Rat).Abs(r).Cmp(big.NewRat(1, 1)) < 0), "MagnitudeLessThanOne", "%s: %s", what, s) && ok
	return ok
}

func isDec(c *h.Ctx, sig, what string, d math.Decimal, want *big.Rat) bool {
	if !wellFormed(c, what, d) {
		return false
	}
	return c.Check(decRat(d).Cmp(want) == 0, sig, "%s = %s, want %s", what, d, want.FloatString(20))
}

func init() {
	h.Register("C06", "decimals built from boundary-biased 18 digit values and every scale, decimal and malformed text, and pairs of them; a case is non-trivial when it is a distinct (value, scale, normalization) or text, and the events count constructions, refusals, comparisons and alignments observed", func(r *h.Run) {
		n := 80000
		if r.Thorough() {
			n = 900000
		}
		r.Group("construct", n, func(c *h.Ctx) {
			R := c.R
			v, s := genDecInt(R), uint(R.Intn(19))
			switch R.Intn(12) {
			case 0:
				s = uint(19 + R.Intn(3))
			case 1:
				v = []int64{decMax + 1, -decMax - 1, gomath.MaxInt64, gomath.MinInt64, gomath.MinInt64 + 1, decMax, -decMax}[R.Intn(7)]
			case 2:
				s = []uint{gomath.MaxUint, 1 << 32, 256}[R.Intn(3)]
			}
			var opt []bool
			if k := R.Intn(3); k > 0 {
				opt = []bool{k == 1}
			}
			norm := len(opt) == 0 || opt[0]
			what := fmt.Sprintf("OfDecimal(%d, %d, %v)", v, s, opt)
			d, err := math.OfDecimal(v, s, opt...)
			valid := s <= 18 && v <= decMax && v >= -decMax
			c.Check((err == nil) == valid, "OfDecimal-error", "%s: error %v", what, err)
			_, p := h.Panics(func() { math.MustDecimal(v, s, opt...) })
			c.Check(p == !valid, "MustDecimal", "%s panic %v", what, p)
			c.Obs(v, s, norm)
			if err != nil || !valid {
				c.Ev("refused")
				return
			}
			c.Ev("constructed")
			want := ratOfScaled(v, s)
			if !isDec(c, "OfDecimal-value", what, d, want) {
				return
			}
			c.Check(d.Normalized() == norm, "Normalized", "%s: Normalized() = %v", what, d.Normalized())
			ws := s
			if norm {
				ws = uint(minScale(want))
			} else if v == 0 {
				ws = d.Scale() // a denormalized zero may or may not keep its decimals
			}
			c.Check(d.Scale() == ws, "OfDecimal-scale", "%s: scale %d, want %d", what, d.Scale(), ws)
			// text round trip
			t, err := math.StringToDecimal(d.String())
			if c.Check(err == nil, "text-roundtrip", "%s: StringToDecimal(%q): %v", what, d.String(), err) {
				isDec(c, "text-roundtrip", what+" text round trip", t, want)
			}
			// negate
			isDec(c, "Negate", what+".Negate()", d.Negate(), new(big.Rat).Neg(want))
			c.Check(d.Negate().Normalized() == norm, "Negate-normalized", "%s.Negate() changes normalization", what)
			// normalize
			e := d
			e.Normalize()
			isDec(c, "Normalize", what+".Normalize()", e, want)
			c.Check(int(e.Scale()) == minScale(want), "Normalize-scale", "%s.Normalize() scale %d", what, e.Scale())
			isDec(c, "Normalize-copy", what+" after normalizing a copy", d, want)
			if c.Idx < 3 {
				c.Sample("%s = %s", what, d)
			}
		})
		r.Group("text", n, func(c *h.Ctx) {
			R := c.R
			var s string
			switch R.Intn(6) {
			case 0:
				s = garbage[R.Intn(len(garbage))]
			case 1:
				s = genText(R)
			case 2:
				b := make([]byte, R.Intn(8))
				for i := range b {
					b[i] = "0123456789.--+ex \n"[R.Intn(18)]
				}
				s = string(b)
			default:
				digits := func(n int) string {
					b := make([]byte, n)
					for i := range b {
						b[i] = byte('0' + R.Intn(10))
						if R.Intn(3) == 0 {
							b[i] = "09"[R.Intn(2)]
						}
					}
					return string(b)
				}
				a := R.Intn(20)
				s = digits(a)
				if R.Intn(8) == 0 {
					s = strings.Repeat("0", []int{1, 20, 70, 300}[R.Intn(4)]+R.Intn(10)) + s
				}
				if R.Intn(4) > 0 {
					s += "." + digits(R.Intn(22-a))
				}
				if R.Intn(3) == 0 {
					s = "-" + s
				}
				if R.Intn(5) == 0 {
					k := R.Intn(len(s) + 1)
					s = s[:k] + string(" x.-+e\n_0"[R.Intn(9)]) + s[k:]
				}
			}
			d, err := math.StringToDecimal(s)
			_, p := h.Panics(func() { math.MustStringToDecimal(s) })
			c.Check(p == (err != nil), "MustStringToDecimal", "MustStringToDecimal(%q) panic %v, error %v", s, p, err)
			body := strings.TrimPrefix(s, "-")
			ip, fp := body, ""
			if i := strings.IndexByte(body, '.'); i >= 0 {
				ip, fp = body[:i], body[i+1:]
			}
			number := reDecIn.MatchString(s) && len(ip)+len(fp) > 0
			must := number && len(strings.TrimLeft(ip, "0"))+len(fp) <= 18
			may := number && len(strings.TrimLeft(ip+fp, "0")) <= 18
			c.Obs("t", s)
			if err != nil {
				c.Check(!must, "StringToDecimal-refused", "StringToDecimal(%q): %v", s, err)
				c.Ev("text-refused")
				return
			}
			if !c.Check(may, "StringToDecimal-accepted", "StringToDecimal(%q) = %s", s, d) {
				return
			}
			c.Ev("text-accepted")
			x := ip
			if x == "" {
				x = "0"
			}
			if fp != "" {
				x += "." + fp
			}
			want, _ := new(big.Rat).SetString(x)
			if s[0] == '-' {
				want.Neg(want)
			}
			isDec(c, "StringToDecimal-value", fmt.Sprintf("StringToDecimal(%q)", s), d, want)
		})
		r.Group("pair", n, func(c *h.Ctx) {
			R := c.R
			a, b := genDec(R), genDec(R)
			switch R.Intn(6) {
			case 0: // same value, another scale
				if s := a.d.Scale(); s < 18 {
					b = dec{a.d, a.v}
					k := roundAt(a.v, int(s))
					k.Mul(k, pow10[1])
					if k.CmpAbs(bigDecMax) <= 0 {
						b = dec{math.MustDecimal(k.Int64(), s+1, false), a.v}
					}
				}
			case 1:
				b = dec{a.d.Negate(), new(big.Rat).Neg(a.v)}
			case 2: // neighbours
				s := a.d.Scale()
				k := roundAt(a.v, int(s))
				k.Add(k, big.NewInt(int64(R.Intn(3)-1)))
				if k.CmpAbs(bigDecMax) <= 0 {
					b = dec{math.MustDecimal(k.Int64(), s, false), ratOfScaled(k.Int64(), s)}
				}
			case 3:
				b = dec{math.Decimal{}, new(big.Rat)}
			}
			want := a.v.Cmp(b.v)
			got := a.d.Cmp(b.d)
			c.Check(got == want, "Cmp", "(%s).Cmp(%s) = %d, want %d", a.d, b.d, got, want)
			c.Check(b.d.Cmp(a.d) == -want, "Cmp", "(%s).Cmp(%s) = %d, want %d", b.d, a.d, b.d.Cmp(a.d), -want)
			c.Ev(fmt.Sprintf("cmp%+d", want))
			// formats
			f, g := math.AdjustDecimalFormat(a.d, b.d)
			okf := func(s string, v *big.Rat) bool {
				if len(s) < 2 || s[0] != ' ' && s[0] != '-' || (s[0] == '-') != (v.Sign() < 0) {
					return false
				}
				w, ok := new(big.Rat).SetString(strings.TrimPrefix(s, " "))
				return ok && w.Cmp(v) == 0
			}
			c.Check(len(f) == len(g) && strings.IndexByte(f, '.') == strings.IndexByte(g, '.') && okf(f, a.v) && okf(g, b.v), "AdjustDecimalFormat", "AdjustDecimalFormat(%s, %s) = %q, %q", a.d, b.d, f, g)
			wf := map[bool]int{}
			for i, x := range []string{a.d.String(), b.d.String()} {
				x = strings.TrimPrefix(x, "-")
				l := strings.IndexByte(x, '.')
				if l < 0 {
					l = len(x)
				}
				if l > wf[true] {
					wf[true] = l
				}
				if fr := len(x) - l; fr > wf[false] {
					wf[false] = fr
				}
				_ = i
			}
			c.Check(len(f) == 1+wf[true]+wf[false], "AdjustDecimalFormat-width", "AdjustDecimalFormat(%s, %s) = %q, %q", a.d, b.d, f, g)
			// scales
			x, y := a.d, b.d
			err := math.AdjustDecimalScale(&x, &y)
			x2, y2 := a.d, b.d
			_, p := h.Panics(func() { math.MustAdjustDecimalScale(&x2, &y2) })
			c.Check(p == (err != nil), "MustAdjustDecimalScale", "MustAdjustDecimalScale(%s, %s) panic %v, error %v", a.d, b.d, p, err)
			what := fmt.Sprintf("AdjustDecimalScale(%s, %s)", a.d, b.d)
			lo, hi := a, b
			rlo, rhi := x, y
			if a.d.Scale() > b.d.Scale() {
				lo, hi, rlo, rhi = b, a, y, x
			}
			fits := roundAt(lo.v, int(hi.d.Scale())).CmpAbs(bigDecMax) <= 0
			lv := roundAt(lo.v, int(lo.d.Scale()))
			if err != nil {
				c.Check(!fits && lv.CmpAbs(big.NewInt(decMax-5)) > 0, "AdjustDecimalScale-refused", "%s: %v", what, err)
				c.Check(decRat(x).Cmp(a.v) == 0 && decRat(y).Cmp(b.v) == 0, "AdjustDecimalScale-partial", "%s failed but changed the values to %s, %s", what, x, y)
				c.Ev("align-refused")
				return
			}
			if !wellFormed(c, what, x) || !wellFormed(c, what, y) {
				return
			}
			c.Check(x.Scale() == y.Scale(), "AdjustDecimalScale-scale", "%s: %s, %s", what, x, y)
			if fits {
				c.Check(decRat(rlo).Cmp(lo.v) == 0 && decRat(rhi).Cmp(hi.v) == 0 && rlo.Scale() == hi.d.Scale(), "AdjustDecimalScale-exact", "%s = %s, %s", what, x, y)
				c.Ev("align-exact")
			} else {
				w := new(big.Rat).SetFrac(roundAt(hi.v, int(lo.d.Scale())), pow10[lo.d.Scale()])
				c.Check(decRat(rlo).Cmp(lo.v) == 0 && decRat(rhi).Cmp(w) == 0, "AdjustDecimalScale-round", "%s = %s, %s, want %s rounded to %s", what, x, y, hi.d, w.FloatString(18))
				c.Ev("align-rounded")
			}
			c.Obs("p", a.d, b.d, a.d.Normalized(), b.d.Normalized())
		})
	})

	h.Register("C07", "chains of random decimal operations on boundary-biased operands (near 18 digits, repeating quotients, ties, powers of ten, zero), every step judged by exact rational arithmetic; a case is non-trivial when it is a distinct operation and operand pair, and the events count exact, rounded and refused results observed", func(r *h.Run) {
		n := 180000
		if r.Thorough() {
			n = 1500000
		}
		r.Group("chain", n, func(c *h.Ctx) {
			R := c.R
			x := genDec(R)
			for k := 0; k < 4; k++ {
				y := genDec(R)
				switch R.Intn(5) {
				case 0:
					v := int64(R.Intn(30))
					y = dec{math.MustDecimal(v, uint(R.Intn(3)), false), nil}
				case 1:
					y = dec{x.d.Negate(), nil}
				}
				y.v = decRat(y.d)
				op := R.Intn(4)
				z, ok := checkArith(c, op, x, y)
				if !ok || z.v == nil || R.Intn(4) == 0 {
					x = genDec(R)
				} else {
					x = z
				}
			}
		})
		r.Group("near-limit-product", n/3, func(c *h.Ctx) {
			// factor pairs whose product has 17 to 20 digits, or rounds to a run of nines
			R := c.R
			a := R.Int63n(pow10[2+R.Intn(16)].Int64()) + 1
			t := new(big.Int).Set(pow10[17+R.Intn(4)])
			t.Sub(t, big.NewInt(int64(R.Intn(20))))
			b := t.Quo(t, big.NewInt(a))
			if b.Cmp(bigDecMax) > 0 || b.Sign() == 0 {
				b = big.NewInt(7)
			}
			sa, sb := uint(R.Intn(19)), uint(R.Intn(19))
			x := dec{math.MustDecimal(a, sa, false), ratOfScaled(a, sa)}
			y := dec{math.MustDecimal(b.Int64(), sb, false), ratOfScaled(b.Int64(), sb)}
			checkArith(c, 2, x, y)
			checkArith(c, 2, y, dec{x.d.Negate(), new(big.Rat).Neg(x.v)})
			checkArith(c, 3, x, y)
		})
		r.Group("ties", n/3, func(c *h.Ctx) {
			// products and quotients that are halfway between two results when digits are dropped, or next to halfway
			R := c.R
			drop := 1 + R.Intn(18)
			a, b := big.NewInt(1), big.NewInt(1)
			put := func(f int64) {
				t := a
				if R.Intn(2) == 0 {
					t = b
				}
				if x := new(big.Int).Mul(t, big.NewInt(f)); x.Cmp(bigDecMax) <= 0 {
					t.Set(x)
				}
			}
			for i := 0; i < drop; i++ {
				put(5)
				if i > 0 {
					put(2)
				}
			}
			for k := R.Intn(5); k > 0; k-- {
				put([]int64{3, 7, 1 + 2*R.Int63n(50), 1 + 2*R.Int63n(50000000)}[R.Intn(4)])
			}
			if R.Intn(3) == 0 {
				if a.Add(a, big.NewInt(int64(R.Intn(3)-1))); a.CmpAbs(bigDecMax) > 0 {
					return
				}
			}
			sa, sb := uint(R.Intn(19)), uint(R.Intn(19))
			if R.Intn(2) == 0 {
				sa, sb = 18, uint(drop)
			}
			if R.Intn(4) == 0 {
				a.Neg(a)
			}
			x := dec{math.MustDecimal(a.Int64(), sa, R.Intn(4) > 0), ratOfScaled(a.Int64(), sa)}
			y := dec{math.MustDecimal(b.Int64(), sb, R.Intn(4) > 0), ratOfScaled(b.Int64(), sb)}
			checkArith(c, 2, x, y)
			checkArith(c, 2, y, x)
			// a quotient by two, four, ..., of an odd number of the smallest units
			d := int64(2) << R.Intn(4)
			v := genDecInt(R) | 1
			if v > decMax || v < -decMax {
				v = 7
			}
			p := dec{math.MustDecimal(v, 18, false), ratOfScaled(v, 18)}
			checkArith(c, 3, p, dec{math.MustDecimal(d, 0, false), ratOfScaled(d, 0)})
			c.Ev("ties")
		})
		r.Group("div-int-large", 6, func(c *h.Ctx) {
			o := int64(1)<<(16+c.Idx) + c.R.Int63n(1000)
			v := o*(1+c.R.Int63n(1000)) + o - 1 - c.R.Int63n(5)
			if c.Idx%2 == 0 {
				v = -v
			}
			d := math.MustDecimal(v, uint(c.R.Intn(3)), c.Idx%2 == 0)
			parts, err := d.DivIntAdd(uint(o))
			if !c.Check(err == nil && int64(len(parts)) == o, "DivIntAdd-large", "(%s).DivIntAdd(%d): %d parts, %v", d, o, len(parts), err) {
				return
			}
			var (
				sum  = new(big.Int)
				unit = d.Scale()
				last = new(big.Rat).Abs(decRat(parts[0]))
			)
			for i, e := range parts {
				r := decRat(e)
				u := new(big.Rat).Mul(r, new(big.Rat).SetInt(pow10[unit]))
				ab := new(big.Rat).Abs(r)
				if !c.Check(u.IsInt() && ab.Cmp(last) <= 0, "DivIntAdd-large", "(%s).DivIntAdd(%d): part %d is %s", d, o, i, e) {
					return
				}
				last = ab
				sum.Add(sum, u.Num())
			}
			c.Check(sum.Cmp(new(big.Rat).Mul(decRat(d), new(big.Rat).SetInt(pow10[unit])).Num()) == 0, "DivIntAdd-large", "(%s).DivIntAdd(%d) adds up to %s units", d, o, sum)
			c.EvN("parts of large divisions", int(o))
			c.Obs("dia", d, o)
		})
		r.Group("div-int", n/2, func(c *h.Ctx) {
			R := c.R
			x := genDec(R)
			ip := new(big.Int).Quo(x.v.Num(), x.v.Denom())
			ip.Abs(ip)
			var o uint
			switch R.Intn(7) {
			case 0:
				o = 0
			case 1:
				o = uint(ip.Uint64()) + uint(R.Intn(3)) - 1
			case 2:
				o = gomath.MaxUint - uint(R.Intn(3))
			case 3:
				o = gomath.MaxInt64 + uint(R.Intn(3))
			case 4:
				o = uint(genDecInt(R))
			default:
				o = uint(R.Intn(40))
			}
			what := fmt.Sprintf("(%s).DivIntQuoRem(%d)", x.d, o)
			q, rem, err := x.d.DivIntQuoRem(o)
			valid := o != 0 && new(big.Int).SetUint64(uint64(o)).Cmp(ip) <= 0
			c.Check((err == nil) == valid, "DivIntQuoRem-error", "%s: %s, %s, %v", what, q, rem, err)
			_, p := h.Panics(func() { x.d.MustDivIntQuoRem(o) })
			c.Check(p == !valid, "MustDivIntQuoRem", "%s panic %v", what, p)
			c.Obs("i", x.d, o)
			unit := new(big.Rat).SetFrac(big.NewInt(1), pow10[x.d.Scale()])
			O := new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(o)))
			if valid && err == nil {
				c.Ev("quo-rem")
				if wellFormed(c, what, q) && wellFormed(c, what, rem) {
					qv, rv := decRat(q), decRat(rem)
					sum := new(big.Rat).Mul(qv, O)
					sum.Add(sum, rv)
					c.Check(sum.Cmp(x.v) == 0, "DivIntQuoRem-sum", "%s = %s remainder %s", what, q, rem)
					lim := new(big.Rat).Mul(unit, O)
					c.Check(new(big.Rat).Abs(rv).Cmp(lim) < 0 && rv.Sign()*x.v.Sign() >= 0, "DivIntQuoRem-rem", "%s = %s remainder %s", what, q, rem)
					c.Check(q.Scale() == x.d.Scale() && (rem.Scale() == x.d.Scale() || rv.Sign() == 0), "DivIntQuoRem-scale", "%s = %s remainder %s", what, q, rem)
				}
			} else {
				c.Ev("quo-rem-refused")
			}
			if valid && o > 2000 {
				return
			}
			what = fmt.Sprintf("(%s).DivIntAdd(%d)", x.d, o)
			parts, err := x.d.DivIntAdd(o)
			c.Check((err == nil) == valid, "DivIntAdd-error", "%s: %v, %v", what, parts, err)
			_, p = h.Panics(func() { x.d.MustDivIntAdd(o) })
			c.Check(p == !valid, "MustDivIntAdd", "%s panic %v", what, p)
			if err != nil || !valid {
				return
			}
			c.Ev("div-add")
			c.Check(uint(len(parts)) == o, "DivIntAdd-count", "%s: %d parts", what, len(parts))
			sum := new(big.Rat)
			var first, last *big.Rat
			for i, e := range parts {
				if !wellFormed(c, what, e) {
					return
				}
				v := decRat(e)
				sum.Add(sum, v)
				if i == 0 {
					first = v
				} else {
					c.Check(new(big.Rat).Abs(v).Cmp(new(big.Rat).Abs(last)) <= 0, "DivIntAdd-order", "%s: part %d is %s", what, i, e)
				}
				last = v
			}
			c.Check(sum.Cmp(x.v) == 0, "DivIntAdd-sum", "%s adds up to %s", what, sum.FloatString(18))
			if last != nil {
				d := new(big.Rat).Sub(first, last)
				c.Check(d.Abs(d).Cmp(unit) <= 0, "DivIntAdd-spread", "%s: first %s last %s", what, parts[0], parts[len(parts)-1])
			}
		})
	})
}

// checkArith judges one arithmetic step by exact rational arithmetic.
func checkArith(c *h.Ctx, op int, x, y dec) (dec, bool) {
	var (
		exact *big.Rat
		z     math.Decimal
		err   error
		must  func() math.Decimal
		name  = [...]string{"Add", "Sub", "Mul", "Div"}[op]
		what  = fmt.Sprintf("(%s).%s(%s)", x.d, name, y.d)
	)
	switch op {
	case 0:
		exact = new(big.Rat).Add(x.v, y.v)
		z, err = x.d.Add(y.d)
		must = func() math.Decimal { return x.d.MustAdd(y.d) }
	case 1:
		exact = new(big.Rat).Sub(x.v, y.v)
		z, err = x.d.Sub(y.d)
		must = func() math.Decimal { return x.d.MustSub(y.d) }
	case 2:
		exact = new(big.Rat).Mul(x.v, y.v)
		z, err = x.d.Mul(y.d)
		must = func() math.Decimal { return x.d.MustMul(y.d) }
	case 3:
		if y.v.Sign() != 0 {
			exact = new(big.Rat).Quo(x.v, y.v)
		}
		z, err = x.d.Div(y.d)
		must = func() math.Decimal { return x.d.MustDiv(y.d) }
	}
	c.Obs(name, x.d, y.d)
	var mz math.Decimal
	_, p := h.Panics(func() { mz = must() })
	c.Check(p == (err != nil) && (p || mz.Cmp(z) == 0), "Must"+name, "Must form of %s: panic %v, error %v", what, p, err)
	var (
		want   *big.Rat // the required result when there is no error
		mayErr bool     // an error is acceptable
		mustOk = true
	)
	switch op {
	case 0, 1:
		lo, hi := x, y
		if lo.d.Scale() > hi.d.Scale() {
			lo, hi = hi, lo
		}
		ls, hs := int(lo.d.Scale()), int(hi.d.Scale())
		if roundAt(lo.v, hs).CmpAbs(bigDecMax) <= 0 {
			want = exact
			mayErr = roundAt(exact, hs).CmpAbs(bigDecMax) > 0
			mustOk = minScale(exact) >= 0 && roundAt(exact, minScale(exact)).CmpAbs(bigDecMax) <= 0
		} else {
			// one operand is rounded to the decimals of the other one, which has no room for more
			w := new(big.Rat).SetFrac(roundAt(hi.v, ls), pow10[ls])
			switch {
			case op == 1 && lo.d == x.d && hi.d == y.d:
				w.Sub(x.v, w)
			case op == 1:
				w.Sub(w, y.v)
			default:
				w.Add(lo.v, w)
			}
			want = w
			mustOk = roundAt(w, ls).CmpAbs(bigDecMax) <= 0
			mayErr = !mustOk || roundAt(lo.v, ls).CmpAbs(big.NewInt(decMax-5)) > 0
		}
	case 2:
		// no result may carry more decimals than the exact product
		want, mustOk = bestDec(exact, 18)
		mayErr = !mustOk
	case 3:
		if exact == nil {
			mustOk, mayErr = false, true
			break
		}
		want, mustOk = bestDec(exact, 18)
		// a divisor near 18 digits is documented to overflow
		mayErr = !mustOk || roundAt(y.v, int(y.d.Scale())).CmpAbs(pow10[17]) > 0
	}
	if err != nil {
		c.Ev(name + "-refused")
		c.Check(mayErr, name+"-refused", "%s: %v", what, err)
		return dec{}, false
	}
	if !c.Check(mustOk, name+"-accepted", "%s = %s, which cannot be the result", what, z) {
		return dec{}, false
	}
	if !isDec(c, name, what, z, want) {
		return dec{}, false
	}
	if want.Cmp(exact) == 0 {
		c.Ev(name + "-exact")
	} else {
		c.Ev(name + "-rounded")
	}
	if z.Normalized() {
		c.Check(int(z.Scale()) == minScale(want), name+"-normalized", "%s = %s is not normalized", what, z)
	}
	c.Check(z.Normalized() == x.d.Normalized(), name+"-normalized-flag", "%s: normalized %v, dividend %v", what, z.Normalized(), x.d.Normalized())
	return dec{z, want}, true
}
