package p

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

// num is an exact extended real: a rational, NaN or an infinity.
type num struct {
	k byte // 'r', 'n', '+', '-', '0' = nil pointer
	r *big.Rat
}

func (n num) String() string {
	switch n.k {
	case 'r':
		return n.r.RatString()
	case 'n':
		return "NaN"
	case '0':
		return "nil"
	}
	return string(n.k) + "Inf"
}

func (n num) eq(m num) bool { return n.k == m.k && (n.k != 'r' || n.r.Cmp(m.r) == 0) }

func ratNum(r *big.Rat) num { return num{'r', r} }

func ratOfInt(i *big.Int) *big.Rat { return new(big.Rat).SetInt(new(big.Int).Set(i)) }

func floatNum(f float64) num {
	switch {
	case math.IsNaN(f):
		return num{k: 'n'}
	case math.IsInf(f, 1):
		return num{k: '+'}
	case math.IsInf(f, -1):
		return num{k: '-'}
	}
	return ratNum(new(big.Rat).SetFloat64(f))
}

// exactOf gives the exact value of any numeric base type.
func exactOf(v any) num {
	switch t := v.(type) {
	case int:
		return ratNum(new(big.Rat).SetInt64(int64(t)))
	case int8:
		return ratNum(new(big.Rat).SetInt64(int64(t)))
	case int16:
		return ratNum(new(big.Rat).SetInt64(int64(t)))
	case int32:
		return ratNum(new(big.Rat).SetInt64(int64(t)))
	case int64:
		return ratNum(new(big.Rat).SetInt64(t))
	case uint:
		return ratNum(new(big.Rat).SetUint64(uint64(t)))
	case uint8:
		return ratNum(new(big.Rat).SetUint64(uint64(t)))
	case uint16:
		return ratNum(new(big.Rat).SetUint64(uint64(t)))
	case uint32:
		return ratNum(new(big.Rat).SetUint64(uint64(t)))
	case uint64:
		return ratNum(new(big.Rat).SetUint64(t))
	case float32:
		return floatNum(float64(t))
	case float64:
		return floatNum(t)
	case *big.Int:
		if t == nil {
			return num{k: '0'}
		}
		return ratNum(ratOfInt(t))
	case *big.Float:
		if t == nil {
			return num{k: '0'}
		}
		if t.IsInf() {
			if t.Sign() > 0 {
				return num{k: '+'}
			}
			return num{k: '-'}
		}
		r, _ := t.Rat(nil)
		return ratNum(r)
	case *big.Rat:
		if t == nil {
			return num{k: '0'}
		}
		return ratNum(new(big.Rat).Set(t))
	}
	panic(fmt.Sprintf("exactOf %T", v))
}

var intBounds = map[string][2]*big.Int{}

func init() {
	for _, b := range []int{8, 16, 32, 64} {
		h := new(big.Int).Lsh(big.NewInt(1), uint(b-1))
		f := new(big.Int).Lsh(big.NewInt(1), uint(b))
		intBounds[fmt.Sprintf("int%d", b)] = [2]*big.Int{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
		intBounds[fmt.Sprintf("uint%d", b)] = [2]*big.Int{big.NewInt(0), new(big.Int).Sub(f, big.NewInt(1))}
	}
	intBounds["int"] = intBounds[fmt.Sprintf("int%d", strconv.IntSize)]
	intBounds["uint"] = intBounds[fmt.Sprintf("uint%d", strconv.IntSize)]
}

func inBounds(i *big.Int, typ string) bool {
	b := intBounds[typ]
	return i.Cmp(b[0]) >= 0 && i.Cmp(b[1]) <= 0
}

// genRat generates interesting rationals.
func genRat(R *rand.Rand) *big.Rat {
	sgn := func(r *big.Rat) *big.Rat {
		if R.Intn(2) == 0 {
			r.Neg(r)
		}
		return r
	}
	pow2 := func(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
	switch R.Intn(10) {
	case 0:
		if R.Intn(2) == 0 {
			return sgn(big.NewRat(R.Int63n(1000), 1+R.Int63n(1000)))
		}
		return big.NewRat(int64(R.Intn(601)-300), 1)
	case 1:
		i := pow2(R.Intn(131))
		i.Add(i, big.NewInt(int64(R.Intn(5)-2)))
		return sgn(new(big.Rat).SetInt(i))
	case 2:
		return sgn(new(big.Rat).SetFrac(big.NewInt(int64(R.Intn(2000))), pow2(R.Intn(12))))
	case 3:
		den := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(R.Intn(25))), nil)
		return sgn(new(big.Rat).SetFrac(new(big.Int).Rand(R, pow2(1+R.Intn(80))), den))
	case 4:
		f := math.Float64frombits(R.Uint64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		return new(big.Rat).SetFloat64(f)
	case 5:
		f := math.Float32frombits(R.Uint32())
		if math.IsNaN(float64(f)) || math.IsInf(float64(f), 0) {
			f = 2.5
		}
		return new(big.Rat).SetFloat64(float64(f))
	case 6:
		i := new(big.Int).Rand(R, pow2(1+R.Intn(300)))
		if R.Intn(2) == 0 {
			return sgn(new(big.Rat).SetInt(i))
		}
		return sgn(new(big.Rat).SetFrac(i, pow2(R.Intn(300))))
	case 7:
		return sgn(big.NewRat(R.Int63(), 1+R.Int63n(1<<uint(1+R.Intn(61)))))
	case 8:
		fs := []float64{math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32 * 1.0000001,
			math.SmallestNonzeroFloat32 / 2, 1 << 24, 1<<24 + 1, 1 << 53, 1<<53 + 2, 0.1, 1.0 / 3, 1e22, 1e23, 123456789012, 9007199254740993, 1e15, 12345678901.5, 2.2250738585072014e-308, 1.1754943508222875e-38}
		f := fs[R.Intn(len(fs))]
		switch R.Intn(3) {
		case 0:
			f = math.Nextafter(f, math.Inf(1))
		case 1:
			f = math.Nextafter(f, 0)
		}
		if math.IsInf(f, 0) {
			f = math.MaxFloat64
		}
		return sgn(new(big.Rat).SetFloat64(f))
	}
	names := []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}
	b := intBounds[names[R.Intn(len(names))]][R.Intn(2)]
	r := new(big.Rat).SetInt(b)
	r.Add(r, big.NewRat(int64(R.Intn(5)-2), 1))
	if R.Intn(6) == 0 {
		r.Add(r, big.NewRat(1, 2))
	}
	return r
}

func wrapInt(r *big.Rat, bits uint, signed bool) *big.Int {
	i := new(big.Int).Quo(r.Num(), r.Denom())
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	lo, hi := big.NewInt(0), new(big.Int).Sub(m, big.NewInt(1))
	if signed {
		h := new(big.Int).Rsh(m, 1)
		lo, hi = new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	if i.Cmp(lo) >= 0 && i.Cmp(hi) <= 0 {
		return i
	}
	i.Mod(i, m)
	if signed && i.Cmp(hi) > 0 {
		i.Sub(i, m)
	}
	return i
}

// genBase generates a value of the named base type; strings are generated by genText.
func genBase(R *rand.Rand, typ string) any {
	r := genRat(R)
	switch typ {
	case "int":
		return int(wrapInt(r, strconv.IntSize, true).Int64())
	case "int8":
		return int8(wrapInt(r, 8, true).Int64())
	case "int16":
		return int16(wrapInt(r, 16, true).Int64())
	case "int32":
		return int32(wrapInt(r, 32, true).Int64())
	case "int64":
		return wrapInt(r, 64, true).Int64()
	case "uint":
		return uint(wrapInt(r, strconv.IntSize, false).Uint64())
	case "uint8":
		return uint8(wrapInt(r, 8, false).Uint64())
	case "uint16":
		return uint16(wrapInt(r, 16, false).Uint64())
	case "uint32":
		return uint32(wrapInt(r, 32, false).Uint64())
	case "uint64":
		return wrapInt(r, 64, false).Uint64()
	case "float32":
		switch R.Intn(40) {
		case 0:
			return float32(math.NaN())
		case 1:
			return float32(math.Inf(1))
		case 2:
			return float32(math.Inf(-1))
		case 3:
			return float32(math.Copysign(0, -1))
		}
		f, _ := r.Float32()
		return f
	case "float64":
		switch R.Intn(40) {
		case 0:
			return math.NaN()
		case 1:
			return math.Inf(1)
		case 2:
			return math.Inf(-1)
		case 3:
			return math.Copysign(0, -1)
		}
		f, _ := r.Float64()
		return f
	case "*big.Int":
		return new(big.Int).Quo(r.Num(), r.Denom())
	case "*big.Float":
		switch R.Intn(40) {
		case 0:
			return new(big.Float).SetInf(false)
		case 1:
			return new(big.Float).SetInf(true)
		case 2:
			return new(big.Float)
		case 3:
			return big.NewFloat(math.Copysign(0, -1))
		}
		precs := []uint{1, 4, 24, 53, 64, 100, 200, 400, 700}
		f := new(big.Float).SetPrec(precs[R.Intn(len(precs))]).SetRat(r)
		if R.Intn(40) == 0 {
			// far beyond the range of float64
			if f.SetMantExp(f, R.Intn(6000)-3000); R.Intn(30) == 0 {
				f.SetMantExp(f, R.Intn(60000)-30000)
			}
		}
		return f
	case "*big.Rat":
		return r
	case "string":
		return genText(R)
	}
	panic(typ)
}

var (
	reInt   = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reDec   = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	reRatio = regexp.MustCompile(`^[+-]?[0-9]+/[0-9]+$`)
	garbage = []string{"", "abc", "1x", "--1", "1 2", " 1", "1 ", "1.2.3", "1e", "1e+", "e5", "-", "+", ".", "1/", "/2", "1/0", "0x1g", "1,000", "1.5/2", "١", "1-", "+-1", "nan%", "1/2/3", "½", "1\x00", "true"}
)

func genText(R *rand.Rand) string {
	switch R.Intn(20) {
	case 0:
		return garbage[R.Intn(len(garbage))]
	case 1:
		return []string{"NaN", "+Inf", "-Inf"}[R.Intn(3)]
	case 2:
		// another form of infinity, a number beyond every type, or more digits than usual
		switch R.Intn(4) {
		case 0:
			return []string{"Inf", "inf", "+inf", "-inf"}[R.Intn(4)]
		case 1:
			return []string{"", "-", "+"}[R.Intn(3)] + []string{"1", "12.5", ".5", "0.001", "900"}[R.Intn(5)] + "e" + []string{"", "-", "+"}[R.Intn(3)] +
				[]string{"1000000000", "2147483647", "3000000000", "9223372036854775807", "99999999999999999999"}[R.Intn(5)]
		case 2:
			return []string{"", "-"}[R.Intn(2)] + strings.Repeat("0", R.Intn(40)) + strconv.Itoa(R.Intn(300)) + strings.Repeat("0", R.Intn(3))
		}
		s := strconv.Itoa(1+R.Intn(99)) + strings.Repeat("0", R.Intn(400)) + strconv.Itoa(R.Intn(99)) + "." + strings.Repeat("0", R.Intn(200))
		return s + []string{"", "5", "25"}[R.Intn(3)]
	}
	r := genRat(R)
	switch R.Intn(6) {
	case 0:
		return r.String()
	case 1:
		return new(big.Int).Quo(r.Num(), r.Denom()).String()
	case 2:
		s := r.FloatString(R.Intn(30))
		if R.Intn(4) == 0 && !strings.HasPrefix(s, "-") {
			s = "+" + s
		}
		return s
	case 3:
		f, _ := r.Float64()
		if math.IsInf(f, 0) {
			f = 1
		}
		return strconv.FormatFloat(f, []byte("gef")[R.Intn(3)], -1, 64)
	case 4:
		f, _ := r.Float32()
		if math.IsInf(float64(f), 0) {
			f = 1
		}
		return strconv.FormatFloat(float64(f), []byte("gef")[R.Intn(3)], -1, 32)
	}
	// exact decimal if dyadic and small, with zeros around
	s := strings.Repeat("0", R.Intn(3)) + strconv.Itoa(R.Intn(1000)) + "." + []string{"", "0", "5", "25", "125", "000", "50000"}[R.Intn(7)]
	if R.Intn(2) == 0 {
		s = []string{"-", "+"}[R.Intn(2)] + s
	}
	if R.Intn(3) == 0 {
		s += fmt.Sprintf("e%d", R.Intn(60)-30)
	}
	return s
}

// textNum classifies text: kind "int", "dec", "ratio", "special", "garbage".
func textNum(s string) (string, num) {
	switch s {
	case "NaN":
		return "special", num{k: 'n'}
	case "+Inf":
		return "special", num{k: '+'}
	case "-Inf":
		return "special", num{k: '-'}
	}
	mk := func(s string) num {
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			panic("textNum " + s)
		}
		return ratNum(r)
	}
	switch {
	case reInt.MatchString(s):
		return "int", mk(s)
	case reDec.MatchString(s):
		if r, ok := new(big.Rat).SetString(s); !ok {
			return "huge", num{}
		} else {
			return "dec", ratNum(r)
		}
	case strings.EqualFold(strings.TrimLeft(s, "+-"), "inf") && len(s) <= 4:
		if s[0] == '-' {
			return "inf", num{k: '-'}
		}
		return "inf", num{k: '+'}
	case reRatio.MatchString(s):
		if strings.Trim(s[strings.Index(s, "/")+1:], "0") == "" {
			return "garbage", num{}
		}
		return "ratio", mk(s)
	}
	return "garbage", num{}
}

func isDyadic(r *big.Rat) bool {
	d := r.Denom()
	return d.TrailingZeroBits() == uint(d.BitLen()-1)
}

// float32Exact returns the float32 exactly equal to r, if there is one
func float32Exact(r *big.Rat) bool {
	f, _ := r.Float32() // the exact result is not reliable when r underflows
	return floatNum(float64(f)).eq(ratNum(r))
}
func float64Exact(r *big.Rat) bool {
	f, _ := r.Float64()
	return floatNum(f).eq(ratNum(r))
}

// sz draws a size below n that is sometimes far larger, since behaviour may depend on sizes (buffers, thresholds, growth).
func sz(R *rand.Rand, n int) int { return szMax(R, n, 3000) }

// szMax is like sz with a bound for the rare large sizes.
func szMax(R *rand.Rand, n, max int) int {
	switch R.Intn(300) {
	case 0:
		return R.Intn(max + 1)
	case 1, 2:
		// around powers of two
		if p := 1<<uint(3+R.Intn(9)) + R.Intn(3) - 1; p <= max {
			return p
		}
	case 3, 4, 5:
		if 12*n <= max {
			return R.Intn(12*n + 1)
		}
	}
	return R.Intn(n)
}
