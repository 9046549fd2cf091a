From 96ffb138abc95c0352763be7c53ed122d1ad9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 01/71] fix: BigFloatToBigRat keeps every digit

The conversion went through the 10 digit text form of the float, so *big.Float, float32 and float64
values were silently changed on the way to *big.Rat, and float to integer conversions accepted or
returned wrong integers.
---
 conv/bigrat.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index 6a997c8..0136f3b 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -49,7 +49,8 @@ func BigFloatToBigRat(ival *big.Float, oval **big.Rat) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Rat")
 	}
 
-	*oval, _ = big.NewRat(1, 1).SetString(BigFloatToString(ival))
+	// A finite *big.Float is always exactly representable as a ratio
+	*oval, _ = ival.Rat(nil)
 	return nil
 }
 
-- 
2.43.0


From a4278aacafdbce02cd04a3741b158b1a83ac5220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 02/71] fix: text form of *big.Float and *big.Rat keeps every
 digit

BigFloatToString and BigRatToNormalizedString only produced 10 significant digits.
---
 conv/string.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conv/string.go b/conv/string.go
index e6f846d..47df5c6 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -32,8 +32,9 @@ func BigIntToString(val *big.Int) string {
 }
 
 // BigFloatToString converts a *big.Float to a string
+// As many digits as are needed to identify the value at its precision are used.
 func BigFloatToString(val *big.Float) string {
-	return val.String()
+	return val.Text('f', -1)
 }
 
 // BigRatToString converts a *big.Rat to a string.
@@ -51,5 +52,5 @@ func BigRatToNormalizedString(val *big.Rat) string {
 
 	var inter *big.Float
 	BigRatToBigFloat(val, &inter)
-	return inter.String()
+	return BigFloatToString(inter)
 }
-- 
2.43.0


From 5ab8e4fdcc40143f11b57a6331d0988349018e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 03/71] fix: UintToBigFloat does not round values above 2^53

---
 conv/bigfloat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 709b853..7f09a5a 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -21,7 +21,9 @@ func IntToBigFloat[T constraint.SignedInteger](ival T, oval **big.Float) {
 
 // UintToBigFloat converts any unsigned int type into a *big.Float
 func UintToBigFloat[T constraint.UnsignedInteger](ival T, oval **big.Float) {
-	*oval = big.NewFloat(0).SetUint64(uint64(ival))
+	// At least the precision of a float64, more for values that do not fit in it
+	prec := uint(math.Max(53, math.Ceil(float64(len(UintToString(ival)))*log2Of10)))
+	*oval = big.NewFloat(0).SetPrec(prec).SetUint64(uint64(ival))
 }
 
 // FloatToBigFloat converts any float type into a *big.Float
-- 
2.43.0


From ec1868a8c19b3cb83e4684ffa8539a21f83f9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 04/71] fix: BigRatToBigFloat does not truncate small ratios to
 zero

The conversion used a fixed number of decimal places, so ratios like 1/2^200 became 0 or lost digits.
---
 conv/bigfloat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 7f09a5a..dfac18e 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -49,8 +49,8 @@ func BigIntToBigFloat(ival *big.Int, oval **big.Float) {
 // BigRatToBigFloat converts a *big.Rat to a *big.Float
 func BigRatToBigFloat(ival *big.Rat, oval **big.Float) {
 	// Use numerator to calculate the precision, shd be accurate since denominator is basically the exponent
-	prec := int(math.Ceil(math.Max(float64(53), float64(len(ival.Num().String()))*log2Of10)))
-	*oval, _, _ = big.ParseFloat(ival.FloatString(prec), 10, uint(prec), big.ToNearestEven)
+	prec := uint(math.Ceil(math.Max(float64(53), float64(len(ival.Num().String()))*log2Of10)))
+	*oval = big.NewFloat(0).SetPrec(prec).SetRat(ival)
 
 	// Set accuracy to exact
 	(*oval).SetMode((*oval).Mode())
-- 
2.43.0


From fe121bf0c762e16968beaf1ffb85c347015e12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 05/71] fix: To does not round big values into a float32

*big.Int, *big.Float and *big.Rat were narrowed through float64, so To silently rounded values that
the direct conversion functions refuse.
---
 conv/conv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 19b696b..83b8bd9 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -697,21 +697,21 @@ var (
 			if err := BigIntToFloat64(t.(*big.Int), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigIntToFloat32(t.(*big.Int), u.(*float32))
 		},
 		"*big.Floatfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigFloatToFloat64(t.(*big.Float), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigFloatToFloat32(t.(*big.Float), u.(*float32))
 		},
 		"*big.Ratfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigRatToFloat64(t.(*big.Rat), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigRatToFloat32(t.(*big.Rat), u.(*float32))
 		},
 		"stringfloat32": func(t any, u any) error {
 			return StringToFloat32(t.(string), u.(*float32))
-- 
2.43.0


From b87545efe16d95c81c639655d93388c3fa17b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 06/71] fix: copies of big values do not share memory with the
 original

To and ToBigOps copied the big struct, which shares the underlying words, and BigRatToBigInt returned
the numerator of its argument, so modifying the copy could modify the original.
---
 conv/bigint.go |  3 ++-
 conv/conv.go   | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/conv/bigint.go b/conv/bigint.go
index 750c6a6..2a985e7 100755
--- a/conv/bigint.go
+++ b/conv/bigint.go
@@ -81,7 +81,8 @@ func BigRatToBigInt(ival *big.Rat, oval **big.Int) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Int")
 	}
 
-	*oval = ival.Num()
+	// Num is a reference to the numerator, which the result must not share
+	*oval = new(big.Int).Set(ival.Num())
 	return nil
 }
 
diff --git a/conv/conv.go b/conv/conv.go
index 83b8bd9..5710158 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1009,6 +1009,19 @@ var (
 	}
 )
 
+// copyBig copies the value of a non-nil *big.Int, *big.Float, or *big.Rat into another non-nil pointer of the same type,
+// such that the source and target do not share any memory.
+func copyBig(src, tgt any) {
+	switch s := src.(type) {
+	case *big.Int:
+		tgt.(*big.Int).Set(s)
+	case *big.Float:
+		tgt.(*big.Float).Copy(s)
+	case *big.Rat:
+		tgt.(*big.Rat).Set(s)
+	}
+}
+
 // To converts any Numeric type or string to any Numeric type or string
 // If the types are the same, a copy by value is performed, unless they are big types.
 // For big type copies, a new pointer is constructed with a copy of the input value.
@@ -1045,7 +1058,7 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 
 				// ival is non-nil, oval is non-nil and not the same pointer as ival
 				// Copy the value
-				oval.Elem().Elem().Set(ival.Elem())
+				copyBig(ival.Interface(), oval.Elem().Interface())
 			}
 		} else {
 			// All non-big types are value types, just copy the value
@@ -1140,7 +1153,7 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 
 			// ival is non-nil, oval is non-nil and not the same pointer as ival
 			// Copy the value
-			oval.Elem().Elem().Set(ival.Elem())
+			copyBig(ival.Interface(), oval.Elem().Interface())
 		}
 
 		return nil
-- 
2.43.0


From 33e55d146b1fc891b6ddbd80e8ed647c996e2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 07/71] fix: BigRatToFloat32 and BigRatToFloat64 refuse ratios
 too small for a float

big.Rat reports an underflow to zero as exact, so tiny ratios were converted to 0 without an error.
---
 conv/float.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conv/float.go b/conv/float.go
index 219fd77..d41569c 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -98,7 +98,8 @@ func MustBigFloatToFloat32(ival *big.Float, oval *float32) {
 // Returns an error if the *big.Rat cannot be represented as a float32
 func BigRatToFloat32(ival *big.Rat, oval *float32) error {
 	var exact bool
-	if *oval, exact = ival.Float32(); !exact {
+	// A ratio too small for the type gives a zero, which is not always indicated as inexact
+	if *oval, exact = ival.Float32(); !exact || ((*oval == 0) && (ival.Sign() != 0)) {
 		return fmt.Errorf(errMsg, ival, ival.String(), "float32")
 	}
 
@@ -175,7 +176,8 @@ func MustBigFloatToFloat64(ival *big.Float, oval *float64) {
 // Returns an error if the *big.Rat cannot be represented as a float64
 func BigRatToFloat64(ival *big.Rat, oval *float64) error {
 	var exact bool
-	if *oval, exact = ival.Float64(); !exact {
+	// A ratio too small for the type gives a zero, which is not always indicated as inexact
+	if *oval, exact = ival.Float64(); !exact || ((*oval == 0) && (ival.Sign() != 0)) {
 		return fmt.Errorf(errMsg, ival, ival.String(), "float64")
 	}
 
-- 
2.43.0


From b26cc893cd759880b223dc56ec9db4fa52e16c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 08/71] fix: ReflectTo converts the same pairs of types as To

ReflectTo refused a source of the same type as the target, and a source that is a subtype.
---
 conv/conv.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 5710158..8bf5181 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1187,7 +1187,9 @@ func ReflectTo(i, o goreflect.Value) error {
 		return errReflectToTgtMustBePtr
 	}
 
+	// Convert input to a base type
 	var (
+		ib   = reflect.ValueToBaseType(i)
 		ityp = i.Type()
 		otyp = o.Type()
 	)
@@ -1205,13 +1207,24 @@ func ReflectTo(i, o goreflect.Value) error {
 	// Convert output to a base type
 	ob := reflect.ValueToBaseType(o)
 
+	// If the types are the same, then a copy will suffice, except a non-nil big type needs a new pointer
+	if obtyp := ob.Type().Elem(); (ib.Type() == obtyp) && (reflect.IsNumeric(obtyp) || (obtyp.Kind() == goreflect.String)) {
+		if reflect.IsBigPtr(obtyp) && (!ib.IsNil()) {
+			inter := goreflect.New(obtyp.Elem())
+			copyBig(ib.Interface(), inter.Interface())
+			ib = inter
+		}
+		ob.Elem().Set(ib)
+		return nil
+	}
+
 	// Locate a conversion function in convertFromTo map
-	convFn := convertFromTo[(ityp.String() + ob.Type().Elem().String())]
+	convFn := convertFromTo[(ib.Type().String() + ob.Type().Elem().String())]
 	if convFn == nil {
 		return fmt.Errorf(errReflectToLookupMsg, ityp, otyp.Elem())
 	}
 
-	return convFn(i.Interface(), ob.Interface())
+	return convFn(ib.Interface(), ob.Interface())
 }
 
 // MustReflectTo is a Must version of ReflectTo
-- 
2.43.0


From 7cffad42d16101214aaac6c88cb985e713741657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 09/71] fix: FloatToFloat and FloatToString handle subtypes of
 float32

A subtype of float32 was treated as 64 bits: out of range values became infinite without an error, and
strings had digits that are not in the value.
---
 conv/float.go  | 2 +-
 conv/string.go | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/conv/float.go b/conv/float.go
index d41569c..7d93ebc 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -43,7 +43,7 @@ func FloatToFloat[I constraint.Float, O constraint.Float](ival I, oval *O) error
 		return nil
 	}
 
-	if _, isa := any(oval).(*float32); isa && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
+	if (NumBits(*oval) == 32) && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
 		return fmt.Errorf(errMsg, ival, fmt.Sprintf("%g", ival64), "float32")
 	}
 
diff --git a/conv/string.go b/conv/string.go
index 47df5c6..b92b6af 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -7,7 +7,6 @@ import (
 	"strconv"
 
 	"github.com/bantling/micro/constraint"
-	"github.com/bantling/micro/funcs"
 )
 
 // IntToString converts any signed int type into a string
@@ -22,8 +21,7 @@ func UintToString[T constraint.UnsignedInteger](val T) string {
 
 // FloatToString converts any float type into a string
 func FloatToString[T constraint.Float](val T) string {
-	_, is32 := any(val).(float32)
-	return strconv.FormatFloat(float64(val), 'f', -1, funcs.Ternary(is32, 32, 64))
+	return strconv.FormatFloat(float64(val), 'f', -1, NumBits(val))
 }
 
 // BigIntToString converts a *big.Int to a string
-- 
2.43.0


From bbefd14464151a93f548e01bfd38eba1c14b960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 10/71] fix: text form of a *big.Float power of two denotes the
 same value

The shortest digits that big.Float provides for some powers of two denote the value below it.
---
 conv/string.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/conv/string.go b/conv/string.go
index b92b6af..93b2931 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 
 	"github.com/bantling/micro/constraint"
+	"github.com/bantling/micro/funcs"
 )
 
 // IntToString converts any signed int type into a string
@@ -32,7 +33,16 @@ func BigIntToString(val *big.Int) string {
 // BigFloatToString converts a *big.Float to a string
 // As many digits as are needed to identify the value at its precision are used.
 func BigFloatToString(val *big.Float) string {
-	return val.Text('f', -1)
+	str := val.Text('f', -1)
+
+	// The shortest digits of a power of two can be nearer to the value below it, in which case all digits are needed.
+	// An exact float has as many decimal places as it has bits after the point.
+	if chk, _, err := big.ParseFloat(str, 10, val.Prec(), big.ToNearestEven); (err == nil) && (chk.Cmp(val) != 0) {
+		places := int(val.MinPrec()) - val.MantExp(nil)
+		str = val.Text('f', funcs.Ternary(places > 0, places, 0))
+	}
+
+	return str
 }
 
 // BigRatToString converts a *big.Rat to a string.
-- 
2.43.0


From efb77b60aa4d0d7f725cba7766bccd82b84bf202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 11/71] fix: integer Div rounds a negative fraction away from
 zero and accepts aliased *big.Int arguments

---
 math/math.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/math/math.go b/math/math.go
index ecb808b..dd089ba 100755
--- a/math/math.go
+++ b/math/math.go
@@ -29,7 +29,8 @@ func divSInt(de, dv int64, q *int64) {
 
 	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
 	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
-		if *q >= 0 {
+		// The quotient may be zero, so use the signs of the operands
+		if (de < 0) == (dv < 0) {
 			*q++
 		} else {
 			*q--
@@ -314,9 +315,9 @@ var (
 				return DivByZeroErr
 			}
 
-			r := big.NewInt(0)
-			qbi.QuoRem(debi, dvbi, r)
-			r.Abs(r)
+			// The quotient may be zero, so use the signs of the operands to decide the direction of rounding.
+			// The quotient may be the same pointer as an operand, so examine operands before dividing.
+			sameSign := debi.Sign() == dvbi.Sign()
 
 			halfdv := big.NewInt(0).SetBytes(dvbi.Bytes())
 			halfdv.Abs(halfdv)
@@ -324,8 +325,13 @@ var (
 
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
+
+			r := big.NewInt(0)
+			qbi.QuoRem(debi, dvbi, r)
+			r.Abs(r)
+
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
-				if qbi.Sign() >= 0 {
+				if sameSign {
 					qbi.Add(qbi, big.NewInt(1))
 				} else {
 					qbi.Sub(qbi, big.NewInt(1))
-- 
2.43.0


From 6b561323a8ea23479753a37d2c726d411c123609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 12/71] fix: Div of the minimum signed integer by -1 is an
 overflow error

---
 math/math.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/math/math.go b/math/math.go
index dd089ba..9ee406d 100755
--- a/math/math.go
+++ b/math/math.go
@@ -15,7 +15,12 @@ import (
 )
 
 // Signed integer division, for toDiv map above
-func divSInt(de, dv int64, q *int64) {
+// Returns an error if the quotient cannot be represented, which only occurs for the minimum value / -1
+func divSInt(de, dv int64, q *int64) error {
+	if (de == math.MinInt64) && (dv == -1) {
+		return OverflowErr
+	}
+
 	*q = de / dv
 
 	// Calc abs of remainder and of half divisor
@@ -36,6 +41,8 @@ func divSInt(de, dv int64, q *int64) {
 			*q--
 		}
 	}
+
+	return nil
 }
 
 // Unsigned division, for toDiv map above
@@ -162,7 +169,12 @@ var (
 
 			qi := any(q).(*int)
 			qi64 := int64(*qi)
-			divSInt(int64(de.(int)), int64(dvi), &qi64)
+			if err := divSInt(int64(de.(int)), int64(dvi), &qi64); err != nil {
+				return err
+			}
+			if int64(int(qi64)) != qi64 {
+				return OverflowErr
+			}
 			*qi = int(qi64)
 
 			return nil
@@ -176,7 +188,12 @@ var (
 
 			qi := any(q).(*int8)
 			qi64 := int64(*qi)
-			divSInt(int64(de.(int8)), int64(dvi), &qi64)
+			if err := divSInt(int64(de.(int8)), int64(dvi), &qi64); err != nil {
+				return err
+			}
+			if int64(int8(qi64)) != qi64 {
+				return OverflowErr
+			}
 			*qi = int8(qi64)
 
 			return nil
@@ -190,7 +207,12 @@ var (
 
 			qi := any(q).(*int16)
 			qi64 := int64(*qi)
-			divSInt(int64(de.(int16)), int64(dvi), &qi64)
+			if err := divSInt(int64(de.(int16)), int64(dvi), &qi64); err != nil {
+				return err
+			}
+			if int64(int16(qi64)) != qi64 {
+				return OverflowErr
+			}
 			*qi = int16(qi64)
 
 			return nil
@@ -204,7 +226,12 @@ var (
 
 			qi := any(q).(*int32)
 			qi64 := int64(*qi)
-			divSInt(int64(de.(int32)), int64(dvi), &qi64)
+			if err := divSInt(int64(de.(int32)), int64(dvi), &qi64); err != nil {
+				return err
+			}
+			if int64(int32(qi64)) != qi64 {
+				return OverflowErr
+			}
 			*qi = int32(qi64)
 
 			return nil
@@ -217,9 +244,7 @@ var (
 			}
 
 			qi := any(q).(*int64)
-			divSInt(de.(int64), dvi, qi)
-
-			return nil
+			return divSInt(de.(int64), dvi, qi)
 		},
 
 		"uint": func(de, dv, q any) error {
@@ -501,6 +526,8 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // - If the divisor is even, and abs(remainder) >= abs(divisor) / 2, then increase magnitude of quotient by one.
 // - If the divisor is odd,  and abs(remainder) >  abs(divisor) / 2, then increase magnitude of quotient by one.
 //
+// In the case of a signed integer, the minimum value / -1 is an overflow error, as there is no corresponding positive value.
+//
 // Increasing the magnitude by one means add one of the quotient is positive, subtract one if negative.
 // The purpose of adjusting the magnitude is to get the same result as rounding the floating point calculation.
 // Floats are not used since 32 and 64 bit integer values can have a magnitude too large to be expressed accurately
-- 
2.43.0


From e238bab4e06fcd7b9d1a6b37bae1bd29e14f6c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 13/71] fix: SubInt detects overflow when subtracting the
 minimum value

---
 math/math.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/math/math.go b/math/math.go
index 9ee406d..b4835f0 100755
--- a/math/math.go
+++ b/math/math.go
@@ -484,10 +484,23 @@ func CmpComplex[T constraint.Complex](val1, val2 T) (res int) {
 // SubInt subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if over/underflow occurs.
 // See AddInt.
 func SubInt[T constraint.SignedInteger](me T, sed *T) error {
-	// Instead of actually subtracting, just add the additive inverse
-	*sed = -*sed
+	// Adding the additive inverse does not work for the minimum value, which is its own additive inverse
+	sign1, sign2 := me >= 0, *sed >= 0
+	*sed = me - *sed
+	newSign := *sed >= 0
+
+	if (sign1 != sign2) && (sign1 != newSign) {
+		// Different sign subtracted, sign of result differs from minuend
+		if sign1 {
+			// Positive wrapped around to negative
+			return OverflowErr
+		}
 
-	return AddInt(me, sed)
+		// Negative wrapped around to positive
+		return UnderflowErr
+	}
+
+	return nil
 }
 
 // SubUint subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if underflow occurs.
-- 
2.43.0


From 639b6c070d0c24f3b62d084364204ab1525ca128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 14/71] fix: OfRange panics if the initial value is not in the
 range

---
 math/range.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/math/range.go b/math/range.go
index 6b8eee4..8d80c27 100755
--- a/math/range.go
+++ b/math/range.go
@@ -53,7 +53,10 @@ func OfRange[T constraint.IntegerAndFloat](
 		panic(fmt.Errorf(errMinMaxMsg, minStr, maxStr))
 	}
 
-	return Range[T]{min, minMode, max, maxMode, initial}
+	r := Range[T]{min, minMode, max, maxMode, initial}
+	funcs.Must(r.SetValue(initial))
+
+	return r
 }
 
 // GetMin returns the minimum value and mode
-- 
2.43.0


From b3351f753d4719082cfa2e341267dc957db07aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 15/71] fix: Abs and Div accept subtypes of numeric types

---
 math/math.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/math/math.go b/math/math.go
index b4835f0..5a093b1 100755
--- a/math/math.go
+++ b/math/math.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/conv"
+	microreflect "github.com/bantling/micro/reflect"
 )
 
 // Signed integer division, for toDiv map above
@@ -408,14 +409,16 @@ var (
 // In this special case, an error is returned, otherwise nil is returned.
 // Note that while the constraint allows unsigned ints for completeness, no operation is performed.
 func Abs[T constraint.Numeric](val *T) error {
-	typval := reflect.TypeOf(val).Elem().String()
+	// Subtypes (eg type foo int8) are handled as a pointer to the base type
+	valptr := microreflect.ValueToBaseType(reflect.ValueOf(val))
+	typval := valptr.Type().Elem().String()
 
 	// No need to calculate absolute value of an unsigned int
 	if strings.HasPrefix(typval, "uint") {
 		return nil
 	}
 
-	return toAbs[typval](val)
+	return toAbs[typval](valptr.Interface())
 }
 
 // AddInt adds two signed integers overwriting the second value, and returns an error if over/underflow occurs.
@@ -550,9 +553,13 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // 18 / 4 = 4 remainder 2. Since divisor 4 is even and remainder 2 is     >= (4 / 2 = 2), increment quotient to 5 (round 4.5 up).
 // 17 / 5 = 3 remainder 2. Since divisor 5 is odd  and remainder 2 is not >  (5 / 2 = 2), leave quotient as is (round 3.4 down).
 func Div[T constraint.Numeric](dividend T, divisor T, quotient *T) error {
-	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
-	return toDiv[typ](ade, adv, aq)
+	// Subtypes (eg type foo int8) are handled as the base type
+	var (
+		de = microreflect.ValueToBaseType(reflect.ValueOf(dividend))
+		dv = microreflect.ValueToBaseType(reflect.ValueOf(divisor))
+		q  = microreflect.ValueToBaseType(reflect.ValueOf(quotient))
+	)
+	return toDiv[de.Type().String()](de.Interface(), dv.Interface(), q.Interface())
 }
 
 // DivBigOps is the BigOps version of Div
-- 
2.43.0


From 2c239343fcb8ca5e2c7518f4329b110cefce1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 16/71] fix: StringToDecimal refuses text that is not a number
 and reads back every String result

---
 math/decimal.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index c6c1b16..f9e0269 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
     "math/big"
 	"regexp"
-	"slices"
 	"strconv"
 	"strings"
 
@@ -16,7 +15,7 @@ import (
 
 var (
 	// optional minus sign, zero or more digits, optional dot and zero or more digits.
-	decimalRegex = regexp.MustCompile("(-?)([0-9]*)[.]?([0-9]*)")
+	decimalRegex = regexp.MustCompile("^(-?)([0-9]*)[.]?([0-9]*)$")
 
 	// Powers of 10 constants from 10^0 thru 10^18 (scale can be 0 - 18)
 	powersOf10 = []int64{
@@ -166,9 +165,12 @@ func StringToDecimal(value string) (d Decimal, err error) {
 	parts := decimalRegex.FindStringSubmatch(value)
 
 	// Error if string doesn't match regex
-	// Error if total number of digits > 18
+	// Error if there are no digits
+	// Error if total number of digits > 18, not counting leading zeros before the decimal
 	// indexes : 1 = optional leading minus sign, 2 = optional integer digits, 3 = optional decimal digits
-	if (parts == nil) || slices.Equal(parts, []string{"", "", "", ""}) || ((len(parts[2]) + len(parts[3])) > 18) {
+	if (parts == nil) ||
+		((len(parts[2]) + len(parts[3])) == 0) ||
+		((len(strings.TrimLeft(parts[2], "0")) + len(parts[3])) > decimalMaxScale) {
 		err = fmt.Errorf(errInvalidStringMsg, value)
 		return
 	}
-- 
2.43.0


From cdea9d828544b6da5b9e74fcb7d53f1f22805c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 17/71] fix: AdjustDecimalScale rounds decimals that have no
 digits left and increases the scale of zero

---
 math/decimal.go | 51 ++++++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index f9e0269..94fb827 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -280,14 +280,12 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 	    d1, d2 = d2, d1
 	}
 
-	// Convert d1 and d2 to strings of digits only, to see how many significant digits they possess
-	var str1, str2 string
-	str1 = conv.IntToString(funcs.Ternary(d1.value >= 0, d1.value, -d1.value))
-	str2 = conv.IntToString(funcs.Ternary(d2.value >= 0, d2.value, -d2.value))
+	// Convert d2 to a string of digits only, to see how many significant digits it possesses
+	// Zero has no significant digits, it can be increased to any scale
+	str2 := conv.IntToString(funcs.Ternary(d2.value >= 0, d2.value, -d2.value))
 
 	var (
-		len1       = len(str1)
-		len2       = len(str2)
+		len2       = funcs.Ternary(d2.value == 0, 0, len(str2))
 		d2Capacity = decimalMaxScale - len2
 		scaleDiff  = int(d1.scale - d2.scale)
 	)
@@ -312,39 +310,22 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 			return fmt.Errorf(errValueTooSmallToRoundMsg, d2.String())
 		}
 
-		// Round by manipulating digits directly in string as a []byte
-		dig1 := []byte(str1)
-
-		// Round by just examining first decimal place, if <= 4 round integer down, else round integer up
-		round := dig1[len1-scaleDiff] >= '5'
-
-		// throw away decimal digits
-		dig1 = dig1[:len1-scaleDiff]
-		len1 = len(dig1)
-
-		// Integer rounding affects digits of d1 we're keeping
-		// - as long as integer digit = 9, set to 0
-		// - if a digit < 9 is encountered, increment and stop
-		// - if all digits are 9, add additional 1 digit on left
-		var dig byte
-		for i := len1 - 1; round && (i >= 0); i-- {
-			dig = dig1[i]
-			round = dig == '9'
-			dig1[i] = funcs.Ternary(round, '0', dig+1)
-		}
+		// Throw away decimal digits, there may not be any digits left
+		var (
+			power10 = powersOf10[scaleDiff]
+			rmdr    = d1.value % power10
+		)
+		d1.value /= power10
 
-		// If final round is true, all integer digits are 9, add a leading 1
-		str1 = funcs.Ternary(round, "1"+string(dig1), string(dig1))
+		// Round by just examining first digit thrown away, if >= 5 round away from zero
+		if rmdr >= power10/2 {
+			d1.value++
+		} else if -rmdr >= power10/2 {
+			d1.value--
+		}
 
 		// Set d1 scale
 		d1.scale = d2.scale
-
-		// Set d1 value (preserving sign)
-		neg := d1.value < 0
-		conv.StringToInt64(str1, &d1.value)
-		if neg {
-			d1.value = -d1.value
-		}
 	}
 
 	return nil
-- 
2.43.0


From 450a58a16e57481375d5f50e4b31ec08e3e06341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 18/71] fix: Decimal Mul rounds the exact product once, to the
 correct scale

---
 math/decimal.go | 157 +++++++++++-------------------------------------
 1 file changed, 36 insertions(+), 121 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 94fb827..8ab28a4 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
     "math/big"
 	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/bantling/micro/conv"
@@ -568,142 +567,58 @@ func (d Decimal) MustSub(o Decimal) Decimal {
 	return funcs.MustValue(d.Sub(o))
 }
 
-// Mul calculates d * o using one of two methods:
+// Mul calculates d * o as follows:
 //
-// r = d * o is tried first
-// If r = 0, then return 0 scale 0.
-// If r / d = o, then if r > max value or < min value, we have a valid result 19 digits in length.
-//	- Round it to 18 with single divide by 10, and add 1 if remainder >= 5.
-//	- Given max int64 value starts with 92, divide by 10 and add 1 cannot go back up 19 digits.
-//
-// Otherwise If r / d != o, it is a 64-bit overflow, use BigInt to multiply the two numbers, and get the base 10 string.
-// The resulting scale rs is d scale + o scale, and we need to round (length - 18) times:
-//  - Check that resulting scale >= length - 18. If not, the integer portion is too large, it is an overflow.
-//  - Otherwise, round length - 18 times to bring the result down to max of 18 digits.
+// The exact product rv of the two values is calculated, and the resulting scale rs is d scale + o scale.
+// Enough decimal digits are thrown away that the result has at most 18 digits and a scale of at most 18.
+// If rs is less than the number of digits to throw away, the integer portion is too large, it is an overflow.
+// The result is rounded once, by examining the first digit thrown away: if it is >= 5, round away from zero.
+// It is possible that rounding 18 9s produces a 19 digit result, in which case one more decimal digit has to be thrown
+// away. If there is no such digit, it is an overflow.
 //
 // If the result is 0, return 0 scale 0, else return r scale rs.
 func (d Decimal) Mul(o Decimal) (Decimal, error) {
-    // Ensure both values are non-negative
 	var (
-		dval = d.value
-		dpos = dval >= 0
-
-		oval = o.value
-		opos = oval >= 0
-
-		rscale = d.scale + o.scale
+		rpos   = (d.value >= 0) == (o.value >= 0)
+		rscale = int(d.scale + o.scale)
+		rval   = big.NewInt(d.value)
 	)
 
-	if !dpos {
-		dval = -dval
-	}
-	if !opos {
-		oval = -oval
+	// The exact product may require 128 bits
+	rval.Mul(rval, big.NewInt(o.value))
+	rval.Abs(rval)
+
+	// Number of decimal digits to throw away, which cannot be larger than the number of decimal digits
+	drop := MaxOrdered(MaxOrdered(len(rval.Text(10))-decimalMaxScale, rscale-decimalMaxScale), 0)
+	if drop > rscale {
+		return Decimal{}, fmt.Errorf(funcs.Ternary(rpos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
 	}
 
-	// Try just multiplying the two 64-bit values together, and see if the result fits in 64 bits
-	var (
-		rval = dval * oval
-		rpos = dpos == opos
-	)
+	if drop > 0 {
+		// Adding half of the power of ten before dividing by it rounds the result
+		power10 := big.NewInt(0).Exp(big.NewInt(10), big.NewInt(int64(drop)), nil)
+		rval.Add(rval, big.NewInt(0).Rsh(power10, 1))
+		rval.Quo(rval, power10)
+		rscale -= drop
+	}
 
-    // Flag to track if we have a 19 digit number that could possibly round to 18, if scale > 0
-    var round19 bool
-
-	// If result is 0, nothing more to do
-	if dval != 0 {
-		// If rval / dval != oval, the binary result overflowed, and we have to use a different technique
-		// Otherwise, it is possible we have a 19 digit value that we can try and round down to 18
-		// Since we already checked dval != 0, we cannot get division by zero
-		if round19 = rval / dval == oval; !round19 {
-		    // If the scale is 0, it is an integer value that must overflow
-            if rscale == 0 {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-			// We need a 128-bit result, so use BigInt
-            bi := big.NewInt(dval)
-            bi = bi.Mul(bi, big.NewInt(oval))
-
-            // Get result as a decimal string, converted to a slice of ascii bytes
-            base10 := []byte(bi.Text(10))
-
-            // Normalize by removing insignificant 0s at the end, as long as they are after the decimal
-            for (rscale > 0) && (base10[len(base10)-1] - '0' == 0) {
-                rscale--
-                base10 = base10[:len(base10)-1]
-            }
-
-            // The length of the string - result scale = number of integer digits
-            // It is an overflow if the number of integer digits > 18
-            if (len(base10) - int(rscale) > 18) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-            // While the total length > 18, round off decimal digits until it isn't
-            // This may round to an integer, or may still have some decimals
-            var digit, carry byte
-            for ; len(base10) > 18; base10 = base10[:len(base10) - 1] {
-                digit = base10[len(base10) - 1] - '0' + carry
-                carry = 0
-                if digit >= 5 {
-                    carry = 1
-                }
-                rscale--
-            }
-
-            // Get final digit
-            digit = base10[len(base10) - 1] - '0'
-
-            // Convert byte slice back to a 64 bit int (cannot fail, as it is <= 18 digits in length)
-            rval, _ = strconv.ParseInt(string(base10), 10, 64)
-
-            // Add 1 if the final carry is 1 and final digit >= 5
-            // Let the binary add ripple the carry as needed
-            if (carry == 1) && (digit >= 5) {
-                rval++
-
-                // It is possible we just added 1 to an 18 digit value that became a 19 digit value
-                round19 = true
-            }
+	// Cannot fail, as it is at most 19 digits starting with a 1
+	value := rval.Int64()
+	if value > decimalMaxValue {
+		// 18 9s were rounded to a 19 digit value, throw away the last zero if it is a decimal digit
+		if rscale == 0 {
+			return Decimal{}, fmt.Errorf(funcs.Ternary(rpos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
 		}
+
+		value /= 10
+		rscale--
 	}
 
-    if round19 && (rval > decimalMaxValue) {
-        // If we have no decimal digits, we cannot round
-        if rscale == 0 {
-            return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-        }
-
-        // Round one digit
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-
-            // If we have 18 9's, then adding 1 would make it 19 digits again
-            if (rval > decimalMaxValue) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-        }
-    }
-
-    // If rscale > 18, then we need to round off digits until it is down to 18
-    for rscale > 18 {
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-        }
-        rscale--
-    }
-
-	// Perform common final operations, regardless of which technique was used to get the result
 	if !rpos {
-		rval = -rval
+		value = -value
 	}
 
-	r := Decimal{value: rval, scale: rscale, denormalized: d.denormalized}
+	r := Decimal{value: value, scale: uint(rscale), denormalized: d.denormalized}
 	r.applyNormalization()
 
 	return r, nil
-- 
2.43.0


From 7a6351fa4193cbd9e222ab150e55b16a8ba2b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 19/71] fix: DivIntQuoRem and DivIntAdd parts add up to the
 dividend

---
 math/decimal.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 8ab28a4..af05daa 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -649,16 +649,19 @@ func (d Decimal) DivIntQuoRem(o uint) (Decimal, Decimal, error) {
 	for i := uint(0); i < d.scale; i++ {
 		intPartOfD /= 10
 	}
-	if int64(o) > intPartOfD {
+	if uint64(o) > uint64(intPartOfD) {
 		return Decimal{}, Decimal{}, fmt.Errorf(errDecimalDivisorTooLargeMsg, d, o)
 	}
 
 	// Divide d by o, and set to d scale
-	// Remainder calculated as d - (q * o), the only way to get the decimal place correct
+	// Remainder also has d scale, unless it is zero
 	var (
 		q = Decimal{scale: d.scale, value: d.value / int64(o), denormalized: d.denormalized}
-		r = d.MustSub(Decimal{scale: d.scale, value: q.value * int64(o), denormalized: d.denormalized})
+		r = Decimal{scale: d.scale, value: d.value % int64(o), denormalized: d.denormalized}
 	)
+	if r.value == 0 {
+		r.Normalize()
+	}
 
 	return q, r, nil
 }
@@ -678,14 +681,16 @@ func (d Decimal) DivIntAdd(o uint) ([]Decimal, error) {
 		return nil, e
 	}
 
-	// Remainder is just a count of how many values need to be increased by 1
+	// Remainder is just a count of how many values need to be increased by 1 (decreased by 1 if d is negative)
 	var (
-		rc  = r.value
-		res = make([]Decimal, o)
+		rc, inc = r.value, int64(1)
+		res     = make([]Decimal, o)
 	)
+	if rc < 0 {
+		rc, inc = -rc, -1
+	}
 	for i := int64(0); i < int64(o); i++ {
-		res[i] = Decimal{scale: d.scale, value: q.value + int64(funcs.Ternary(rc > 0, 1, 0)), denormalized: d.denormalized}
-		rc--
+		res[i] = Decimal{scale: d.scale, value: q.value + funcs.Ternary(i < rc, inc, 0), denormalized: d.denormalized}
 	}
 
 	return res, nil
-- 
2.43.0


From e962cb6ba3589f19772506431520ccd15d07f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 20/71] fix: Decimal Div refuses a zero divisor and rounds at
 the 18th digit

---
 math/decimal.go | 102 +++++++++++++++++++++---------------------------
 1 file changed, 45 insertions(+), 57 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index af05daa..ec20913 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -818,12 +818,17 @@ func (d Decimal) MustDivIntAdd(o uint) []Decimal {
 // = 1 * 10^18
 // = overflow
 func (d Decimal) Div(o Decimal) (Decimal, error) {
+	// If o is 0, return division by zero error
+	if o.value == 0 {
+		return Decimal{}, fmt.Errorf(errDecimalDivisionByZeroMsg, d)
+	}
+
 	// Check if d and o are positive (>= 0)
-	// 	fmt.Printf("%s / %s\n", d, o)
 	dpos, opos := d.value >= 0, o.value >= 0
 
 	// Make both values positive, for simplicity
-	dval, oval := d.value, o.value
+	// The values are < 10^18, so a remainder multiplied by 10 is < 10^19, which always fits in an unsigned 64 bit int
+	dval, oval := uint64(d.value), uint64(o.value)
 	if !dpos {
 		dval = -dval
 	}
@@ -831,85 +836,68 @@ func (d Decimal) Div(o Decimal) (Decimal, error) {
 		oval = -oval
 	}
 
+	// Over/underflow error
+	overflow := func() (Decimal, error) {
+		return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
+	}
+
 	// Start with plain old division
 	q := dval / oval
 	r := dval % oval
 
 	// Scale is dividend - divisor, could be negative
-	s := int(d.scale - o.scale)
+	s := int(d.scale) - int(o.scale)
 
-	// If scale is negative, multiply q,r by 10^(-scale), set scale = 0
+	// If scale is negative, generate integer digits until scale = 0
 	// If the multiplications go beyond the limit of digits, we have to error out
-	for s < 0 {
-		q *= 10
+	for ; s < 0; s++ {
 		r *= 10
-		s += 1
+		q, r = q*10+r/oval, r%oval
 
-		if q > decimalMaxValue {
-			// Return over/underflow
-			return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
+		if q > uint64(decimalMaxValue) {
+			return overflow()
 		}
 	}
 
-	// If r != 0, perform successive multiply/divides until r = 0
-main_loop:
+	// If r != 0, generate decimal digits until r = 0
 	for r != 0 {
-		// Multiply q,r by 10 until r >= o
-		for r < oval {
-			nq, nr, ns := q*10, r*10, s+1
-			// fmt.Printf("nq = %d, nr = %d, ns = %d\n", nq, nr, ns)
-
-			// If quotient exceeds max value, fall back on previous quotient, as most accurate result we can get
-			if nq > decimalMaxValue {
-				// fmt.Println("ran out of digits")
-
-				// Get next generated digit, so we know if we should round up the existing quotient
-				// Remainder may be < oval, multiply by 10 until it isn't
-				for nr < oval {
-					nr *= 10
-				}
-				nr /= oval
-				// fmt.Printf("next digit remainder = %d\n", nr)
-
-				// New remainder may be > 10
-				// If so, divide by 10 until remainder < 10, to get most significant digit of it
-				for nr > 10 {
-					nr /= 10
+		// If there is no room for another digit, fall back on current quotient, as most accurate result we can get
+		if (s == decimalMaxScale) || (q*10 > uint64(decimalMaxValue)) {
+			// Get next generated digit, so we know if we should round up the existing quotient
+			if r*10/oval >= 5 {
+				q++
+
+				// It is possible 18 9s were rounded up to a 19 digit value, which must end in a zero
+				if q > uint64(decimalMaxValue) {
+					if s == 0 {
+						return overflow()
+					}
+
+					q /= 10
+					s--
 				}
-				// fmt.Printf("next digit = %d\n", nr)
-
-				// Is next digit >= 5?
-				if nr >= 5 {
-					// fmt.Printf("Rounding up")
-					q++
-				}
-
-				break main_loop
 			}
 
-			// If remainder exceeds max value, over/underflow occurs
-			if nr > decimalMaxValue {
-				// fmt.Println("exceeded max")
-				return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
-			}
+			break
+		}
 
-			// Copy new quotient, remainder, scale into current
-			q = nq
-			r = nr
-			s = ns
+		// If remainder exceeds max value, over/underflow occurs
+		if r *= 10; r > uint64(decimalMaxValue) {
+			return overflow()
 		}
 
-		// Add r / oval to q, set r to r mod oval
-		q, r = q+r/oval, r%oval
+		q, r = q*10+r/oval, r%oval
+		s++
 	}
 
-	// If original signs differed, then result is negative
+	// Return result, which is negative if original signs differed
+	res := Decimal{value: int64(q), scale: uint(s), denormalized: d.denormalized}
 	if dpos != opos {
-		q = -q
+		res.value = -res.value
 	}
+	res.applyNormalization()
 
-	// Return result
-	return Decimal{value: q, scale: uint(s), denormalized: d.denormalized}, nil
+	return res, nil
 }
 
 // MustDiv is a must version of Div
-- 
2.43.0


From da80e16e8b9ece85f72619e4d71860c4b91a565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 21/71] fix: lines separated by carriage return then line feed
 are not merged

---
 iter/gen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iter/gen.go b/iter/gen.go
index cfa4862..88bcdbe 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -388,6 +388,8 @@ func readLines(it func() (rune, error)) func() (string, error) {
 				return str.String(), nil
 			}
 
+			// A line feed is only part of the same line ending if it immediately follows a carriage return
+			lastCR = false
 			str.WriteRune(codePoint)
 		}
 	}
-- 
2.43.0


From ac20409b913f4dc339b51b07348dc068ce4f903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 22/71] fix: iterating a map that contains nil interface values
 does not panic

---
 iter/gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iter/gen.go b/iter/gen.go
index 88bcdbe..c090133 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -67,7 +67,10 @@ func MapIterGen[K comparable, V any](m map[K]V) func() (tuple.Two[K, V], error)
 			return zv, EOI
 		}
 
-		return tuple.Of2(mi.Key().Interface().(K), mi.Value().Interface().(V)), nil
+		// If the key or value type is an interface, then the key or value may be nil, which cannot be asserted
+		k, _ := mi.Key().Interface().(K)
+		v, _ := mi.Value().Interface().(V)
+		return tuple.Of2(k, v), nil
 	}
 }
 
-- 
2.43.0


From 9876466deeed35382ff568f2743d20b4ae2ea0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 23/71] fix: ReaderIterGen does not lose or repeat bytes, and
 repeats the error it returned

---
 iter/gen.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index c090133..3a76394 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -21,6 +21,9 @@ var (
 	InvalidUTF8EncodingError = fmt.Errorf("Invalid UTF 8 encoding")
 )
 
+// maxEmptyReads is the maximum number of consecutive times a reader may return (0, nil)
+const maxEmptyReads = 100
+
 // ==== Iterating function generators
 
 // SliceIterGen generates an iterating function for a slice of type T
@@ -176,6 +179,30 @@ func FibonnaciIterGen() func() (int, error) {
 	)
 }
 
+// readFull reads len(buf) bytes from src, which may require multiple calls to Read.
+// Returns (len(buf), nil) if all bytes were read, else (number of bytes read, non-nil error).
+// A reader that may return some bytes and an error is expected to return the same error on the next call.
+// A reader that keeps returning (0, nil) is an io.ErrNoProgress error.
+func readFull(src goio.Reader, buf []byte) (n int, err error) {
+	for empty := 0; (n < len(buf)) && (err == nil); {
+		var c int
+		c, err = src.Read(buf[n:])
+		n += c
+
+		if empty++; c > 0 {
+			empty = 0
+		} else if (err == nil) && (empty == maxEmptyReads) {
+			err = goio.ErrNoProgress
+		}
+	}
+
+	if n == len(buf) {
+		err = nil
+	}
+
+	return
+}
+
 // ReaderIterGen generates an iterating function that iterates all the bytes of an io.Reader.
 // If the reader returns an EOF, it is translated to an EOI, any other error is returned as is.
 // If the iter is called again after returning a non-nil error, it returns (0, same error).
@@ -192,12 +219,12 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 			return 0, err
 		}
 
-		if _, err := src.Read(buf); err != nil {
+		if _, rerr := readFull(src, buf); rerr != nil {
 			done = true
-			if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
+			if err = funcs.Ternary(rerr == goio.EOF, EOI, rerr); err == EOI {
 				if closer, isa := src.(goio.Closer); isa {
 					if cerr := closer.Close(); cerr != nil {
-						return 0, cerr
+						err = cerr
 					}
 				}
 			}
-- 
2.43.0


From 6bb8a5a2d552f38b347855cf7dfbd4f75add6fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 24/71] fix: ReaderAsRunesIterGen accepts short reads, refuses
 overlong and surrogate encodings, and repeats the error it returned

---
 iter/gen.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index 3a76394..a63c23c 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -262,12 +262,12 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 	// See https://en.wikipedia.org/wiki/UTF-8 for further details
 
 	var (
-		done  = src == nil
-		err   = EOI
-		n, eb int
-		buf   = make([]byte, 3)
-		b     byte
-		r     rune
+		done = src == nil
+		err  = EOI
+		eb   int
+		buf  = make([]byte, 3)
+		b    byte
+		r    rune
 	)
 
 	return func() (rune, error) {
@@ -277,12 +277,11 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 		// Read up to next 4 bytes from reader, depending on bit pattern of first byte
 		eb = 0
-		if n, err = src.Read(buf[0:1]); (n == 0) || (err != nil) {
+		if _, err = readFull(src, buf[0:1]); err != nil {
 			done = true
 
-			// Should be a non-nil error if 0 bytes were returned, but don't assume
 			// Translate EOF to EOI
-			if ((n == 0) && (err == nil)) || (err == goio.EOF) {
+			if err == goio.EOF {
 				err = EOI
 			}
 
@@ -314,9 +313,11 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// Multiple bytes
-		if n, err = src.Read(buf[0:eb]); (n != eb) || (err != nil) {
+		if _, err = readFull(src, buf[0:eb]); err != nil {
+			done = true
+
 			// Not enough extra bytes exist or some other error
-			if (err == nil) || (err == goio.EOF) {
+			if err == goio.EOF {
 				err = InvalidUTF8EncodingError
 			}
 
@@ -328,6 +329,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		for i := 0; i < eb; i++ {
 			if buf[i]&0b11_000000 != 0b10_000000 {
 				// Invalid extra byte
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
@@ -349,12 +351,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 				(rune(buf[0]&0b00_111111) << (6 + 6)) |
 				(rune(buf[1]&0b00_111111) << 6) |
 				(rune(buf[2] & 0b00_111111))
+		}
 
-			// Cannot exceed maximum value
-			if r > utf8.MaxRune {
-				err = InvalidUTF8EncodingError
-				return 0, err
-			}
+		// Cannot exceed maximum value, be a surrogate, or use more bytes than necessary
+		if utf8.RuneLen(r) != eb+1 {
+			done = true
+			err = InvalidUTF8EncodingError
+			return 0, err
 		}
 
 		// Valid multiple bytes
-- 
2.43.0


From 2d22aef2a88910c68937bf3284d4f0b619dc22e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 25/71] fix: ErrorReader returns the remaining bytes when more
 bytes are asked for

---
 io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/io.go b/io/io.go
index 029948b..04f35f2 100755
--- a/io/io.go
+++ b/io/io.go
@@ -40,7 +40,7 @@ func (r *ErrorReader) Read(p []byte) (int, error) {
 	}
 
 	// Return the number of bytes asked for, or what we have remaining, whichever is less
-	numBytes := math.MinOrdered(len(r.input), len(p))
+	numBytes := math.MinOrdered(len(r.input)-r.pos, len(p))
 
 	copy(p[:numBytes], r.input[r.pos:r.pos+numBytes])
 	r.pos += numBytes
-- 
2.43.0


From 4e17c08c4534d975ac6575fd668e20f76b71866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 26/71] fix: OfResultError accepts a nil interface value with
 an error

---
 union/union.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/union/union.go b/union/union.go
index 8b40b5d..0f1c776 100755
--- a/union/union.go
+++ b/union/union.go
@@ -176,8 +176,8 @@ func OfError[R any](err error) Result[R] {
 // Panics if the error is non-nil and R is not the zero value
 func OfResultError[R any](r R, err error) Result[R] {
 	if err != nil {
-		// R is not comparable
-		if !goreflect.ValueOf(r).IsZero() {
+		// R is not comparable, and may be an interface, in which case r may be nil
+		if !goreflect.ValueOf(&r).Elem().IsZero() {
 			panic(fmt.Errorf("A Result cannot have both a non-zero R value and a non-nil error"))
 		}
 	}
-- 
2.43.0


From bd6bd9d3f149821c7ab2b0d0c413563dd843048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 27/71] fix: AbsBigOps does not modify the elements of the
 source

---
 stream/stream.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/stream/stream.go b/stream/stream.go
index 149dc06..e9082ec 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -5,6 +5,7 @@ package stream
 import (
 	"fmt"
 	gomath "math"
+	"math/big"
 	"math/bits"
 	"reflect"
 	"sync"
@@ -898,10 +899,23 @@ func Abs[T constraint.SignedInteger](it iter.Iter[T]) iter.Iter[T] {
 	})(it)
 }
 
+// newBigOps constructs a new zero value. A *big.Float has a precision of zero, so that when it is the receiver of an
+// operation the result has the precision of the operands.
+func newBigOps[T constraint.BigOps[T]]() T {
+	var val T
+	conv.ToBigOps(0, &val)
+
+	if bf, isa := any(val).(*big.Float); isa {
+		bf.SetPrec(0)
+	}
+
+	return val
+}
+
 // AbsBigOps is the *big.Int, *big.Float, *big.Rat specialization of Abs
 func AbsBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return Map(func(v T) T {
-		return v.Abs(v)
+		return newBigOps[T]().Abs(v)
 	})(it)
 }
 
-- 
2.43.0


From daa2515b85195549b5d31e5331308a1459630d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 28/71] fix: SumBigOps and AvgBigOps keep the precision of
 *big.Float elements

---
 stream/stream.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index e9082ec..e80ed8e 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1014,31 +1014,29 @@ func AvgBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return iter.OfIter(
 		func() (T, error) {
 			var (
-				sum   T
-				count T
-				one   T
+				sum   = newBigOps[T]()
+				count int64
 				val   T
-				avg   T
+				avg   = newBigOps[T]()
 				zv    T
 				err   error
 			)
-			conv.ToBigOps(0, &sum)
-			conv.ToBigOps(0, &count)
-			conv.ToBigOps(1, &one)
 
 			for {
 				if val, err = it.Next(); err == nil {
 					// Sum all values and count them
-					sum.Add(sum, val)
-					count.Add(count, one)
+					sum = newBigOps[T]().Add(sum, val)
+					count++
 				} else if err == iter.EOI {
-					if count.Sign() == 0 {
+					if count == 0 {
 						// Empty result
 						return zv, err
 					}
 
 					// Non-empty result - divisor = zero handled above, so Div will never fail
-					math.DivBigOps(sum, count, &avg)
+					var dv T
+					conv.ToBigOps(count, &dv)
+					math.DivBigOps(sum, dv, &avg)
 					break
 				} else {
 					return zv, err
@@ -1099,12 +1097,9 @@ func Sum[T constraint.IntegerAndFloat](it iter.Iter[T]) iter.Iter[T] {
 
 // SumBigOps is the *big.Int, *big.Float, *big.Rat specialization of Sum
 func SumBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
-	var sum T
-	conv.ToBigOps(0, &sum)
-
 	return Reduce(
 		func(a, b T) T {
-			return sum.Add(a, b)
+			return newBigOps[T]().Add(a, b)
 		},
 	)(it)
 }
-- 
2.43.0


From 7d8c0aac444112ce8c491860fa10adff2bb39c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 29/71] fix: ExpandMaps does not panic on nil interface values

---
 stream/stream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index e80ed8e..e94aae6 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -590,9 +590,11 @@ func ExpandMaps[K comparable, V any](it iter.Iter[map[K]V]) iter.Iter[tuple.Two[
 			}
 		}
 
-		val := tuple.Of2(mr.Key().Interface().(K), mr.Value().Interface().(V))
+		// A nil interface key or value has no dynamic type to assert, it is the zero value
+		key, _ := mr.Key().Interface().(K)
+		val, _ := mr.Value().Interface().(V)
 
-		return val, nil
+		return tuple.Of2(key, val), nil
 	})
 }
 
-- 
2.43.0


From b53d86ee23908e9e33c729f38d5b4dc89b8a5b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 30/71] fix: Parallel returns exactly what the transforms
 produce for each bucket

---
 stream/stream.go | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index e94aae6..a00792d 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1189,8 +1189,8 @@ func generateRanges(numItems uint, info []PInfo) [][]uint {
 // If the input has one item, the transforms are performed in the same thread.
 // If the input has two or more items, the above algorithm is used to perform transforms in two or more threads.
 //
-// If types T and U are the same, then a single slice is allocated to contain the input and modified in place to produce
-// the output. Otherwise, two slices are allocated, one for input and one for output.
+// The transforms may produce any number of items for each bucket (eg, they may filter items). The results of the buckets
+// are combined in the order of the buckets.
 func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInfo) func(iter.Iter[T]) iter.Iter[U] {
 	return func(source iter.Iter[T]) iter.Iter[U] {
 		// Get values into a slice
@@ -1216,42 +1216,27 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 		// At least two items, as required by generateRanges. Get slice ranges.
 		sliceRanges := generateRanges(numItems, info)
 
-		// Determine a slice to use for the output
-		var (
-			zt     T
-			zu     U
-			output []U
-		)
-		if reflect.TypeOf(zt) == reflect.TypeOf(zu) {
-			// T and U are the same type, modify input slice in place
-			output = any(input).([]U)
-		} else {
-			// Create a separate output slice
-			output = make([]U, numItems)
-		}
-
 		// Create a WaitGroup that can wait for all threads to complete
 		var (
-			wg   sync.WaitGroup
-			errs = make([]error, len(sliceRanges))
+			wg      sync.WaitGroup
+			outputs = make([][]U, len(sliceRanges))
+			errs    = make([]error, len(sliceRanges))
 		)
 
-		// The function to execute in each thread, accepting source and target subslices
-		threadFn := func(threadNum int, in []T, out []U) {
+		// The function to execute in each thread, accepting source subslice
+		threadFn := func(threadNum int, in []T) {
 			// Decrement number of threads remaining once transforms are complete
 			defer wg.Done()
 
-			// Perform transforms and copy to output
-			_, threadErr := ReduceIntoSlice(out)(transforms(iter.OfSlice(in))).Next()
-
-			// In case an error occurs, populate the appropriate errs slot
-			errs[threadNum] = threadErr
+			// Perform transforms, which may produce more or fewer items than the source subslice.
+			// In case an error occurs, populate the appropriate errs slot.
+			outputs[threadNum], errs[threadNum] = ReduceToSlice(transforms(iter.OfSlice(in))).Next()
 		}
 
 		// Create the threads, passing a subslice of input to each thread for processing
 		for threadNum, sliceRange := range sliceRanges {
 			wg.Add(1)
-			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]], output[sliceRange[0]:sliceRange[1]])
+			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]])
 		}
 
 		// Wait for threads to complete
@@ -1266,6 +1251,6 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 			}
 		}
 
-		return funcs.Ternary(err == nil, iter.OfSlice(output), iter.SetError(iter.OfEmpty[U](), err))
+		return funcs.Ternary(err == nil, ExpandSlices(iter.OfSlice(outputs)), iter.SetError(iter.OfEmpty[U](), err))
 	}
 }
-- 
2.43.0


From b0e3a49709e92a99203b53d2161ebb169762c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 31/71] fix: a JSON string containing the escape \u0022 is not
 terminated by it

---
 encoding/json/parse/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 143bd8b..3150468 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -199,7 +199,9 @@ func lexString(it iter.Iter[rune]) (token, error) {
                     hexVal = hexValCombined
 				}
 
-				val = hexVal
+				// As for an escaped double quote, later code cannot be given a \" written as \u0022
+				str = append(str, hexVal)
+				continue
 			default:
 				return zv, fmt.Errorf(errIllegalStringEscapeMsg, string('\\')+string(val))
 			}
-- 
2.43.0


From 1b96972935aa32697e2cd46107ef30d9fdf6f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 32/71] fix: a negative JSON number cannot have a leading zero

---
 encoding/json/parse/lex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 3150468..2414b48 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -262,11 +262,14 @@ func lexNumber(it iter.Iter[rune]) (token, error) {
 		}
 
 		if (val >= '0') && (val <= '9') {
-			haveDigit = true
 			str = append(str, val)
 			if leadingZero {
 				return die()
 			}
+
+			// The first digit may be after a -
+			leadingZero = (!haveDigit) && (val == '0')
+			haveDigit = true
 		} else if val == '.' {
 			str = append(str, val)
 			if haveDigit {
-- 
2.43.0


From b0577e1af9bbf39b8a5dc26f4eaa1d4e746364cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 33/71] fix: a JSON object key or array comma must be followed
 by a value

---
 encoding/json/parse/parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 53aea2d..1a36554 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -134,6 +134,10 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			// A problem
 			return zv, err // Case 10
 		}
+		if value.Type() == json.Invalid {
+			// A token that cannot be a value
+			return zv, fmt.Errorf(errObjectKeyRequiresValueMsg, key.value)
+		}
 		object[key.value] = value
 
 		// Expect a comma or closing brace
@@ -202,6 +206,10 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 4
 			}
+			if value.Type() == json.Invalid {
+				// A token that cannot be a value
+				return zv, errArrayRequiresValueOrBracket
+			}
 
 			// Return first value
 			first = false
@@ -233,6 +241,10 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 9
 			}
+			if value.Type() == json.Invalid {
+				// A token that cannot be a value
+				return zv, errArrayRequiresValue
+			}
 
 			return value, nil
 		}
-- 
2.43.0


From 491956b3ab9ac63bdbd5334bca6983d65886aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 34/71] fix: a JSON object cannot have a comma before the
 closing brace

---
 encoding/json/parse/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 1a36554..268c8a4 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -92,8 +92,8 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			return zv, err // Case 2
 		}
 
-		// If closing brace, valid empty object
-		if key.typ == tCBrace {
+		// If closing brace before any key, valid empty object. A closing brace cannot occur after a comma.
+		if (key.typ == tCBrace) && (len(object) == 0) {
 			return json.MapToValue(object)
 		}
 
-- 
2.43.0


From 070fd9392ded333d90d2ede83266f11f1b6ddcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 35/71] fix: a JSON document cannot be followed by more content

---
 encoding/json/parse/parse.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 268c8a4..1465a64 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -23,6 +23,7 @@ var (
 	errArrayRequiresValueOrBracket           = fmt.Errorf("A JSON array must have an element or closing bracket after the opening bracket")
 	errArrayRequiresCommaOrBracket           = fmt.Errorf("A JSON array element must be followed by a comma or closing bracket")
 	errEmptyDocument                         = fmt.Errorf("A JSON document cannot be empty")
+	errEndOfDocumentRequired                 = fmt.Errorf("A JSON document cannot be followed by anything except whitespace")
 	errObjectOrArrayRequired                 = fmt.Errorf("A JSON document must begin with a brace or bracket")
 )
 
@@ -258,6 +259,19 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 	})
 }
 
+// parseEnd verifies there are no more tokens after the end of the document
+func parseEnd(it iter.Iter[token]) error {
+	switch _, err := it.Next(); err {
+	case nil:
+		return errEndOfDocumentRequired
+	case iter.EOI:
+		return nil
+	default:
+		// A problem
+		return err
+	}
+}
+
 // Iterate parses a JSON document into an iter[json.Value].
 // If the document is an object, the object is parsed completely before returning it as an iter of one element.
 // If the document is an array, the array top level elements are parsed as the returnd iter is iterated.
@@ -292,13 +306,29 @@ func Iterate(src io.Reader) iter.Iter[json.Value] {
 			return iter.SetError(iter.OfEmpty[json.Value](), err) // Case 3
 		}
 
+		if err = parseEnd(it); err != nil {
+			return iter.SetError(iter.OfEmpty[json.Value](), err)
+		}
+
 		return iter.OfOne(val)
 	}
 
 	// If array, return iter of array elements, which are parsed later as the iter is iterated
 	if firstTok.typ == tOBracket {
 		it.Unread(firstTok)
-		return parseArray(it)
+		elements := parseArray(it)
+
+		return iter.OfIter(func() (json.Value, error) {
+			element, err := elements.Next()
+			if err == iter.EOI {
+				// The closing bracket has been read
+				if endErr := parseEnd(it); endErr != nil {
+					err = endErr
+				}
+			}
+
+			return element, err
+		})
 	}
 
 	// Die if some other token exists that is not a brace or bracket
@@ -336,6 +366,10 @@ func Parse(src io.Reader) (json.Value, error) {
 			return zv, err // Case 3
 		}
 
+		if err = parseEnd(it); err != nil {
+			return zv, err
+		}
+
 		return doc, nil
 	}
 
-- 
2.43.0


From 712cadaa79338409adfdc5b5b5a5ad0a840edbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 36/71] fix: a JSON number must be a valid number

---
 encoding/json/value.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 4ea1cf4..5ec8821 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -15,7 +15,7 @@ import (
 )
 
 // NumberString regex
-var numberStringRegex = regexp.MustCompile("-?[0-9]+([.][0-9]+)?(e[0-9]+)?")
+var numberStringRegex = regexp.MustCompile("^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][+-]?[0-9]+)?$")
 
 // Error constants
 var (
@@ -227,8 +227,9 @@ func numberToValue(val any) (nval Value, err error) {
 			return
 		}
 
-		// A NumberString could be the empty string, or "foo" or some other value that is not a number
-		if ns, isa := val.(NumberString); isa && (!numberStringRegex.MatchString(string(ns))) {
+		// A NumberString could be the empty string, or "foo" or some other value that is not a number.
+		// A float could be NaN or an infinity.
+		if !numberStringRegex.MatchString(str) {
 			err = errNotNumber
 			return
 		}
-- 
2.43.0


From f9027159187bc04896a3aadfe28913c98eca0a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 37/71] fix: ToValue accepts map[string]Value and []Value

---
 encoding/json/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 5ec8821..47d8128 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -93,6 +93,12 @@ func toValue(val any) (res Value, err error) {
 			return
 		}
 
+		// Object and Array of Values
+	} else if mp, isa := val.(map[string]Value); isa {
+		res, err = MapToValue(mp)
+	} else if arr, isa := val.([]Value); isa {
+		res, err = SliceToValue(arr)
+
 		// Boolean
 	} else if bln, isa := val.(bool); isa {
 		res = BoolToValue(bln)
-- 
2.43.0


From 6a7eeea1104b05e4573887407f5bce4970e576f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 38/71] fix: ToValue does not panic on subtypes of string

---
 encoding/json/value.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 47d8128..8158c2a 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -116,7 +116,8 @@ func toValue(val any) (res Value, err error) {
 			if typ.AssignableTo(goreflect.TypeOf(NumberString(""))) {
 				res, err = numberToValue(val.(NumberString))
 			} else {
-				res = StringToValue(val.(string))
+				// The type may be a subtype of string
+				res = StringToValue(goreflect.ValueOf(val).String())
 			}
 
 			return
-- 
2.43.0


From 0b07758e6566045f62d0a9b5827ae2a55348c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 39/71] fix: JSON strings and keys are escaped when written

---
 encoding/json/write/write.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/encoding/json/write/write.go b/encoding/json/write/write.go
index da80e08..60dee24 100755
--- a/encoding/json/write/write.go
+++ b/encoding/json/write/write.go
@@ -3,11 +3,31 @@ package write
 // SPDX-License-Identifier: Apache-2.0
 
 import (
+	"fmt"
+
 	"github.com/bantling/micro/encoding/json"
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/io/writer"
 )
 
+// quote returns the runes of a JSON string for a string, escaping the characters that cannot appear in a JSON string
+func quote(str string) []rune {
+	runes := []rune{'"'}
+
+	for _, r := range str {
+		switch {
+		case (r == '"') || (r == '\\'):
+			runes = append(runes, '\\', r)
+		case r < ' ':
+			runes = append(runes, []rune(fmt.Sprintf("\\u%04x", r))...)
+		default:
+			runes = append(runes, r)
+		}
+	}
+
+	return append(runes, '"')
+}
+
 // Write writes any value to a writer
 func Write(jv json.Value, dst writer.Writer[rune]) error {
 	switch jv.Type() {
@@ -16,7 +36,7 @@ func Write(jv json.Value, dst writer.Writer[rune]) error {
 	case json.Array:
 		return WriteArray(jv, dst)
 	case json.String:
-		return dst.Write(append(append([]rune{'"'}, []rune(jv.AsString())...), '"')...)
+		return dst.Write(quote(jv.AsString())...)
 	case json.Number:
 		fallthrough
 	case json.Boolean:
@@ -46,7 +66,7 @@ func WriteObject(jv json.Value, dst writer.Writer[rune]) error {
 		}
 		i++
 
-		data = append(append(append(data, '"'), []rune(k)...), '"', ':')
+		data = append(append(data, quote(k)...), ':')
 		if err := dst.Write(data...); err != nil {
 			return err
 		}
-- 
2.43.0


From 38f5335cb1df0e99a82e18374f96d09f7f28d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 40/71] fix: deeply nested JSON is refused instead of
 exhausting the stack

---
 encoding/json/parse/lex.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 2414b48..e52b373 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -27,8 +27,12 @@ const (
 	tEOF
 )
 
+// maxDepth is the maximum depth of nested objects and arrays
+const maxDepth = 10000
+
 // error constants
 var (
+	errTooDeep                        = fmt.Errorf("Objects and arrays cannot be nested more than %d deep", maxDepth)
 	errIncompleteStringMsg            = "Incomplete string %s: a string must be terminated by a \""
 	errControlCharInStringMsg         = "The ascii control character 0x%02x is not valid in a string"
 	errIncompleteStringEscapeMsg      = "Incomplete string escape in %s"
@@ -467,9 +471,25 @@ func lex(it iter.Iter[rune]) (token, error) {
 	return zv, fmt.Errorf(errInvalidCharMsg, string(val))
 }
 
-// lexer uses lex and converts an iter[rune] into an iter[token]
+// lexer uses lex and converts an iter[rune] into an iter[token].
+// Objects and arrays that are nested too deeply are an error, as parsing them could exhaust the stack, which is fatal.
 func lexer(it iter.Iter[rune]) iter.Iter[token] {
+	depth := 0
+
 	return iter.OfIter(func() (token, error) {
-		return lex(it)
+		tok, err := lex(it)
+
+		if err == nil {
+			switch tok.typ {
+			case tOBracket, tOBrace:
+				if depth++; depth > maxDepth {
+					return token{}, errTooDeep
+				}
+			case tCBracket, tCBrace:
+				depth--
+			}
+		}
+
+		return tok, err
 	})
 }
-- 
2.43.0


From 8c3d74a45cd3de4d07129c6a5c4969afbdd3f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 41/71] fix: a key smaller than all others is added first, not
 second

---
 funcs/funcs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index da07f9f..2d8bd9b 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -610,6 +610,7 @@ func MapKeysToSlice[K comparable, V any](mp map[K]V) []K {
 // OrderedTuple2Search searches a []Tuple.Two[K, V] for a Tuple.Two whose K value is the one provided.
 // The result is the index of the largest K that is <= the K provided, and true if it is an exact match.
 // When false is returned, it means if the given K is to be inserted, it needs to be inserted after the returned index.
+// The exception is a K that is smaller than every key: the result is 0, false, and it needs to be inserted before index 0.
 //
 // # If the slice is nil or empty, then the result is -1, false
 //
@@ -682,6 +683,10 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 		// index of matching tuple, replace tuple with new tuple that has value appended to slice
 		(*mp)[index] = tuple.Of2(key, append((*mp)[index].U, value))
 
+	case key < (*mp)[0].T:
+		// key is smaller than all existing keys, insert before the first tuple
+		*mp = append([]tuple.Two[K, []V]{tuple.Of2(key, []V{value})}, *mp...)
+
 	default:
 		// index of tuple that a new tuple should be inserted after
 		// due to pointer used for original slice, we have to start building from an empty slice
-- 
2.43.0


From a83c43eef20960501fec62885a372a382857096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 42/71] fix: removing a key does not shift the elements of a
 slice being iterated

---
 funcs/funcs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 2d8bd9b..d70376f 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -697,7 +697,8 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 // OrderedTuple2SliceRemoveKey removes a key from the []Tuple.Two[K, V], if the key exists
 func OrderedTuple2SliceRemoveKey[K constraint.Ordered, V any](mp *[]tuple.Two[K, V], key K) {
 	if index, matches := OrderedTuple2Search(*mp, key); matches {
-		*mp = append((*mp)[:index], (*mp)[index+1:]...)
+		// build a new slice, so that any slice that shares the same elements (eg, one being iterated) is unaffected
+		*mp = append(append([]tuple.Two[K, V]{}, (*mp)[:index]...), (*mp)[index+1:]...)
 	}
 }
 
-- 
2.43.0


From a0c16f001ff32cdcf4b119898971d9c793b6ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 43/71] fix: removing an uncomparable value does not remove
 different values that print the same

---
 funcs/funcs.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index d70376f..06d374c 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -200,6 +200,29 @@ func SliceRemove[T comparable](slc []T, val T, all ...bool) []T {
 	return newSlc
 }
 
+// sameUncomparable is true if two values are the same value: they have the same type, and are either equal with ==, or if
+// they cannot be compared with == (eg funcs), they have the same pointer.
+func sameUncomparable(a, b any) (same bool) {
+	typ := reflect.TypeOf(a)
+	if typ != reflect.TypeOf(b) {
+		return false
+	}
+
+	samePtr := func() bool { return fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b) }
+	if (typ != nil) && !typ.Comparable() {
+		return samePtr()
+	}
+
+	// A comparable type may contain interface values that are not comparable
+	defer func() {
+		if recover() != nil {
+			same = samePtr()
+		}
+	}()
+
+	return a == b
+}
+
 // SliceRemoveUncomparable removes a slice element from a slice of uncomparable values (they must be pointers).
 // By default, only the first occurrence is removed. If the optional all param is true, then all occurrences are removed.
 // The new slice is returned.
@@ -207,13 +230,10 @@ func SliceRemove[T comparable](slc []T, val T, all ...bool) []T {
 // Note: If only the first occurrence is removed, then the the append builtin is used twice, once with all elements before
 // the occurrence, and again for all elements after it. Otherwise, a new slice is populated with all other elements.
 func SliceRemoveUncomparable[T any](slc []T, val T, all ...bool) []T {
-	// Get pointer of val
-	valPtr := fmt.Sprintf("%p", any(val))
-
 	// Handle case of first occurrence
 	if !SliceIndex(all, 0, false) {
 		for i, t := range slc {
-			if fmt.Sprintf("%p", any(t)) == valPtr {
+			if sameUncomparable(t, val) {
 				newSlc := make([]T, 0, len(slc)-1)
 				newSlc = append(append(newSlc, (slc)[0:i]...), (slc)[i+1:]...)
 				return newSlc
@@ -227,7 +247,7 @@ func SliceRemoveUncomparable[T any](slc []T, val T, all ...bool) []T {
 	// Handle case of all occurrences
 	newSlc := []T{}
 	for _, t := range slc {
-		if fmt.Sprintf("%p", any(t)) != valPtr {
+		if !sameUncomparable(t, val) {
 			newSlc = append(newSlc, t)
 		}
 	}
-- 
2.43.0


From 7fa20461a82d7a4b498e3fd6e7b3e2f4200672e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 44/71] fix: cached supplier is invoked at most once when it
 panics or is called concurrently

---
 funcs/funcs.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 06d374c..3ef6cce 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/tuple"
@@ -1290,15 +1291,31 @@ func SupplierOf[T any](value T) func() T {
 
 // SupplierCached generates a func() T that caches the result of the given supplier on the first call.
 // Any subseqquent calls return the cached value, guaranteeing the provided supplier is invoked at most once.
+// If the supplier panics, every call panics with the same value.
+// The generated function can be called by multiple go routines.
 func SupplierCached[T any](supplier func() T) func() T {
 	var (
-		isCached  bool
+		once      sync.Once
 		cachedVal T
+		panicked  bool
+		panicVal  any
 	)
 
 	return func() T {
-		if !isCached {
-			isCached, cachedVal = true, supplier()
+		once.Do(func() {
+			panicked = true
+			defer func() {
+				if panicked {
+					panicVal = recover()
+				}
+			}()
+
+			cachedVal = supplier()
+			panicked = false
+		})
+
+		if panicked {
+			panic(panicVal)
 		}
 
 		return cachedVal
-- 
2.43.0


From 1bddd89ae528dbd2ec6991f7e49c39e322297228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 45/71] fix: SliceFlatten accepts nil interface elements and
 named slice types

---
 funcs/funcs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 3ef6cce..71af1d8 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -114,7 +114,7 @@ func SliceFlatten[T any](value any) []T {
 
 	// If original value is already one dimenion return it by reference
 	if numDims == 1 {
-		return value.([]T)
+		return vslc.Convert(reflect.TypeOf(rslc)).Interface().([]T)
 	}
 
 	// Recursively iterate all dimensions of the given slice, some dimensions might be empty
@@ -128,7 +128,9 @@ func SliceFlatten[T any](value any) []T {
 			if val.Kind() == reflect.Slice {
 				f(val)
 			} else {
-				rslc = append(rslc, val.Interface().(T))
+				// If T is an interface, the element may be nil, which cannot be type asserted
+				elem, _ := val.Interface().(T)
+				rslc = append(rslc, elem)
 			}
 		}
 	}
-- 
2.43.0


From 1a206af54cc0ad702e7d7569af588101f6f2fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 46/71] fix: SnakeToCamelCase handles empty and multi byte
 words

---
 funcs/funcs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 71af1d8..d765bba 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -10,6 +10,7 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"unicode/utf8"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/tuple"
@@ -1412,8 +1413,10 @@ func TryTo(tryFn func(), panicFn func(any), closers ...func()) {
 func SnakeToCamelCase(snake string) string {
 	var sb strings.Builder
 	for _, word := range strings.Split(snake, "_") {
-		sb.WriteString(strings.ToUpper(string(word[0])))
-		sb.WriteString(string(word[1:]))
+		// There is an empty word if there is a leading, trailing, or doubled underscore
+		_, size := utf8.DecodeRuneInString(word)
+		sb.WriteString(strings.ToUpper(word[:size]))
+		sb.WriteString(word[size:])
 	}
 
 	return sb.String()
-- 
2.43.0


From 39d6ca885adbd65adc633d9129b1e9500cf42be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 47/71] fix: CamelCaseToSnakeCase handles empty strings, and
 keeps chars other than a-z

---
 funcs/funcs.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index d765bba..a8c6fde 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -6,10 +6,10 @@ import (
 	"fmt"
 	"math/cmplx"
 	"reflect"
-	"regexp"
 	"sort"
 	"strings"
 	"sync"
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/bantling/micro/constraint"
@@ -36,11 +36,6 @@ const (
 	ALL = true
 )
 
-var (
-	// ucaseRegexp is a regexp for uppercase chars
-	camelWordsRegexp = regexp.MustCompile("[A-Z][a-z]*")
-)
-
 // ==== Slices
 
 // SliceAdd makes adding values to slices easier, by automatically creating the slice as needed.
@@ -1423,19 +1418,20 @@ func SnakeToCamelCase(snake string) string {
 }
 
 // CamelCaseToSnakeCase converts [cC]amelCase to snake_case
+// If the input is empty, the result is empty
 func CamelCaseToSnakeCase(camel string) string {
-	var (
-		sb       strings.Builder
-		words    = camelWordsRegexp.FindAllString(strings.ToUpper(string(camel[0]))+camel[1:], -1)
-		lastWord = len(words) - 1
-	)
+	var sb strings.Builder
 
-	for i, word := range words {
-		sb.WriteString(strings.ToLower(string(word[0])))
-		sb.WriteString(word[1:])
-		if i < lastWord {
+	// Every uppercase letter after the first letter begins a new word, all other chars are part of the current word
+	for i, r := range camel {
+		if (i > 0) && unicode.IsUpper(r) {
 			sb.WriteRune('_')
 		}
+
+		if (i == 0) || unicode.IsUpper(r) {
+			r = unicode.ToLower(r)
+		}
+		sb.WriteRune(r)
 	}
 
 	return sb.String()
-- 
2.43.0


From 5deb0ae1085f89b1dc74a32561d2d7998690d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 48/71] fix: REST handlers can be added while requests are
 being served

---
 rest/rest.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rest/rest.go b/rest/rest.go
index 060d1c2..6c79172 100755
--- a/rest/rest.go
+++ b/rest/rest.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net/http"
 	"regexp"
+	"sync"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -46,6 +47,8 @@ type ServeMux struct {
 	// [](method, regexp, handler)
 	// A flat structure is used to disambiguate a 404 not found error from a 405 method not allowed error
 	handlers []tuple.Three[string, *regexp.Regexp, Handler]
+	// mutex allows handlers to be added while requests are being served
+	mutex sync.RWMutex
 }
 
 // Handle maps the given method and regex string to the given handler.
@@ -74,6 +77,8 @@ func (sm *ServeMux) Handle(method, pattern string, handler Handler) error {
 	}
 
 	// Add method, pattern, and handler triple
+	sm.mutex.Lock()
+	defer sm.mutex.Unlock()
 	funcs.SliceAdd(&sm.handlers, tuple.Of3(method, regex, handler))
 
 	return nil
@@ -85,14 +90,19 @@ func (sm *ServeMux) MustHandle(method, pattern string, handler Handler) {
 }
 
 // ServeHTTP is http.Handler interface method
-func (sm ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+func (sm *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	// Get the method and url
 	method, url := r.Method, r.URL.Path
 
 	// Iterate the method, regexp, and handler triples to find the first method match and regexp url matches, if any
 	var urlMatched bool
 
-	for _, methodPatternHandler := range sm.handlers {
+	// Handlers are only ever added to the end, so iterating the current ones does not require holding the lock
+	sm.mutex.RLock()
+	handlers := sm.handlers
+	sm.mutex.RUnlock()
+
+	for _, methodPatternHandler := range handlers {
 		mMethod, mPattern, mHandler := methodPatternHandler.Values()
 		parts := mPattern.FindStringSubmatch(url)
 
-- 
2.43.0


From 17cde3793778347d3847ed6ad19d296999c6ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 49/71] fix: a body that is not gzip is a read error, not a
 panic

---
 rest/content.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rest/content.go b/rest/content.go
index f31063f..7a7988d 100755
--- a/rest/content.go
+++ b/rest/content.go
@@ -9,7 +9,6 @@ import (
 
 	"github.com/bantling/micro/encoding/json"
 	"github.com/bantling/micro/encoding/json/parse"
-	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/iter"
 )
 
@@ -22,12 +21,28 @@ var (
 	jsonContent = "application/json"
 )
 
+// errorReader is an io.Reader that always returns an error
+type errorReader struct {
+	err error
+}
+
+// Read is io.Reader interface method
+func (r errorReader) Read([]byte) (int, error) {
+	return 0, r.err
+}
+
 // AcceptGzip checks if the request Accept-Encoding header is gzip.
 // If so, it returns a new io.Reader which decompresses the body io.Reader using gzip.
 // Otherwise, it returns the body io.Reader as is.
+// If the body does not begin with a valid gzip header, the new io.Reader returns the error.
 func AcceptGzip(r *http.Request) goio.Reader {
 	if r.Header.Get(acceptEncoding) == gzipEncoding {
-		return funcs.MustValue(gzip.NewReader(r.Body))
+		gzr, err := gzip.NewReader(r.Body)
+		if err != nil {
+			return errorReader{err}
+		}
+
+		return gzr
 	}
 
 	return r.Body
-- 
2.43.0


From b8bfe0e7e2f2aa8256fc4682f458a970c0f15328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 50/71] fix: a pointer to a nil pointer to a Maybe is not a
 safe Maybe

---
 union/reflect/reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index 0d0e0ec..a708b47 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -36,11 +36,11 @@ func GetMaybeType(typ goreflect.Type) goreflect.Type {
 // safeMaybeAccess returns true if the given reflect.Value can safely be accessed as a Maybe value, which is true if:
 // - The reflect.Value is valid
 // - GetMaybeType(val.Type()) returns a non-nil reflect.Type
-// - The reflect.Value is a non-nil pointer or a value
+// - The reflect.Value is a value, or zero or more pointers to a value that are all non-nil
 func safeMaybeAccess(val goreflect.Value) bool {
 	return val.IsValid() &&
 		(GetMaybeType(val.Type()) != nil) &&
-		((val.Kind() != goreflect.Pointer) || !val.IsNil())
+		reflect.DerefValue(val).IsValid()
 }
 
 // MaybeValueIsPresent indicates if the given reflect.Value wraps a present Maybe. which is true if:
-- 
2.43.0


From 7779e84c9f36d0d23f60cc7c6c2b78a47cf42252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 51/71] fix: SetMaybeValue returns an error for a value of the
 wrong type

---
 union/reflect/reflect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index a708b47..5a20568 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -17,6 +17,7 @@ var (
 var (
 	errGetMaybeValueEmptyMsg         = "Cannot get the Maybe value of an empty %s"
 	errSetMaybeValueUnsafeMsg        = "Cannot set the Maybe value of type %s"
+	errSetMaybeValueTypeMsg          = "Cannot set the Maybe value of type %s to a value of type %s"
 	errSetMaybeValueUnaddressableMsg = "Cannot set the Maybe value of type %s as it is not a pointer and not addressable"
 )
 
@@ -76,6 +77,10 @@ func SetMaybeValue(dst, val goreflect.Value) error {
 		return fmt.Errorf(errSetMaybeValueUnaddressableMsg, reflect.TypeOf(dst))
 	}
 
+	if !val.IsValid() || !val.Type().AssignableTo(GetMaybeType(dst.Type())) {
+		return fmt.Errorf(errSetMaybeValueTypeMsg, reflect.TypeOf(dst), reflect.TypeOf(val))
+	}
+
 	reflect.DerefValue(dst).Addr().MethodByName("Set").Call([]goreflect.Value{val})
 	return nil
 }
-- 
2.43.0


From 0203808691811e781dc5c2828e0d36c8d90250b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 52/71] fix: TypeAssert of an invalid value is an error, not a
 panic

---
 reflect/reflect.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index 85043e2..b2043d1 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -241,9 +241,10 @@ func ResolveValueType(val goreflect.Value) goreflect.Value {
 // Unlike Go's type assertion syntax, this function can be called with any kind of value and any type.
 // If desired, an optional message can be provided that is placed at the beginning of the error message, followed by a colon and space.
 func TypeAssert(val goreflect.Value, typ goreflect.Type, msg ...string) error {
-	if rt := ResolveValueType(val).Type(); rt != typ {
+	rv := ResolveValueType(val)
+	if !rv.IsValid() || (rv.Type() != typ) {
 		prefix := funcs.SliceIndex(msg, 0)
-		return fmt.Errorf(errTypeAssertMsg, funcs.Ternary(prefix == "", prefix, prefix+": "), val.Type(), rt, typ)
+		return fmt.Errorf(errTypeAssertMsg, funcs.Ternary(prefix == "", prefix, prefix+": "), TypeOf(val), TypeOf(rv), typ)
 	}
 
 	return nil
-- 
2.43.0


From 549432d435fd9bd7275f25bb86032d40a270c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 53/71] fix: nil pointer to a primitive subtype is converted to
 a pointer to the base type

---
 reflect/reflect.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reflect/reflect.go b/reflect/reflect.go
index b2043d1..4222a9b 100755
--- a/reflect/reflect.go
+++ b/reflect/reflect.go
@@ -288,9 +288,11 @@ func ValueToBaseType(val goreflect.Value) goreflect.Value {
 		// If so, then convert the value to the base type
 		return val.Convert(pt)
 	} else if k == goreflect.Ptr {
-		k = val.Elem().Kind()
+		// Use the element type rather than the element, as the pointer may be nil
+		typ := val.Type().Elem()
+		k = typ.Kind()
 		pt = kindToType[k]
-		if (pt != nil) && (k.String() != val.Elem().Type().String()) {
+		if (pt != nil) && (k.String() != typ.String()) {
 			return val.Convert(goreflect.PtrTo(pt))
 		}
 	}
-- 
2.43.0


From e1c0ff2a3d3f5dfeb779660404fb00efa3ff9fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 54/71] fix: setting the base path of a generator a second time
 panics instead of deleting the new path

---
 code/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 458a9be..4a3bfe7 100755
--- a/code/api.go
+++ b/code/api.go
@@ -68,7 +68,7 @@ func (bg BaseGenerator) GetBasePath() string {
 // SetBasePath panics if the base path has already been set
 func (bg *BaseGenerator) SetBasePath(bp string) {
 	// Die if base path has already been set
-	bg.basePath.SetOrError(bp)
+	funcs.Must(bg.basePath.SetOrError(bp))
 
 	// Use clean path
 	cleanPath := path.Clean(bp)
-- 
2.43.0


From 020d6f7e129a7079ff5f5a53f92cb24b5af98ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 55/71] fix: generator Dir does not panic, and makes the
 directory current

---
 code/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 4a3bfe7..f1ecfc9 100755
--- a/code/api.go
+++ b/code/api.go
@@ -115,7 +115,8 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
 
-	bg.dirs[dirPath] = true
+	funcs.MapSet(&bg.dirs, dirPath, true)
+	bg.currentDir = dirPath
 }
 
 // Src panics if the file already exists
-- 
2.43.0


From f2590d96f2bfec76c0686e30e207a0bf1522b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 56/71] fix: generator directories are created with access
 permissions

---
 code/api.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/api.go b/code/api.go
index f1ecfc9..38e42cf 100755
--- a/code/api.go
+++ b/code/api.go
@@ -4,7 +4,6 @@ package code
 
 import (
 	"fmt"
-	"io/fs"
 	"os"
 	"path"
 
@@ -20,6 +19,9 @@ const (
 	errDirExistsInBasePathMsg = "The dir %s already exists in base path %s"
 	errCreateDirInBasePathMsg = "The dir %s could not be created in base path %s: it already exists"
 	errCreateSrcFileInDirMsg  = "The file %s could not be created in dir %s: %s"
+
+	// dirPerm is the permissions of created dirs, before umask
+	dirPerm = 0o755
 )
 
 // Generator is the interface describing an easy to use fluent API for generating packages of code.
@@ -78,7 +80,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 	if err != nil {
 		if os.IsNotExist(err) {
 			// Doesn't exist is ok, we'll just create all the parts that are missing for it
-			if err = os.MkdirAll(cleanPath, fs.ModeDir); err != nil {
+			if err = os.MkdirAll(cleanPath, dirPerm); err != nil {
 				// Could not create some part
 				panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 			}
@@ -93,7 +95,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 			panic(fmt.Errorf(errBasePathDeleteMsg, cleanPath, err))
 		}
 
-		if err = os.Mkdir(cleanPath, fs.ModeDir); err != nil {
+		if err = os.Mkdir(cleanPath, dirPerm); err != nil {
 			// Could not recreate path
 			panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 		}
@@ -110,7 +112,7 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errDirExistsInBasePathMsg, dirPath, bg.basePath))
 	}
 
-	if err := os.MkdirAll(dirPath, fs.ModeDir); err != nil {
+	if err := os.MkdirAll(dirPath, dirPerm); err != nil {
 		// Could not create dir under base path
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
-- 
2.43.0


From 8027b044e0549652083145f52b4c91ee0106cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 57/71] fix: generator Src panics if there is no current
 directory instead of creating a file in the file system root

---
 code/api.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 38e42cf..d88b2e6 100755
--- a/code/api.go
+++ b/code/api.go
@@ -18,6 +18,7 @@ const (
 	errBasePathDeleteMsg      = "The base path %s could not be deleted: %s"
 	errDirExistsInBasePathMsg = "The dir %s already exists in base path %s"
 	errCreateDirInBasePathMsg = "The dir %s could not be created in base path %s: it already exists"
+	errSrcWithoutDirMsg       = "The file %s cannot be created: no dir has been created yet"
 	errCreateSrcFileInDirMsg  = "The file %s could not be created in dir %s: %s"
 
 	// dirPerm is the permissions of created dirs, before umask
@@ -121,8 +122,13 @@ func (bg *BaseGenerator) Dir(name string) {
 	bg.currentDir = dirPath
 }
 
-// Src panics if the file already exists
+// Src panics if no dir has been created, or the file already exists
 func (bg *BaseGenerator) Src(name string) {
+	if bg.currentDir == "" {
+		// Die if there is no current dir, the path would be relative to the root of the file system
+		panic(fmt.Errorf(errSrcWithoutDirMsg, name))
+	}
+
 	if funcs.Map2Test(bg.srcs, bg.currentDir, name) {
 		// Die if src already exists
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, error(nil)))
-- 
2.43.0


From f555c7b1bc18de1cd0ea9af7be268b8eefa8002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 58/71] fix: FloatStringToBigRat reports text that has no
 rational value, such as Inf, instead of succeeding with nil

---
 conv/bigrat.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index 0136f3b..16611d7 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -87,8 +87,11 @@ func FloatStringToBigRat(ival string, oval **big.Rat) error {
 		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
 	}
 
-	// If it is a float string, cannot fail to be parsed by StringToBigRat
-	StringToBigRat(ival, oval)
+	// Any form of infinity, or an excessive exponent, is a float string that cannot be parsed by StringToBigRat
+	if StringToBigRat(ival, oval) != nil {
+		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From eaa5a9fc79080f6465d6fdcf0499090cc162ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 59/71] fix: text of a number with an exponent beyond big.Float
 is refused instead of becoming infinity or zero

---
 conv/bigfloat.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index dfac18e..2ceab74 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"strings"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/funcs"
@@ -71,6 +72,12 @@ func StringToBigFloat(ival string, oval **big.Float) error {
 		return fmt.Errorf(errMsg, ival, ival, "*big.Float")
 	}
 
+	// An exponent too large to represent is parsed as infinity or zero
+	mantissa := strings.FieldsFunc(ival, func(r rune) bool { return strings.ContainsRune("eEpP", r) })[0]
+	if ((*oval).IsInf() && strings.ContainsAny(mantissa, "0123456789")) || (((*oval).Sign() == 0) && strings.ContainsAny(mantissa, "123456789")) {
+		return fmt.Errorf(errMsg, ival, ival, "*big.Float")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From d14cb7edd9dd73a9627b591f8d01f53bd2653ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 60/71] fix: rows already read from a CSV iterator are no
 longer overwritten by the next row

---
 iter/gen.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/iter/gen.go b/iter/gen.go
index a63c23c..c01f876 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -454,7 +454,6 @@ func CSVIterGen(src goio.Reader) func() ([]string, error) {
 
 	if !done {
 		csvRdr = csv.NewReader(src)
-		csvRdr.ReuseRecord = true
 	}
 
 	return func() ([]string, error) {
-- 
2.43.0


From 4509f7966a12241fd23bbd3abd2417593654dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 61/71] fix: CSV iterators return the same slice for every row
 again, as documented

---
 iter/gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iter/gen.go b/iter/gen.go
index c01f876..a63c23c 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -454,6 +454,7 @@ func CSVIterGen(src goio.Reader) func() ([]string, error) {
 
 	if !done {
 		csvRdr = csv.NewReader(src)
+		csvRdr.ReuseRecord = true
 	}
 
 	return func() ([]string, error) {
-- 
2.43.0


From dd9ebf903c81a1105c5d4ac085a0094d8098dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 62/71] fix: AnyTo refuses a nil interface instead of panicking

---
 conv/conv.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conv/conv.go b/conv/conv.go
index 8bf5181..fce37e4 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1081,6 +1081,11 @@ func MustTo[I, O constraint.Numeric | string](i I, o *O) {
 // AnyTo is a version of To that accepts input values of type any
 // The output value must still satisfy constraint.Numeric | string
 func AnyTo[O constraint.Numeric | string](i any, o *O) error {
+	// A nil interface has no type to convert from
+	if i == nil {
+		return fmt.Errorf(errAnyToInvalidIMsg, "nil")
+	}
+
 	var (
 		iv   = goreflect.ValueOf(i)
 		ival = reflect.ValueToBaseType(iv).Interface()
-- 
2.43.0


From c646cd7146344c90f4999bb697e2681f97c2eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 63/71] fix: ToBigOps converts subtypes of numeric types
 instead of panicking

---
 conv/conv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/conv.go b/conv/conv.go
index fce37e4..bd3f755 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1138,8 +1138,9 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 		return fmt.Errorf(errONonNilMsg, o)
 	}
 
+	// If i is a subtype, convert it to the base type, so we can find a conversion function
 	var (
-		ival = goreflect.ValueOf(i)
+		ival = reflect.ValueToBaseType(goreflect.ValueOf(i))
 		ityp = ival.Type()
 		oval = goreflect.ValueOf(o) // o cannot be nil, but o.Elem() can be nil
 		otyp = oval.Type().Elem()   // o.Type().Elem() cannot be nil
-- 
2.43.0


From 1e1592811008734216dce97a8638f94bad032832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 64/71] fix: converting a nil big value to another type is an
 error, not a panic or the text <nil>

---
 conv/conv.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/conv/conv.go b/conv/conv.go
index bd3f755..a55eca8 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -16,6 +16,7 @@ import (
 var (
 	errMsg                    = "The %T value of %s cannot be converted to %s"
 	errONonNilMsg             = "The target value of type %T cannot be nil"
+	errINonNilMsg             = "The source value of type %s cannot be nil"
 	errAnyToInvalidIMsg       = "AnyTo cannot convert the input type %s"
 	errReflectToInvalidSrc    = fmt.Errorf("ReflectTo source cannot be Invalid")
 	errReflectToInvalidTgt    = fmt.Errorf("ReflectTo target cannot be Invalid")
@@ -1068,6 +1069,11 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 		return nil
 	}
 
+	// A nil big type has no value to convert to another type
+	if reflect.IsNil(ival) {
+		return fmt.Errorf(errINonNilMsg, ityp)
+	}
+
 	// Construct a string of the input and output types (eg "int8int" means int8 -> int)
 	// Use the string as an index into the convertFromTo map
 	return convertFromTo[ityp.String()+otyp.String()](any(ival.Interface()), any(oval.Interface()))
@@ -1165,6 +1171,11 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 		return nil
 	}
 
+	// A nil big type has no value to convert to another type
+	if reflect.IsNil(ival) {
+		return fmt.Errorf(errINonNilMsg, ityp)
+	}
+
 	// Types differ, lookup conversion using types and execute it, returning result
 	return convertFromTo[ityp.String()+otyp.String()](ival.Interface(), oval.Interface())
 }
@@ -1230,6 +1241,11 @@ func ReflectTo(i, o goreflect.Value) error {
 		return fmt.Errorf(errReflectToLookupMsg, ityp, otyp.Elem())
 	}
 
+	// A nil big type has no value to convert to another type
+	if reflect.IsNil(ib) {
+		return fmt.Errorf(errINonNilMsg, ityp)
+	}
+
 	return convFn(ib.Interface(), ob.Interface())
 }
 
-- 
2.43.0


From f5a042aadad4548e6aa9a8273d93c1c536797f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 65/71] fix: NumberToValue refuses a nil *big.Rat instead of
 panicking

---
 encoding/json/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 8158c2a..42b445d 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -225,7 +225,7 @@ func StringToValue(val string) Value {
 func numberToValue(val any) (nval Value, err error) {
 	var str string
 
-	if br, isa := val.(*big.Rat); isa {
+	if br, isa := val.(*big.Rat); isa && (br != nil) {
 		// *big.Rat must be converted to a normalized string.
 		str = conv.BigRatToNormalizedString(br)
 	} else {
-- 
2.43.0


From 2f3150b53db867c33a1e0e4f91f25d683e7c1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 66/71] fix: a source file cannot be created a second time
 under another spelling of its name

---
 code/api.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/code/api.go b/code/api.go
index d88b2e6..b4893b9 100755
--- a/code/api.go
+++ b/code/api.go
@@ -129,19 +129,22 @@ func (bg *BaseGenerator) Src(name string) {
 		panic(fmt.Errorf(errSrcWithoutDirMsg, name))
 	}
 
-	if funcs.Map2Test(bg.srcs, bg.currentDir, name) {
+	// Different names may refer to the same file (eg a and ./a)
+	filePath := path.Clean(bg.currentDir + "/" + name)
+	fileDir, fileName := path.Split(filePath)
+
+	if funcs.Map2Test(bg.srcs, fileDir, fileName) {
 		// Die if src already exists
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, error(nil)))
 	}
 
-	path := bg.currentDir + "/" + name
-	f, err := os.Create(path)
+	f, err := os.Create(filePath)
 	if err != nil {
 		// Could not create src file under dir
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, err))
 	}
 
-	funcs.Map2Set(&bg.srcs, bg.currentDir, name, true)
+	funcs.Map2Set(&bg.srcs, fileDir, fileName, true)
 	bg.currentSrc = writer.OfIOWriterAsStrings(f)
 }
 
-- 
2.43.0


From e287b5b9c2c55c703c78f9f87a972cd124282068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 67/71] fix: error of a partially written string reports its
 number of runes, not bytes

---
 io/writer/gen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/writer/gen.go b/io/writer/gen.go
index d00c8ee..ff52c57 100755
--- a/io/writer/gen.go
+++ b/io/writer/gen.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"runtime"
+	"unicode/utf8"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -88,7 +89,7 @@ func IOWriterAsStringsGen(dst io.Writer) func(string) error {
 		if n, err := dst.Write(p); err != nil {
 			return err
 		} else if n < len(p) {
-			return fmt.Errorf(errIOStringWriterMsg, n, len(val), len(p))
+			return fmt.Errorf(errIOStringWriterMsg, n, utf8.RuneCountInString(val), len(p))
 		}
 
 		return nil
@@ -112,7 +113,7 @@ func IOWriterAsLinesGen(dst io.Writer) func(string) error {
 		if n, err := dst.Write(p); err != nil {
 			return err
 		} else if n < len(p) {
-			return fmt.Errorf(errIOStringWriterMsg, n, len(valEOL), len(p))
+			return fmt.Errorf(errIOStringWriterMsg, n, utf8.RuneCountInString(valEOL), len(p))
 		}
 
 		return nil
-- 
2.43.0


From 612f50dceeae91ec20bd1f2e95501aca9469dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:28 +0000
Subject: [PATCH 68/71] fix: a Value made from a map or slice of Values does
 not change when they do

---
 encoding/json/value.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 42b445d..8485892 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -153,15 +153,16 @@ func MustToValue[T map[string]any | map[string]Value | []any | []Value | string
 func MapToValue[T map[string]any | map[string]Value](val T) (mval Value, err error) {
 	var (
 		av   = any(val)
-		mp   map[string]Value
+		mp   = map[string]Value{}
 		jval Value
 	)
 
 	if v, isa := av.(map[string]Value); isa {
-		mp = v
+		// Copy the map, so that later changes to it do not affect the Value
+		for k, v := range v {
+			mp[k] = v
+		}
 	} else {
-		mp = map[string]Value{}
-
 		for k, v := range av.(map[string]any) {
 			if jval, err = toValue(v); err != nil {
 				return
@@ -193,7 +194,8 @@ func SliceToValue[T []any | []Value](val T) (sval Value, err error) {
 	)
 
 	if v, isa := av.([]Value); isa {
-		slc = v
+		// Copy the slice, so that later changes to it do not affect the Value
+		slc = funcs.SliceCopy(v)
 	} else {
 		slc = make([]Value, len(val))
 
-- 
2.43.0


From 66cf4136ddcf221dbd7eafd606813059ed360cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 69/71] fix: adding to a slice of a map under a NaN key adds
 one entry, and does not panic

---
 funcs/funcs.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index a8c6fde..4bae0be 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -474,7 +474,6 @@ func MapSliceAdd[K comparable, V any](mp *map[K][]V, key K, value V) {
 	slc := (*mp)[key]
 	if slc == nil {
 		slc = []V{}
-		(*mp)[key] = slc
 	}
 
 	// Append value to slice and remap it
@@ -531,15 +530,14 @@ func Map2SliceAdd[K1, K2 comparable, V any](mp *map[K1]map[K2][]V, key1 K1, key2
 	}
 
 	// Create slice for key K2 if it does not exist
-	slc := (*mp)[key1][key2]
+	slc := mp2[key2]
 	if slc == nil {
 		slc = []V{}
-		(*mp)[key1][key2] = slc
 	}
 
 	// Append value to slice and remap it
 	slc = append(slc, value)
-	(*mp)[key1][key2] = slc
+	mp2[key2] = slc
 }
 
 // Map2SliceRemove makes accessing a two level map whose value is a slice easier, by removing a value from the slice if it exists.
-- 
2.43.0


From 91ccc810dd3b446d5c685eca7f9c96edd7fe9522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:10 +0000
Subject: [PATCH 70/71] fix: parsing a path takes memory proportional to its
 length, not to the square of it

---
 encoding/json/search.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/json/search.go b/encoding/json/search.go
index b1e637c..d07e116 100755
--- a/encoding/json/search.go
+++ b/encoding/json/search.go
@@ -57,7 +57,8 @@ func parsePath(p string) (lookups []tuple.Two[string, union.Two[string, int]], e
 
 	for _, part := range parts {
 		path, key = part[0], part[1]
-		fullPath += path
+		// The parts cover all of p, so the full path so far is a prefix of p that shares its memory
+		fullPath = p[:len(fullPath)+len(path)]
 
 		if len(key) > 0 {
 			// Object key
-- 
2.43.0


From d04042d7df450c1c0dd507fe504e6b3cf3145038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:09 +0000
Subject: [PATCH 71/71] fix: copying a big value constructs a new pointer, and
 leaves the value the target pointed to alone

---
 conv/conv.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index a55eca8..c756cad 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1052,10 +1052,8 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 			if ival.IsNil() {
 				oval.Elem().Set(ival)
 			} else {
-				// If the oval is the same pointer as ival or nil, allocate it
-				if (ival.Interface() == oval.Elem().Interface()) || oval.Elem().IsNil() {
-					oval.Elem().Set(goreflect.New(otyp.Elem()))
-				}
+				// Construct a new pointer, as the value the output pointed to may also be in use elsewhere
+				oval.Elem().Set(goreflect.New(otyp.Elem()))
 
 				// ival is non-nil, oval is non-nil and not the same pointer as ival
 				// Copy the value
@@ -1158,10 +1156,8 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 		if ival.IsNil() {
 			oval.Elem().Set(ival)
 		} else {
-			// If the oval is the same pointer as ival or nil, allocate it
-			if (ival.Interface() == oval.Elem().Interface()) || oval.Elem().IsNil() {
-				oval.Elem().Set(goreflect.New(otyp.Elem()))
-			}
+			// Construct a new pointer, as the value the output pointed to may also be in use elsewhere
+			oval.Elem().Set(goreflect.New(otyp.Elem()))
 
 			// ival is non-nil, oval is non-nil and not the same pointer as ival
 			// Copy the value
-- 
2.43.0

