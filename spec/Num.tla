------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* Primitive numerics.  A value is a string: an exact rational "p/q", an   *)
(* exact Gaussian rational "p/q|r/s", or a 58-digit approximation          *)
(* "~d.ddd" / "~re|im"; "U" is the undefined value, which every operator   *)
(* propagates.  TLC evaluates the operators below through the Java module  *)
(* override java/Num.java; the bodies given here only fix the types.       *)
(* Nothing specific to wrenfold is defined in the override.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Undef == "U"

NAdd(a, b) == CHOOSE v \in STRING : TRUE            \* a + b
NSub(a, b) == CHOOSE v \in STRING : TRUE            \* a - b
NMul(a, b) == CHOOSE v \in STRING : TRUE            \* a * b
NDiv(a, b) == CHOOSE v \in STRING : TRUE            \* a / b; "U" when b = 0
NNeg(a)    == CHOOSE v \in STRING : TRUE            \* -a
NPow(a, b) == CHOOSE v \in STRING : TRUE            \* principal power; "U" for 0 ** (b <= 0)
NFn(f, a)  == CHOOSE v \in STRING : TRUE            \* principal branch of the function named f
NAtan2(y, x) == CHOOSE v \in STRING : TRUE          \* angle of (x, y); "U" at the origin
NFloor(a)  == CHOOSE v \in STRING : TRUE            \* greatest integer <= a
NTrunc(a)  == CHOOSE v \in STRING : TRUE            \* integer part, toward zero
NCmp(a, b) == CHOOSE v \in {"lt", "eq", "gt", "un"} : TRUE
NIsReal(a) == CHOOSE v \in BOOLEAN : TRUE
NIsZero(a) == CHOOSE v \in BOOLEAN : TRUE
NIsExact(a) == CHOOSE v \in BOOLEAN : TRUE
NIsInt(a)  == CHOOSE v \in BOOLEAN : TRUE
NClose(a, b, digits, scale) == CHOOSE v \in BOOLEAN : TRUE  \* |a-b| <= 10^-digits max(scale,|a|,|b|)
NDist(a, b) == CHOOSE v \in STRING : TRUE           \* |a - b|
NPerturb(a, bits, seed) == CHOOSE v \in STRING : TRUE  \* a (1 + e), |e| <= 2^-bits
NIsShort(a, bits) == CHOOSE v \in BOOLEAN : TRUE    \* exact real m / 2^k with |m| < 2^bits and k <= bits
NFits64(a) == CHOOSE v \in BOOLEAN : TRUE           \* numerator and denominator fit in int64
NNumer(a)  == CHOOSE v \in STRING : TRUE
NDenom(a)  == CHOOSE v \in STRING : TRUE
NConst(c)  == CHOOSE v \in STRING : TRUE            \* "pi", "e", "i"
NToDouble(a) == CHOOSE v \in STRING : TRUE          \* nearest IEEE double, as an exact rational
NRelKey(op, a, b) == CHOOSE v \in STRING : TRUE     \* identity of a comparison of real operands; else "U"
NRe(a)     == CHOOSE v \in STRING : TRUE
NIm(a)     == CHOOSE v \in STRING : TRUE
=============================================================================
