-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact numbers for TLC.  TLC has no reals and only 32-bit integers, so a  *)
(* number is an atomic value of its own: a rational in lowest terms, made   *)
(* and combined only by the operators below, which are implemented by       *)
(* Num.class (Num.java, BigInteger).  + - * / and the comparisons are       *)
(* exact; = on numbers is equality.  Roots, sines and so on are rounded to  *)
(* a double, which is a rational again.  MC_Num checks the class on small   *)
(* numbers against TLC's integers.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences


NInt(i)    == CHOOSE x \in STRING : FALSE       \* the TLA+ integer i as a number
NDec(s)    == CHOOSE x \in STRING : FALSE       \* the exact value of a decimal literal

N0 == NInt(0)
N1 == NInt(1)

NAdd(a, b) == CHOOSE x \in STRING : FALSE       \* a + b
NSub(a, b) == CHOOSE x \in STRING : FALSE       \* a - b
NMul(a, b) == CHOOSE x \in STRING : FALSE       \* a * b
NDiv(a, b) == CHOOSE x \in STRING : FALSE       \* a / b, b # 0
NLt(a, b)  == CHOOSE x \in BOOLEAN : FALSE      \* a < b
NLe(a, b)  == CHOOSE x \in BOOLEAN : FALSE      \* a <= b
NSqrt(a)   == CHOOSE x \in STRING : FALSE       \* square root, as a double
NSinDeg(a) == CHOOSE x \in STRING : FALSE       \* sine of a in degrees, as a double
NCosDeg(a) == CHOOSE x \in STRING : FALSE
NAtan2Deg(y, x) == CHOOSE z \in STRING : FALSE  \* angle of (x, y) in degrees, -180..180
NAcosDeg(a) == CHOOSE x \in STRING : FALSE
NF32(a)    == CHOOSE x \in STRING : FALSE       \* rounded to a 32-bit float
NFix(a, d) == CHOOSE x \in STRING : FALSE       \* |a| with d decimals, half to even: "12.50"
NF64(a)    == CHOOSE x \in STRING : FALSE       \* rounded to a double
NRound(a, k) == CHOOSE x \in STRING : FALSE     \* to the nearest multiple of 2^-k
\* The character (byte) with code i, 0 <= i <= 255.
NByte(i)   == CHOOSE x \in STRING : FALSE
NIsInt(a)  == CHOOSE x \in BOOLEAN : FALSE
NFloor(a)  == CHOOSE x \in Int : FALSE          \* as a TLA+ integer
\* What a text is as a float (double): "num" a number, "inf" one that is too
\* large, "tiny" one too small to be exact, "none" no number at all.
NClassF32(s) == CHOOSE x \in STRING : FALSE
NClassF64(s) == CHOOSE x \in STRING : FALSE
\* The number it denotes, rounded to a float (double).
NParseF32(s) == CHOOSE x \in STRING : FALSE
NParseF64(s) == CHOOSE x \in STRING : FALSE

NNeg(a)    == NSub(N0, a)
NAbs(a)    == IF NLt(a, N0) THEN NNeg(a) ELSE a
NMin(a, b) == IF NLt(b, a) THEN b ELSE a
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
NGt(a, b)  == NLt(b, a)
NGe(a, b)  == NLe(b, a)
NSgn(a)    == IF NLt(a, N0) THEN -1 ELSE IF a = N0 THEN 0 ELSE 1

(***************************************************************************)
(* Points and vectors are tuples of numbers: <<x, y>> or <<x, y, z>>.  The  *)
(* class replaces these by faster versions of themselves.                   *)
(***************************************************************************)
VAdd(a, b)   == [i \in DOMAIN a |-> NAdd(a[i], b[i])]
VSub(a, b)   == [i \in DOMAIN a |-> NSub(a[i], b[i])]
VMul(a, k)   == [i \in DOMAIN a |-> NMul(a[i], k)]
VDot(a, b)   == IF Len(a) = 2 THEN NAdd(NMul(a[1], b[1]), NMul(a[2], b[2]))
                ELSE NAdd(NAdd(NMul(a[1], b[1]), NMul(a[2], b[2])), NMul(a[3], b[3]))
VCross(a, b) == << NSub(NMul(a[2], b[3]), NMul(a[3], b[2])),
                   NSub(NMul(a[3], b[1]), NMul(a[1], b[3])),
                   NSub(NMul(a[1], b[2]), NMul(a[2], b[1])) >>
\* z component of the cross product of the first two components
VCrossZ(a, b) == NSub(NMul(a[1], b[2]), NMul(a[2], b[1]))
\* lexicographic order
VLt(a, b) == \/ NLt(a[1], b[1])
             \/ a[1] = b[1] /\ NLt(a[2], b[2])
             \/ a[1] = b[1] /\ a[2] = b[2] /\ Len(a) = 3 /\ NLt(a[3], b[3])
VSq(a)      == VDot(a, a)
VLen(a)     == NSqrt(VSq(a))
VIsZero(a)  == \A i \in DOMAIN a : a[i] = N0
VUnit(a)    == IF VIsZero(a) THEN a ELSE VMul(a, NDiv(N1, VLen(a)))
VXY(a)      == << a[1], a[2] >>
\* the row vector a times the matrix whose rows are m[1..3]
VApply(a, m) == << NAdd(NAdd(NMul(a[1], m[1][1]), NMul(a[2], m[2][1])), NMul(a[3], m[3][1])),
                   NAdd(NAdd(NMul(a[1], m[1][2]), NMul(a[2], m[2][2])), NMul(a[3], m[3][2])),
                   NAdd(NAdd(NMul(a[1], m[1][3]), NMul(a[2], m[2][3])), NMul(a[3], m[3][3])) >>
=============================================================================
