------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* The class behind Num.tla, on small fractions, against TLC's integers:     *)
(* arithmetic, order, rounding, the texts of numbers, and the vector         *)
(* operators against their definitions.                                      *)
(***************************************************************************)
EXTENDS Num, TLC
VARIABLE x
CONSTANT Most

Ints == (- Most)..Most
Dens == 1..4
Init == \E a, c \in Ints, b, d \in Dens : x = << a, b, c, d >>
Next == FALSE /\ UNCHANGED x

Q(a, b) == NDiv(NInt(a), NInt(b))
A == Q(x[1], x[2])
B == Q(x[3], x[4])
a_ == x[1] * x[4]          \* over the common denominator
b_ == x[3] * x[2]
m_ == x[2] * x[4]
Is(n, num, den) == NMul(n, NInt(den)) = NInt(num)
Cmp(l) == IF l THEN 1 ELSE 0
Arithmetic ==
  /\ Is(NAdd(A, B), a_ + b_, m_)
  /\ Is(NSub(A, B), a_ - b_, m_)
  /\ Is(NMul(A, B), x[1] * x[3], m_)
  /\ x[3] # 0 => NMul(NDiv(A, B), B) = A /\ Is(NMul(NDiv(A, B), NInt(b_)), a_, 1)
  /\ NNeg(A) = NSub(N0, A) /\ NAdd(NNeg(A), A) = N0
  /\ (A = B) = (a_ = b_)
Order ==
  /\ NLt(A, B) = (a_ < b_) /\ NLe(A, B) = (a_ <= b_)
  /\ NSgn(A) = (IF x[1] < 0 THEN -1 ELSE IF x[1] = 0 THEN 0 ELSE 1)
  /\ Is(NAbs(A), IF x[1] < 0 THEN - x[1] ELSE x[1], x[2])
  /\ NMin(A, B) \in {A, B} /\ NLe(NMin(A, B), A) /\ NLe(B, NMax(A, B)) /\ NAdd(NMin(A, B), NMax(A, B)) = NAdd(A, B)
Rounding ==
  /\ NFloor(A) = x[1] \div x[2]
  /\ NIsInt(A) = (x[1] % x[2] = 0)
  /\ x[2] # 3 => NF32(A) = A /\ NF64(A) = A            \* binary fractions
  /\ LET r == NF32(A) IN NF32(r) = r /\ NLe(NMul(NAbs(NSub(r, A)), NInt(16777216)), NAbs(A))
  /\ LET r == NF64(A) IN NF64(r) = r /\ NLe(NMul(NMul(NAbs(NSub(r, A)), NInt(16777216)), NInt(536870912)), NAbs(A))
  \* |A| with no decimals, half to even
  /\ LET n == IF x[1] < 0 THEN - x[1] ELSE x[1] f == n \div x[2] r2 == 2 * (n % x[2])
         up == r2 > x[2] \/ (r2 = x[2] /\ f % 2 = 1) IN NFix(A, 0) = ToString(IF up THEN f + 1 ELSE f)
  /\ NDec(NFix(A, 2)) = (IF x[2] # 3 THEN NAbs(A) ELSE NDec(NFix(A, 2)))
  /\ NLe(NAbs(NSub(NDec(NFix(A, 3)), NAbs(A))), NDec("0.0005"))
Texts ==
  /\ NDec(ToString(x[1])) = NInt(x[1])
  /\ NDec(ToString(x[1]) \o "e0") = NInt(x[1]) /\ NDec(ToString(x[1]) \o "E1") = NInt(10 * x[1])
  /\ NMul(NDec(ToString(x[1]) \o "e-2"), NInt(100)) = NInt(x[1])
  /\ x[1] >= 0 => NDec("." \o ToString(x[1]) \o "e3") = (IF x[1] < 10 THEN NInt(100 * x[1]) ELSE NInt(10 * x[1]))
  /\ NClassF32(ToString(x[1])) = "num" /\ NParseF32(ToString(x[1])) = NInt(x[1]) /\ NParseF64(ToString(x[1]) \o ".0") = NInt(x[1])
Kinds ==
  /\ NClassF32("1e39") = "inf" /\ NClassF64("1e39") = "num" /\ NClassF64("1e309") = "inf" /\ NClassF64("-1e309") = "inf"
  /\ NClassF32("1e-50") = "tiny" /\ NClassF64("1e-50") = "num"
  /\ \A s \in {"", "-", ".", "e1", "1e", "x", "1x", "--1", "1 2"} : NClassF64(s) = "none" /\ NClassF32(s) = "none"
Sqr(n) == NMul(n, n)
Roots ==
  /\ NSqrt(Sqr(NInt(x[1]))) = NAbs(NInt(x[1]))
  /\ LET r == NSqrt(NAbs(A)) IN NLe(NAbs(NSub(Sqr(r), NAbs(A))), NMul(NDec("1e-15"), NAbs(A)))
Near(p, q) == NLe(NAbs(NSub(p, q)), NDec("1e-14"))
Angles ==
  LET d == NInt(15 * x[1]) s == NSinDeg(d) c == NCosDeg(d) IN
  /\ Near(NAdd(Sqr(s), Sqr(c)), N1)
  /\ Near(NSinDeg(NAdd(d, NInt(90))), c) /\ Near(NSinDeg(NAdd(d, NInt(360))), s)
  /\ Near(NSinDeg(NInt(30)), Q(1, 2)) /\ Near(NCosDeg(NInt(60)), Q(1, 2)) /\ NCosDeg(N0) = N1
  /\ Near(NMul(NInt(2), Sqr(NSinDeg(NInt(45)))), N1)
  /\ -180 < 15 * x[1] /\ 15 * x[1] < 180 => NLe(NAbs(NSub(NAtan2Deg(s, c), d)), NDec("1e-11"))
  /\ 0 < x[1] /\ 15 * x[1] < 180 => NLe(NAbs(NSub(NAcosDeg(c), d)), NDec("1e-11"))
U == << A, B, NInt(x[2]) >>
W == << B, NInt(x[1] - x[3]), A >>
Vectors ==
  /\ VAdd(U, W) = [i \in 1..3 |-> NAdd(U[i], W[i])] /\ VSub(U, W) = [i \in 1..3 |-> NSub(U[i], W[i])]
  /\ VMul(U, B) = [i \in 1..3 |-> NMul(U[i], B)]
  /\ VDot(U, W) = NAdd(NAdd(NMul(U[1], W[1]), NMul(U[2], W[2])), NMul(U[3], W[3]))
  /\ VDot(VXY(U), VXY(W)) = NAdd(NMul(U[1], W[1]), NMul(U[2], W[2]))
  /\ LET c == VCross(U, W) IN VDot(c, U) = N0 /\ VDot(c, W) = N0 /\ c[3] = VCrossZ(U, W)
                               /\ c = [i \in 1..3 |-> NNeg(VCross(W, U)[i])]
                               /\ NAdd(VSq(c), Sqr(VDot(U, W))) = NMul(VSq(U), VSq(W))
  /\ VLt(U, W) = (IF U[1] # W[1] THEN NLt(U[1], W[1]) ELSE IF U[2] # W[2] THEN NLt(U[2], W[2]) ELSE NLt(U[3], W[3]))
  /\ VXY(U) = << U[1], U[2] >>
  /\ LET m == << U, W, << N1, N0, B >> >> IN VApply(W, m) = [j \in 1..3 |-> NAdd(NAdd(NMul(W[1], m[1][j]), NMul(W[2], m[2][j])), NMul(W[3], m[3][j]))]
=============================================================================
