--------------------------------- MODULE Ink ---------------------------------
(***************************************************************************)
(* Comparing what is on a page with what should be there.                    *)
(*                                                                          *)
(* Lines: a segment counts as drawn if the drawn segments together cover it.  *)
(* How they are split, their direction, order and repetitions don't matter.   *)
(* A document has six significant digits, and the program computes in         *)
(* floating point, so everything is compared up to a small distance.          *)
(***************************************************************************)
EXTENDS Num, Sequences, SequencesExt

\* Coordinates are put on a fine grid; this keeps the numbers short.
G(x) == NRound(x, 20)
Grid(s) == << G(s[1]), G(s[2]), G(s[3]), G(s[4]) >>

Mag(s) == NMax(NMax(NAbs(s[1]), NAbs(s[2])), NMax(NAbs(s[3]), NAbs(s[4])))
\* how far off a coordinate of such a segment may be
Tol(s) == NRound(NAdd(NDec("0.004"), NMul(Mag(s), NDec("2e-5"))), 30)

\* A segment prepared for comparisons.
Prep(s0) ==
  LET s == Grid(s0)
      dx == NSub(s[3], s[1])
      dy == NSub(s[4], s[2])
  IN  [s |-> s, dx |-> dx, dy |-> dy, q |-> NAdd(NMul(dx, dx), NMul(dy, dy)), tol |-> Tol(s),
       lox |-> NMin(s[1], s[3]), hix |-> NMax(s[1], s[3]),
       loy |-> NMin(s[2], s[4]), hiy |-> NMax(s[2], s[4])]

Overlap(a, b, t) == /\ NLe(a.lox, NAdd(b.hix, t)) /\ NLe(b.lox, NAdd(a.hix, t))
                    /\ NLe(a.loy, NAdd(b.hiy, t)) /\ NLe(b.loy, NAdd(a.hiy, t))
\* the point is within t of the line through a (a.q > 0)
OnLine(a, x, y, t) ==
  LET c == NSub(NMul(a.dx, NSub(y, a.s[2])), NMul(a.dy, NSub(x, a.s[1])))
  IN  NLe(NMul(c, c), NMul(NMul(t, t), a.q))
\* b lies along a: the shorter one is close to the line through the longer one
Along(a, b, t) ==
  IF NLe(b.q, a.q) THEN OnLine(a, b.s[1], b.s[2], t) /\ OnLine(a, b.s[3], b.s[4], t)
  ELSE OnLine(b, a.s[1], a.s[2], t) /\ OnLine(b, a.s[3], a.s[4], t)

\* where a point is along a: 0 at its beginning, a.q at its end
Proj(a, x, y) == NAdd(NMul(a.dx, NSub(x, a.s[1])), NMul(a.dy, NSub(y, a.s[2])))

Close(x, y, t) == NLe(NAbs(NSub(x, y)), t)
SameSeg(a, b, t) ==
  \/ /\ Close(a.s[1], b.s[1], t) /\ Close(a.s[2], b.s[2], t)
     /\ Close(a.s[3], b.s[3], t) /\ Close(a.s[4], b.s[4], t)
  \/ /\ Close(a.s[1], b.s[3], t) /\ Close(a.s[2], b.s[4], t)
     /\ Close(a.s[3], b.s[1], t) /\ Close(a.s[4], b.s[2], t)

TooShort(a) == NLe(a.q, NMul(NInt(16), NMul(a.tol, a.tol)))

(***************************************************************************)
(* The parts of segment a that no segment of bs (a sequence) covers, as       *)
(* intervals of Proj; holes of up to 3 tolerances don't count.                *)
(***************************************************************************)
Holes(a, bs) ==
  LET t == a.tol
      w == NMul(NInt(3), t)
      near == SelectSeq(bs, LAMBDA b : Overlap(a, b, t) /\ ~ TooShort(b) /\ Along(a, b, NMax(t, b.tol)))
      len == NSqrt(a.q)
      slack == NMul(w, len)
      iv == [i \in DOMAIN near |->
               LET p == Proj(a, near[i].s[1], near[i].s[2])
                   q == Proj(a, near[i].s[3], near[i].s[4])
               IN  << NMin(p, q), NMax(p, q) >>]
      ord == SortSeq(iv, LAMBDA x, y : NLt(x[1], y[1]))
      r == FoldLeft(LAMBDA st, x :
                      [at |-> NMax(st.at, x[2]),
                       out |-> IF NLt(NAdd(st.at, slack), NMin(x[1], a.q)) THEN Append(st.out, << st.at, NMin(x[1], a.q) >>) ELSE st.out],
                    [at |-> N0, out |-> <<>>], ord)
  IN  IF TooShort(a) THEN <<>>
      ELSE IF NLt(NAdd(r.at, slack), a.q) THEN Append(r.out, << r.at, a.q >>) ELSE r.out

Covered(a, bs) ==
  \/ TooShort(a)
  \/ \E i \in DOMAIN bs : SameSeg(a, bs[i], a.tol)
  \/ Holes(a, bs) = <<>>

(***************************************************************************)
(* Arcs run counterclockwise from an angle to another, in degrees.            *)
(***************************************************************************)
\* x modulo 360
Turned(x) == NSub(x, NMul(NInt(360), NInt(NFloor(NDiv(x, NInt(360))))))
SameAngle(a, b, t) == LET d == Turned(NSub(a, b)) IN NLe(d, t) \/ NLe(NSub(NInt(360), d), t)
SameArc(a, b) ==
  LET t == NAdd(NDec("0.004"), NMul(NDec("2e-5"), NMax(NAbs(b.r), NMax(NAbs(b.c[1]), NAbs(b.c[2])))))
  IN  /\ Close(a.c[1], b.c[1], t) /\ Close(a.c[2], b.c[2], t) /\ Close(a.r, b.r, t)
      /\ SameAngle(a.from, b.from, NDec("0.003")) /\ SameAngle(a.to, b.to, NDec("0.003"))

\* Text positions.
AtPoint(p, q) ==
  LET t == NAdd(NDec("0.006"), NMul(NDec("2e-5"), NMax(NAbs(q[1]), NAbs(q[2]))))
  IN  Close(p[1], q[1], t) /\ Close(p[2], q[2], t)
=============================================================================
