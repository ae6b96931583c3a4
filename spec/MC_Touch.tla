------------------------------- MODULE MC_Touch -------------------------------
(***************************************************************************)
(* A flat face of one, two or four facets, level or tilted, and a facet that   *)
(* touches its plane or lies below it, with two corners anywhere on a grid:    *)
(* at the corners, the sides and the seams of the face, inside and beyond.     *)
(* Laws: what may be drawn of it is nowhere below the face, seams included;    *)
(* what is beside the face, or lies in its plane, must be drawn.  The numbers  *)
(* are such that no computer can represent them exactly.                       *)
(***************************************************************************)
EXTENDS Hidden, TLC, Json
VARIABLES face, tilt, p, q, dp, dq, up, told
vars == << face, tilt, p, q, dp, dq, up, told >>

CONSTANT N                                  \* the grid is N by N, the face 2 by 2 in its middle
Grid == (-1..(N - 2)) \X (-1..(N - 2))
Corners == << << 0, 0 >>, << 2, 0 >>, << 2, 2 >>, << 0, 2 >> >>
Plates == << << << 1, 2, 3 >> >>, << << 1, 2, 3 >>, << 1, 3, 4 >> >>, << << 1, 2, 5 >>, << 2, 3, 5 >>, << 3, 4, 5 >>, << 4, 1, 5 >> >> >>
C5 == Append(Corners, << 1, 1 >>)
Outline == IF face = 1 THEN << Corners[1], Corners[2], Corners[3] >> ELSE Corners
Tilts == << << 0, 0 >>, << 3, 0 >>, << 2, -5 >> >>

\* in tenths and hundredths
PX(c) == 7 * c[1] - 2 * c[2] + 1
PY(c) == c[1] + 9 * c[2] + 3
PZ(c) == Tilts[tilt][1] * PX(c) + Tilts[tilt][2] * PY(c)
Point(c, d) == << PX(c) * 10, PY(c) * 10, PZ(c) - d * 100 >>
\* to the left of the way from p to q
Third == LET v == << q[1] - p[1], q[2] - p[2] >> IN Point(<< p[1] - v[2], p[2] + v[1] >>, IF up THEN -9 ELSE 9)
Own == << Point(p, dp), Point(q, dq), Third >>
Abs(n) == IF n < 0 THEN -n ELSE n
Dec(n) == (IF n < 0 THEN "-" ELSE "") \o NFix(NDiv(NInt(Abs(n)), NInt(100)), 2)
Text(c) == "vertex " \o Dec(c[1]) \o " " \o Dec(c[2]) \o " " \o Dec(c[3]) \o "\n"
Facet(t) == "facet normal 0 0 1\nouter loop\n" \o Text(t[1]) \o Text(t[2]) \o Text(t[3]) \o "endloop\nendfacet\n"
FaceOf(f) == [k \in 1..3 |-> Point(C5[f[k]], 0)]
All == Append([i \in DOMAIN Plates[face] |-> FaceOf(Plates[face][i])], Own)
Turned(t, k) == [i \in 1..3 |-> t[((i + k) % 3) + 1]]
File == LET n == Abs(p[1] + 2 * q[2] + dp) IN
        FoldLeft(LAMBDA s, t : IF n % 2 = 0 THEN s \o Facet(Turned(t, n)) ELSE Facet(Turned(t, n)) \o s, "", All)

Init == /\ face \in DOMAIN Plates /\ tilt \in DOMAIN Tilts /\ p \in Grid /\ q \in Grid /\ p # q
        /\ \E w \in { << 0, 0, TRUE >>, << 0, 0, FALSE >>, << 0, 1, FALSE >>, << 1, 0, FALSE >>, << 1, 2, FALSE >> } : dp = w[1] /\ dq = w[2] /\ up = w[3]
        /\ told = FALSE
Next == ~ told /\ told' = TRUE /\ UNCHANGED << face, tilt, p, q, dp, dq, up >>
        /\ PrintT("CASE " \o ToJson([stl |-> File, view |-> << "", "[13, 8]", "[100, 3]" >>[((p[1] + q[2] + 3 * dp + N * 3) % 3) + 1]]))

Vec(c) == << NDiv(NInt(c[1]), NInt(100)), NDiv(NInt(c[2]), NInt(100)), NDiv(NInt(c[3]), NInt(100)) >>
Tri(t) == LET v == << Vec(t[1]), Vec(t[2]), Vec(t[3]) >> IN [v |-> v, n |-> Cross3(v)]
Seen == [i \in DOMAIN All |-> Tri(All[i])]
Border == [i \in DOMAIN Outline |-> Vec(Point(Outline[i], 0))]
After(i) == Border[(i % Len(Border)) + 1]
Beside(x) == \E i \in DOMAIN Border : NLt(VCrossZ(VSub(After(i), Border[i]), VSub(x, Border[i])), NDec("-0.001"))
Within(x) == \A i \in DOMAIN Border : NLt(NDec("0.001"), VCrossZ(VSub(After(i), Border[i]), VSub(x, Border[i])))
Depth(x) == VDot(Seen[1].n, VSub(Seen[1].v[1], x))
Samples == { NDiv(NInt(2 * i + 1), NInt(24)) : i \in 0..11 }
On(segs, e, x) == \E i \in DOMAIN segs :
  LET a == VDot(VSub(segs[i][1], e[1]), VSub(e[2], e[1])) b == VDot(VSub(segs[i][2], e[1]), VSub(e[2], e[1])) l == NMul(x, VSq(VSub(e[2], e[1]))) IN
  NLe(a, l) /\ NLe(l, b)
Laws == told =>
  LET ml == ModelLines(Seen)
      own == { i \in DOMAIN ml.edges : ml.edges[i] \in { Edge(Seen[Len(Seen)].v[k], Seen[Len(Seen)].v[(k % 3) + 1]) : k \in 1..3 }
                                        /\ Cardinality(EdgeTable(Seen)[ml.edges[i]]) = 1 } IN
  \A i \in own : LET e == ml.edges[i] IN
    /\ ml.kind[i] = "yes"
    /\ \A x \in Samples : LET at == AtT(e, x) IN
         /\ Within(at) /\ NLt(NDec("0.001"), Depth(at)) => ~ On(ml.may[i], e, x)
         /\ Beside(at) \/ NLe(Depth(at), N0) => On(ml.must[i], e, x)
=============================================================================
