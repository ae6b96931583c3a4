-------------------------------- MODULE Pick --------------------------------
(***************************************************************************)
(* Picking points: near(), center(), and the circle of dia and rad           *)
(* (PointFunc, point_impl, FindCircle).  Vertices are those of the triangles *)
(* seen in the view, in view coordinates, sorted.                            *)
(***************************************************************************)
EXTENDS Mesh, Chars

Rel(a, b, eps) == NLe(NAbs(NSub(a, b)), NMul(NDec(eps), NMax(NAbs(a), NAbs(b))))

\* Distances between such points don't need rounding.
Exact(p) == \A i \in DOMAIN p : NIsInt(NMul(p[i], NInt(256))) /\ NLt(NAbs(p[i]), NInt(4096))
\* the same but for rounding
Rel3(p, q, rounded) ==
              /\ p # q \/ rounded
              /\ rounded \/ ~ (Exact(p) /\ Exact(q))
              /\ NLe(VSq(VSub(p, q)), NMul(NDec("1e-18"), NAdd(VSq(p), VSq(q))))

Sorted(points) == SortSeq(SetToSeq(points), VLt)
Dist2(p, q) == LET d == VSub(VXY(p), VXY(q)) IN VSq(d)

(***************************************************************************)
(* near(target): the vertex itself if there is one exactly there, otherwise  *)
(* the one that is nearest on paper, moved to z = 0.  A target that is        *)
(* rounded was computed, so that ties are decided by rounding.               *)
(***************************************************************************)
Near(vs, target, rounded) ==
  IF \E i \in DOMAIN vs : vs[i] = target
  THEN [p |-> target, unsure |-> rounded]
  ELSE LET d == [i \in DOMAIN vs |-> Dist2(vs[i], target)]
           best == FoldLeft(LAMBDA a, i : IF NLt(d[i], d[a]) THEN i ELSE a, 1, Range1(Len(vs)))
           Same(i, j) == vs[i][1] = vs[j][1] /\ vs[i][2] = vs[j][2]
       IN  [p |-> << vs[best][1], vs[best][2], N0 >>,
            \* another vertex is as near, but for rounding
            unsure |-> \/ \E i \in DOMAIN vs : i # best /\ ~ Same(i, best) /\ Rel(d[i], d[best], "1e-9")
                                            /\ ~ (~ rounded /\ d[i] = d[best] /\ Exact(vs[i]) /\ Exact(vs[best]) /\ Exact(target))
                       \* a vertex is where target is, but for rounding
                       \/ \E i \in DOMAIN vs : Rel3(vs[i], target, rounded)]

(***************************************************************************)
(* The count nearest distinct points on paper.  Of points at the same        *)
(* distance the first in the order of the vertices wins; a point at the same *)
(* distance as one already taken, and close to it, is the same point.        *)
(***************************************************************************)
ByDist(vs, to) == SortSeq([i \in DOMAIN vs |-> [d |-> Dist2(vs[i], to), i |-> i, p |-> VXY(vs[i])]],
                          LAMBDA a, b : NLt(a.d, b.d) \/ (a.d = b.d /\ a.i < b.i))
Duplicate(a, b) == a.d = b.d /\ NLe(NMul(NInt(100), Dist2(a.p, b.p)), a.d)
Closest(vs, count, to) ==
  FoldLeft(LAMBDA sel, c :
             IF Len(sel) = count \/ (\E i \in DOMAIN sel : Duplicate(sel[i], c)) THEN sel
             ELSE Append(sel, c),
           <<>>, ByDist(vs, to))

\* the points of vs between lo and hi from c on paper
Between(vs, lo, hi, c) ==
  SelectSeq([i \in DOMAIN vs |-> VXY(vs[i])],
            LAMBDA p : LET d == Dist2(p, c) IN NLt(NMul(lo, lo), d) /\ NLt(d, NMul(hi, hi)))

(***************************************************************************)
(* The circle fitted to points by least squares: the center c and r2, the    *)
(* square of the radius, that minimize the sum of (|p - c|^2 - r2)^2.        *)
(***************************************************************************)
Sum(seq, f(_)) == FoldLeft(LAMBDA a, x : NAdd(a, f(x)), N0, seq)
Mean(seq, f(_)) == NDiv(Sum(seq, f), NInt(Len(seq)))

Fit(points) ==
  IF Len(points) < 3 THEN [ok |-> FALSE, unsure |-> FALSE]
  ELSE
  LET mx == Mean(points, LAMBDA p : p[1])
      my == Mean(points, LAMBDA p : p[2])
      q == [i \in DOMAIN points |-> << NSub(points[i][1], mx), NSub(points[i][2], my) >>]
      xx == Sum(q, LAMBDA p : NMul(p[1], p[1]))
      yy == Sum(q, LAMBDA p : NMul(p[2], p[2]))
      xy == Sum(q, LAMBDA p : NMul(p[1], p[2]))
      zx == NMul(NDec(".5"), Sum(q, LAMBDA p : NMul(p[1], VSq(p))))
      zy == NMul(NDec(".5"), Sum(q, LAMBDA p : NMul(p[2], VSq(p))))
      det == NSub(NMul(xx, yy), NMul(xy, xy))
      spread == NMul(NAdd(xx, yy), NAdd(xx, yy))
      flat == NLe(det, NMul(NDec("1e-14"), spread))
      cx == NDiv(NSub(NMul(zx, yy), NMul(zy, xy)), det)
      cy == NDiv(NSub(NMul(zy, xx), NMul(zx, xy)), det)
  IN  IF flat THEN [ok |-> FALSE, unsure |-> FALSE]
      ELSE [ok |-> TRUE,
            c |-> << NF64(NAdd(mx, cx)), NF64(NAdd(my, cy)) >>,
            r2 |-> NF64(NAdd(NAdd(NMul(cx, cx), NMul(cy, cy)),
                             NDiv(NAdd(xx, yy), NInt(Len(points))))),
            \* nearly on a line
            unsure |-> NLe(det, NMul(NDec("1e-8"), spread))]

(***************************************************************************)
(* The circle near a target: through the three nearest vertices, then        *)
(* through all that are within a tenth of its radius.                        *)
(***************************************************************************)
OnCircle(p, f) == Rel(Dist2(p, f.c), f.r2, "1e-9")
CircleAt(vs, target, rounded) ==
  LET order == ByDist(vs, target)
      sel == Closest(vs, 3, target)
      first == Fit([i \in DOMAIN sel |-> sel[i].p])
      r == NSqrt(first.r2)
      inner == NMul(r, NDec(".9"))
      outer == NMul(r, NDec("1.1"))
      last == sel[Len(sel)]
      AllExact == ~ rounded /\ Exact(target) /\ \A i \in DOMAIN vs : Exact(vs[i])
      \* Rounding could select other points ...
      tie == /\ Len(sel) = 3 /\ ~ AllExact
             /\ \E i \in DOMAIN order :
                  /\ \A j \in 1..3 : sel[j].i # order[i].i
                  /\ Rel(order[i].d, last.d, "1e-9")
                  \* ... that aren't on the same circle anyway
                  /\ ~ OnCircle(order[i].p, first)
      twins == IF AllExact THEN {}
               ELSE { ij \in (DOMAIN order) \X (DOMAIN order) :
                       LET i == ij[1] j == ij[2] IN
                       /\ i < j /\ order[i].p # order[j].p
                       /\ Rel(order[i].d, order[j].d, "1e-9")
                       /\ NLe(NMul(NInt(100), Dist2(order[i].p, order[j].p)), NMul(NDec("1.000001"), order[i].d)) }
      twin == \E ij \in twins : LET i == ij[1] j == ij[2] IN
                   /\ \/ ~ OnCircle(order[i].p, first) \/ ~ OnCircle(order[j].p, first)
                      \/ NLe(Dist2(order[i].p, order[j].p), NMul(NDec("1e-12"), order[i].d))
      rim == \E i \in DOMAIN vs : LET d == Dist2(vs[i], first.c) IN
               Rel(d, NMul(inner, inner), "1e-7") \/ Rel(d, NMul(outer, outer), "1e-7")
  IN  IF Len(sel) < 3 THEN [ok |-> FALSE, unsure |-> twins # {}]
      ELSE IF ~ first.ok THEN [ok |-> FALSE, unsure |-> twins # {} \/ (~ AllExact /\ \E i \in DOMAIN order :
                  /\ \A j \in 1..3 : sel[j].i # order[i].i
                  /\ Rel(order[i].d, last.d, "1e-9"))]
      ELSE LET second == Fit(Between(vs, inner, outer, first.c)) IN
           [second EXCEPT !.unsure = @ \/ first.unsure \/ tie \/ twin \/ rim]

(***************************************************************************)
(* A point argument: [f |-> "", p] is a point of the model, [f |-> name,     *)
(* arg] a function.  err is "" or what is wrong, at line ln.                 *)
(***************************************************************************)
Ok(p, unsure) == [err |-> "", p |-> p, unsure |-> unsure, ln |-> 0]
Fail(what, line, unsure) == [err |-> what, p |-> <<>>, unsure |-> unsure, ln |-> line]

\* the value of a point argument isn't exact
Rounded(pt) == pt.f = "center"

RECURSIVE Eval(_, _, _)
Eval(pt, vs, m) ==
  CASE pt.f = "" -> Ok(ToF64(VApply(pt.p, m)), FALSE)
    [] pt.f = "near" ->
         IF vs = <<>> THEN Fail("near", pt.ln, FALSE)
         ELSE LET a == Eval(pt.arg, vs, m) IN
              IF a.err # "" THEN a
              ELSE LET n == Near(vs, a.p, Rounded(pt.arg)) IN Ok(n.p, n.unsure \/ a.unsure)
    [] pt.f = "center" ->
         IF Len(vs) < 3 THEN Fail("center", pt.ln, FALSE)
         ELSE LET a == Eval(pt.arg, vs, m) IN
              IF a.err # "" THEN a
              ELSE LET c == CircleAt(vs, a.p, Rounded(pt.arg)) IN
                   IF c.ok THEN Ok(<< c.c[1], c.c[2], N0 >>, c.unsure \/ a.unsure)
                   ELSE Fail("center", pt.ln, c.unsure \/ a.unsure)
    [] OTHER -> Fail(pt.f, pt.ln, FALSE)
=============================================================================
