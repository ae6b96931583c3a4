------------------------------- MODULE Hidden -------------------------------
(***************************************************************************)
(* Which parts of the drawn edges are visible (STLFile::ToLines).            *)
(*                                                                          *)
(* A point is hidden when some triangle lies in front of it.  On an edge     *)
(* from p to q, at p + t (q - p), everything that matters is linear in t, so *)
(* what one triangle hides is an interval of t.  Floating point leaves a     *)
(* margin around every boundary; the specification therefore says which      *)
(* parts must be drawn (not hidden even if every triangle were a little      *)
(* larger and nearer) and which may be (not hidden if they were a little     *)
(* smaller and farther).                                                     *)
(***************************************************************************)
EXTENDS Mesh

\* The part of the interval where g, with values g0 at t = 0 and g1 at t = 1,
\* is at least k.  << >> is the empty interval.
Clip(iv, g0, g1, k) ==
  IF iv = <<>> THEN iv
  ELSE LET a == NSub(g0, k)
           b == NSub(g1, k) IN
       IF NLe(N0, a) /\ NLe(N0, b) THEN iv
       ELSE IF NLt(a, N0) /\ NLt(b, N0) THEN <<>>
       ELSE LET t == NDiv(a, NSub(a, b))
                lo == IF NLt(a, N0) THEN NMax(iv[1], t) ELSE iv[1]
                hi == IF NLt(b, N0) THEN NMin(iv[2], t) ELSE iv[2]
            IN  IF NLt(hi, lo) THEN <<>> ELSE << lo, hi >>

L1(v) == NAdd(NAbs(v[1]), NAdd(NAbs(v[2]), IF Len(v) = 3 THEN NAbs(v[3]) ELSE N0))

\* An edge that lies in the plane of t isn't hidden by it.  (Rounding, in
\* numbers and when the model is turned, is far smaller than m.)
Lies(e, t, m) ==
  LET Off(x) == NAbs(VDot(t.n, VSub(t.v[1], x)))
      k == NMul(NDec("1e-6"), NMul(NAbs(m), L1(t.n)))
  IN  NLe(Off(e[1]), k) /\ NLe(Off(e[2]), k)

\* The interval of edge e that triangle t hides, with every condition moved
\* by a distance (larger: less is hidden): d in depth, w[k] at side k.
HiddenIn(e, t, d, w) ==
  LET p == e[1]
      q == e[2]
      Depth(x) == VDot(t.n, VSub(t.v[1], x))        \* > 0 behind the plane of t
      Side(k, x) == VCrossZ(VSub(t.v[(k % 3) + 1], t.v[k]), VSub(x, t.v[k]))
      Width(k) == L1(VXY(VSub(t.v[(k % 3) + 1], t.v[k])))
      i0 == Clip(<< N0, N1 >>, Depth(p), Depth(q), NMul(d, L1(t.n)))
      i1 == IF i0 = <<>> THEN i0 ELSE Clip(i0, Side(1, p), Side(1, q), NMul(w[1], Width(1)))
      i2 == IF i1 = <<>> THEN i1 ELSE Clip(i1, Side(2, p), Side(2, q), NMul(w[2], Width(2)))
  IN  IF i2 = <<>> THEN i2 ELSE Clip(i2, Side(3, p), Side(3, q), NMul(w[3], Width(3)))
HiddenBy(e, t, m) == IF NLt(m, N0) /\ Lies(e, t, m) THEN <<>> ELSE HiddenIn(e, t, m, << m, m, m >>)

\* The rest of 0..1 without the intervals.
Rest(ivs) ==
  LET s == SortSeq(ivs, LAMBDA a, b : NLt(a[1], b[1]))
      r == FoldLeft(LAMBDA st, iv :
                      [at |-> NMax(st.at, iv[2]),
                       out |-> IF NLt(st.at, iv[1]) THEN Append(st.out, << st.at, iv[1] >>) ELSE st.out],
                    [at |-> N0, out |-> <<>>], s)
  IN  IF NLt(r.at, N1) THEN Append(r.out, << r.at, N1 >>) ELSE r.out

\* Triangles whose bounding box on paper, enlarged by m, doesn't meet that of
\* the edge can't hide any of it.
BoxOf(ps) == << NMin(ps[1][1], NMin(ps[2][1], ps[Len(ps)][1])), NMin(ps[1][2], NMin(ps[2][2], ps[Len(ps)][2])),
                NMax(ps[1][1], NMax(ps[2][1], ps[Len(ps)][1])), NMax(ps[1][2], NMax(ps[2][2], ps[Len(ps)][2])) >>
Meets(a, b) == NLe(a[1], b[3]) /\ NLe(b[1], a[3]) /\ NLe(a[2], b[4]) /\ NLe(b[2], a[4])
Enlarge(b, m) == << NSub(b[1], m), NSub(b[2], m), NAdd(b[3], m), NAdd(b[4], m) >>

\* The visible parts of edge e, which belongs to the triangles owners.  seams
\* tells the sides of each triangle at which another one goes on: what runs
\* along a seam, well behind it, is hidden though it is at the border of both.
Visible(seen, boxes, seams, e, owners, m) ==
  LET b == BoxOf(e)
      near == { i \in DOMAIN seen : i \notin owners /\ Meets(b, boxes[i]) }
      deep == NMul(m, NInt(1000))
      ivs == { HiddenBy(e, seen[i], m) : i \in near }
               \cup { HiddenIn(e, seen[i], deep, [k \in 1..3 |-> IF k \in seams[i] THEN NNeg(m) ELSE m])
                        : i \in { j \in near : NLt(N0, m) /\ seams[j] # {} } }
  IN  Rest(SetToSeq(ivs \ {<<>>}))

AtT(e, t) == VAdd(e[1], VMul(VSub(e[2], e[1]), t))
Parts(e, ivs) == [i \in DOMAIN ivs |-> << AtT(e, ivs[i][1]), AtT(e, ivs[i][2]) >>]

\* Edge e goes through the triangle t.
Pierces(e, t) ==
  LET Depth(x) == VDot(t.n, VSub(t.v[1], x))
      a == Depth(e[1])
      b == Depth(e[2])
      p == AtT(e, NDiv(a, NSub(a, b)))
  IN  /\ NLt(NMul(a, b), N0)
      /\ \A k \in 1..3 : NLe(N0, VCrossZ(VSub(t.v[(k % 3) + 1], t.v[k]), VSub(p, t.v[k])))
\* No triangle of a scene goes through another one.
Apart(seen) == \A i, j \in DOMAIN seen : i = j \/ \A k \in 1..3 : ~ Pierces(EdgesOf(seen[i])[k], seen[j])

Extent(seen) == FoldLeft(LAMBDA a, t : NMax(a, NMax(L1(t.v[1]), NMax(L1(t.v[2]), L1(t.v[3])))), N0, seen)

(***************************************************************************)
(* The lines of a model: must and may are sequences of [e |-> edge,          *)
(* s |-> segments in model space as seen in the view]; other are the edges   *)
(* that aren't drawn at all, to tell what a stray line is.                   *)
(***************************************************************************)
ModelLines(seen) ==
  LET table == EdgeTable(seen)
      m == NMul(NDec("1e-8"), Extent(seen))
      edges == SetToSeq(DOMAIN table)
      kind == [i \in DOMAIN edges |-> Feature(seen, table[edges[i]])]
      boxes == [i \in DOMAIN seen |-> Enlarge(BoxOf(seen[i].v), NMul(m, NInt(50)))]
      Seam(i, k) ==
        LET a == seen[i].v[k]
            b == seen[i].v[(k % 3) + 1]
            Beyond(x) == NLt(VCrossZ(VSub(b, a), VSub(x, a)), NNeg(NMul(m, L1(VXY(VSub(b, a))))))
        IN  \E j \in table[Edge(a, b)] : j # i /\ \E l \in 1..3 : Beyond(seen[j].v[l])
      seams == [i \in DOMAIN seen |-> { k \in 1..3 : Seam(i, k) }]
      Vis(i, k) == Parts(edges[i], Visible(seen, boxes, seams, edges[i], table[edges[i]], k))
  IN  [must |-> [i \in DOMAIN edges |-> IF kind[i] = "yes" THEN Vis(i, NNeg(m)) ELSE <<>>],
       may |-> [i \in DOMAIN edges |-> IF kind[i] # "no" THEN Vis(i, m) ELSE <<>>],
       edges |-> edges, kind |-> kind]
=============================================================================
