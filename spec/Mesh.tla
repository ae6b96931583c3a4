-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* A model as seen in a view: the triangles that face the viewer, their      *)
(* edges, and which of those edges are drawn (STLFile::Rotate, CullBackFace, *)
(* Index, Limits, Points).                                                   *)
(***************************************************************************)
EXTENDS View, SequencesExt, FiniteSetsExt

(***************************************************************************)
(* Orientation.  The stored normal decides which side of a facet faces out:  *)
(* the vertices are listed counterclockwise when seen from there.            *)
(***************************************************************************)
Cross3(v) == VCross(VSub(v[2], v[1]), VSub(v[3], v[1]))
Orient(f) == IF NLt(VDot(f.n, Cross3(f.v)), N0) THEN << f.v[3], f.v[2], f.v[1] >> ELSE f.v

Tiny18 == NDec("1e-18")
\* a is 0 compared to the product of the lengths of p and q, but for rounding
Negligible(a, p, q) == NLe(NMul(a, a), NMul(Tiny18, NMul(VSq(p), VSq(q))))
Simple(v) == \A i \in 1..3 : \A j \in 1..3 : NF32(v[i][j]) = v[i][j]

\* Rounding decides which way the facet faces, or whether it is degenerate.
FacetUnsure(f) ==
  LET c == Cross3(f.v)
      e1 == VSub(f.v[2], f.v[1])
      e2 == VSub(f.v[3], f.v[1])
  IN  IF VIsZero(c) THEN ~ Simple(f.v)
      ELSE \/ NLe(VSq(c), NMul(NDec("1e-18"), NMul(VSq(e1), VSq(e2))))
           \/ Negligible(VDot(f.n, c), f.n, c)

ToF64(p) == [i \in DOMAIN p |-> NF64(p[i])]
\* the facet turned by m: [v |-> vertices, n |-> outward normal of any length]
TurnFacet(f, m) ==
  LET o == Orient(f)
      v == [i \in 1..3 |-> ToF64(VApply(o[i], m))]
  IN  [v |-> v, n |-> Cross3(v)]

Faces(t) == NLt(N0, t.n[3])
\* Two vertices are at the same place on paper: the facet is edge-on in spite
\* of rounding.
Upright(v) == VXY(v[1]) = VXY(v[2]) \/ VXY(v[2]) = VXY(v[3]) \/ VXY(v[1]) = VXY(v[3])
\* Rounding decides whether the facet is seen edge-on.
EdgeOn(t, plain, exact) ==
  /\ ~ VIsZero(t.n)
  /\ Negligible(t.n[3], t.n, << N0, N0, N1 >>)
  /\ ~ (plain /\ t.n[3] = N0 /\ exact)

\* plain: the view moves coordinates around but never combines them.
SeenFacets(facets, m, plain) ==
  LET all == [i \in DOMAIN facets |-> TurnFacet(facets[i], m)]
  IN  [f |-> SelectSeq(all, Faces),
       unsure |-> \/ \E i \in DOMAIN facets : FacetUnsure(facets[i])
                  \/ \E i \in DOMAIN all : EdgeOn(all[i], plain, Simple(all[i].v) \/ Upright(all[i].v))]

(***************************************************************************)
(* Edges.  An edge is a pair of points in lexicographic order, so that the   *)
(* two triangles next to it name it the same way.                            *)
(***************************************************************************)
Edge(a, b) == IF VLt(a, b) THEN << a, b >> ELSE << b, a >>
EdgesOf(t) == << Edge(t.v[1], t.v[2]), Edge(t.v[2], t.v[3]), Edge(t.v[3], t.v[1]) >>

\* seen -> all edges, each with the triangles (numbers) that have it
EdgeTable(seen) ==
  LET per == [i \in DOMAIN seen |-> EdgesOf(seen[i])]
      all == UNION { { per[i][1], per[i][2], per[i][3] } : i \in DOMAIN seen }
  IN  [e \in all |-> { i \in DOMAIN seen : per[i][1] = e \/ per[i][2] = e \/ per[i][3] = e }]

(***************************************************************************)
(* The seam between two triangles is smooth when the cosine of the angle     *)
(* between their normals is at least 0.98.                                   *)
(***************************************************************************)
Limit2 == NDec("0.9604")            \* the square of 0.98
CosCmp(a, b, k) ==                  \* cosine of the angle of a and b >= sqrt(k)
  LET d == VDot(a, b)
  IN  NLe(N0, d) /\ NLe(NMul(k, NMul(VSq(a), VSq(b))), NMul(d, d))
Smooth(a, b) == CosCmp(a, b, Limit2)
\* for sure: not within rounding of the limit
SurelySmooth(a, b) == CosCmp(a, b, NDec("0.960401"))
SurelyCrease(a, b) == ~ CosCmp(a, b, NDec("0.960399"))

\* "yes" it is drawn, "no" it isn't, "may" for edges of three or more
\* triangles of which only some are smooth, and for rounding.
Feature(seen, owners) ==
  IF Cardinality(owners) = 1 THEN "yes"
  ELSE LET pairs == { << i, j >> \in owners \X owners : i < j } IN
       IF \A p \in pairs : SurelySmooth(seen[p[1]].n, seen[p[2]].n) THEN "no"
       ELSE IF \A p \in pairs : SurelyCrease(seen[p[1]].n, seen[p[2]].n) THEN "yes"
       ELSE "may"

(***************************************************************************)
(* The vertices and the bounding box of what is seen.                        *)
(***************************************************************************)
Vertices(seen) == UNION { { seen[i].v[1], seen[i].v[2], seen[i].v[3] } : i \in DOMAIN seen }

\* [lo, hi] in x and y; around the origin if nothing is seen.
Box(seen) ==
  IF seen = <<>> THEN [lo |-> << N0, N0 >>, hi |-> << N0, N0 >>]
  ELSE LET Grow(b, p) == [lo |-> << NMin(b.lo[1], p[1]), NMin(b.lo[2], p[2]) >>,
                          hi |-> << NMax(b.hi[1], p[1]), NMax(b.hi[2], p[2]) >>]
           p0 == VXY(seen[1].v[1])
       IN  FoldLeft(LAMBDA b, t : Grow(Grow(Grow(b, t.v[1]), t.v[2]), t.v[3]),
                    [lo |-> p0, hi |-> p0], seen)
Middle(box) == VMul(VAdd(box.lo, box.hi), NDec("0.5"))
=============================================================================
