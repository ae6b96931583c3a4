------------------------------ MODULE MC_Overlap ------------------------------
(***************************************************************************)
(* One triangle under another, both with their corners on a small grid, so    *)
(* that corners and edges coincide on paper in every way there is; level,     *)
(* tilted, or through each other.  Laws: what is hidden and what is visible   *)
(* of an edge are the whole edge; a point of the edge is visible exactly when  *)
(* it isn't strictly inside the triangle above; nothing hides what is above.  *)
(***************************************************************************)
EXTENDS Hidden, TLC, Json
VARIABLES a, b, hs, told
vars == << a, b, hs, told >>

CONSTANT N                                  \* points of the grid are 0..N-1
Grid == 0..(N * N - 1)
GX(i) == i % N
GY(i) == i \div N
Turns(i, j, k) == (GX(j) - GX(i)) * (GY(k) - GY(i)) - (GY(j) - GY(i)) * (GX(k) - GX(i))
\* counterclockwise, with the smallest corner first
Triangles == { t \in Grid \X Grid \X Grid : t[1] < t[2] /\ t[1] < t[3] /\ Turns(t[1], t[2], t[3]) > 0 }
\* heights of the corners of the second triangle
Heights == { << 2, 2, 2 >>, << 4, 2, 0 >>, << -2, 2, 6 >>, << -1, 4, 1 >> }
At3(i, h) == << NInt(GX(i)), NInt(GY(i)), NDiv(NInt(h), NInt(4)) >>
A == << At3(a[1], 0), At3(a[2], 0), At3(a[3], 0) >>
B == << At3(b[1], hs[1]), At3(b[2], hs[2]), At3(b[3], hs[3]) >>

Text(i, h) == "vertex " \o ToString(GX(i)) \o " " \o ToString(GY(i)) \o " " \o (IF h < 0 THEN "-" ELSE "") \o NFix(NDiv(NInt(IF h < 0 THEN -h ELSE h), NInt(4)), 2) \o "\n"
Facet(t, h) == "facet normal 0 0 1\nouter loop\n" \o Text(t[1], h[1]) \o Text(t[2], h[2]) \o Text(t[3], h[3]) \o "endloop\nendfacet\n"
Zero == << 0, 0, 0 >>
File == IF (a[1] + b[2] + b[3]) % 2 = 0 THEN Facet(a, Zero) \o Facet(b, hs) ELSE Facet(b, hs) \o Facet(a, Zero)

T(v) == [v |-> v, n |-> Cross3(v)]
Init == a \in Triangles /\ b \in Triangles /\ hs \in Heights /\ told = FALSE
        /\ Apart(<< T(A), T(B) >>)
Next == ~ told /\ told' = TRUE /\ UNCHANGED << a, b, hs >> /\ PrintT("CASE " \o ToJson([stl |-> File]))

Edges(v) == { Edge(v[1], v[2]), Edge(v[2], v[3]), Edge(v[3], v[1]) }
Half == NDec("0.5")
In(x, iv) == iv # <<>> /\ NLt(iv[1], x) /\ NLt(x, iv[2])
InSome(x, ivs) == \E i \in DOMAIN ivs : NLe(ivs[i][1], x) /\ NLe(x, ivs[i][2])
\* the point p is strictly behind and inside triangle t
Behind(p, t) == NLt(N0, VDot(t.n, VSub(t.v[1], p)))
Inside(p, t) == \A k \in 1..3 : NLt(N0, VCrossZ(VSub(t.v[(k % 3) + 1], t.v[k]), VSub(p, t.v[k])))
Samples == { NDiv(NInt(2 * i + 1), NInt(30)) : i \in 0..14 }
Law(e, t) ==
  LET iv == HiddenBy(e, t, N0)
      rest == Rest(IF iv = <<>> THEN <<>> ELSE << iv >>) IN
  \A x \in Samples :
    LET p == AtT(e, x) IN
    /\ Behind(p, t) /\ Inside(p, t) => In(x, iv)
    /\ In(x, iv) => ~ \E k \in 1..3 : NLt(VCrossZ(VSub(t.v[(k % 3) + 1], t.v[k]), VSub(p, t.v[k])), N0)
    /\ In(x, iv) => Behind(p, t) \/ VDot(t.n, VSub(t.v[1], p)) = N0
    /\ In(x, iv) \/ InSome(x, rest)
    /\ ~ (In(x, iv) /\ InSome(x, rest))
\* with more room around the triangle more is hidden
Wider(e, t) == LET m == NDec("0.01") i == HiddenBy(e, t, m) j == HiddenBy(e, t, N0) k == HiddenBy(e, t, NNeg(m)) IN
  /\ i # <<>> => j # <<>> /\ NLe(j[1], i[1]) /\ NLe(i[2], j[2])
  /\ j # <<>> => \/ (k # <<>> /\ NLe(k[1], j[1]) /\ NLe(j[2], k[2]))
                  \/ (k = <<>> /\ Lies(e, t, NNeg(m)))
Laws == told =>
  /\ \A e \in Edges(A) : Law(e, T(B)) /\ Wider(e, T(B))
  /\ \A e \in Edges(B) : Law(e, T(A)) /\ Wider(e, T(A))
  /\ (\A i \in 1..3 : hs[i] > 0) => \A e \in Edges(B) : HiddenBy(e, T(A), N0) = <<>>
=============================================================================
