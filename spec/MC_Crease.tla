------------------------------ MODULE MC_Crease ------------------------------
(***************************************************************************)
(* Two triangles that share an edge and rise or fall from it with all pairs   *)
(* of slopes, from level to nearly upright, valleys and ridges.  Laws: whether *)
(* the shared edge is drawn is what the tangents say; mirroring, exchanging    *)
(* the two and turning them changes nothing; a crease that is bent further     *)
(* stays one.                                                                *)
(***************************************************************************)
EXTENDS Hidden, Stl, TLC, Json
VARIABLES st, told

Slopes == << "-512", "-64", "-8", "-5", "-1", "-0.25", "-0.203125", "-0.19921875", "-0.125", "0", "0.125", "0.19921875", "0.203125", "0.25", "1", "5", "8", "64", "512" >>
S(i) == NDec(Slopes[i])
\* k: how they are listed; w: how the whole is turned
Init == told = FALSE /\ st \in [a : DOMAIN Slopes, b : DOMAIN Slopes, k : 0..2, w : 0..1]
\* z = a x on the left and z = b x on the right
Left(x) == << << NInt(0), NInt(0), NInt(0) >>, << NInt(0), NInt(3), NInt(0) >>, << NInt(-1), NInt(1), NNeg(S(x.a)) >> >>
Right(x) == << << NInt(0), NInt(0), NInt(0) >>, << NInt(0), NInt(3), NInt(0) >>, << NInt(1), NInt(2), S(x.b) >> >>
Up(i) == << NNeg(S(i)), N0, N1 >>
Quarter(p) == << NNeg(p[2]), p[1], p[3] >>
Put(v, x) == IF x.w = 0 THEN v ELSE [i \in DOMAIN v |-> Quarter(v[i])]
N(n, x) == IF x.w = 0 THEN n ELSE Quarter(n)
Listed(v, k) == CASE k = 0 -> v [] k = 1 -> << v[3], v[2], v[1] >> [] k = 2 -> << v[2], v[3], v[1] >>
Facets(x) == LET l == [n |-> N(Up(x.a), x), v |-> Listed(Put(Left(x), x), x.k)]
                 r == [n |-> N(Up(x.b), x), v |-> Listed(Put(Right(x), x), (x.k * 2) % 3)]
             IN  IF x.k = 1 THEN << r, l >> ELSE << l, r >>
\* all numbers here have at most eight decimals
Text(n) == (IF NLt(n, N0) THEN "-" ELSE "") \o ToString(NFloor(NAbs(n))) \o
           LET f == NMul(NSub(NAbs(n), NInt(NFloor(NAbs(n)))), NInt(100000000)) s == ToString(NFloor(f)) IN
           "." \o SubSeq("00000000", 1, 8 - Len(s)) \o s
Vec(v) == Text(v[1]) \o " " \o Text(v[2]) \o " " \o Text(v[3])
File(x) == LET F(f) == "facet normal " \o Vec(f.n) \o "\nouter loop\nvertex " \o Vec(f.v[1]) \o "\nvertex " \o Vec(f.v[2]) \o "\nvertex " \o Vec(f.v[3]) \o "\nendloop\nendfacet\n"
           IN  "solid c\n" \o F(Facets(x)[1]) \o F(Facets(x)[2]) \o "endsolid\n"
Next == ~ told /\ told' = TRUE /\ UNCHANGED st
        /\ PrintT("CASE " \o ToJson([stl |-> File(st), stmt |-> "", set |-> "", bad |-> FALSE, unsure |-> FALSE]))

Seen(x) == SeenFacets(Facets(x), DefaultView, TRUE)
Kind(x) == LET f == Seen(x).f t == EdgeTable(f) IN Feature(f, t[CHOOSE e \in DOMAIN t : Cardinality(t[e]) = 2])
\* the tangents of the two: the angle between them is the crease
Tangents(x) == LET a == S(x.a) b == S(x.b)
                   c == NAdd(N1, NMul(a, b))
                   q == NMul(NAdd(N1, NMul(a, a)), NAdd(N1, NMul(b, b)))
               IN  IF NLt(c, N0) \/ NLt(NMul(c, c), NMul(NDec("0.9604"), q)) THEN "yes" ELSE "no"
Expected == Kind(st) = Tangents(st)
Both == LET s == Seen(st) IN ~ s.unsure /\ Len(s.f) = 2 /\ Cardinality(DOMAIN EdgeTable(s.f)) = 5
        /\ \A e \in DOMAIN EdgeTable(s.f) : Cardinality(EdgeTable(s.f)[e]) = 1 => Feature(s.f, EdgeTable(s.f)[e]) = "yes"
M(i) == Len(Slopes) + 1 - i
Mirrored == Kind([st EXCEPT !.a = M(st.b), !.b = M(st.a)]) = Kind(st) /\ Kind([st EXCEPT !.a = st.b, !.b = st.a]) = Kind(st)
Same == Kind([st EXCEPT !.k = 0, !.w = 0]) = Kind(st)
Sharper == (st.b < Len(Slopes) /\ st.a <= st.b /\ Kind(st) = "yes") => Kind([st EXCEPT !.b = @ + 1]) = "yes"
ReadBack == ReadStl(File(st)).out = Facets(st)
Laws == told => Expected /\ Both /\ Mirrored /\ Same /\ Sharper /\ ReadBack
=============================================================================
