------------------------------- MODULE MC_Mesh -------------------------------
(***************************************************************************)
(* Small meshes: sets of facets between six points, of which three are at the *)
(* same place on paper, so that surfaces fold back, branch and are seen       *)
(* edge-on.  Laws: which facets are seen and which edges are drawn doesn't    *)
(* depend on how a facet lists its vertices, nor on the order of the facets;  *)
(* what faces away makes no difference.                                      *)
(***************************************************************************)
EXTENDS Hidden, TLC, Json
VARIABLES fs, told

I3(a, b, c) == << NInt(a), NInt(b), NInt(c) >>
\* E is just above D: a smooth seam with what is level; F far above
Pos == << I3(0, 0, 0), I3(2, 0, 0), I3(0, 2, 0), I3(2, 2, 0), << NInt(2), NInt(2), NDec("0.25") >>, I3(2, 2, 2) >>
PosText == << "0 0 0", "2 0 0", "0 2 0", "2 2 0", "2 2 0.25", "2 2 2" >>
Triples == { t \in (1..6) \X (1..6) \X (1..6) : t[1] < t[2] /\ t[2] < t[3] }
\* s: which side is out
Facets == Triples \X {1, -1}
V(f) == << Pos[f[1][1]], Pos[f[1][2]], Pos[f[1][3]] >>
Out(f) == VMul(Cross3(V(f)), NInt(f[2]))
Facet(f) == [n |-> Out(f), v |-> V(f)]
Up(f) == NLt(N0, Out(f)[3])
Ups == { f \in Facets : Up(f) }

CONSTANTS MostUp, MostAny
Init == fs = <<>> /\ told = FALSE
Rank(f) == 1000 * f[1][1] + 100 * f[1][2] + 10 * f[1][3] + f[2]
IsLess(a, b) == Rank(a) < Rank(b)
AllUp(s) == \A i \in DOMAIN s : Up(s[i])
Grow == /\ ~ told
        /\ \E f \in Facets : /\ (IF fs = <<>> THEN TRUE ELSE IsLess(fs[Len(fs)], f))
                             /\ (Len(fs) < MostAny \/ (Len(fs) < MostUp /\ AllUp(Append(fs, f))))
                             /\ fs' = Append(fs, f) /\ UNCHANGED told
\* every other facet is listed the other way round, and the facets in both orders
Normal(n) == ToString(NFloor(NMul(n[1], NInt(4)))) \o " " \o ToString(NFloor(NMul(n[2], NInt(4)))) \o " " \o ToString(NFloor(NMul(n[3], NInt(4))))
Listing(f, k) == LET t == f[1] o == IF k = 0 THEN t ELSE IF k = 1 THEN << t[2], t[3], t[1] >> ELSE << t[2], t[1], t[3] >> IN
  "facet normal " \o Normal(Out(f)) \o "\nouter loop\nvertex " \o PosText[o[1]] \o "\nvertex " \o PosText[o[2]] \o "\nvertex " \o PosText[o[3]] \o "\nendloop\nendfacet\n"
File == FoldLeft(LAMBDA a, i : IF Len(fs) % 2 = 1 THEN a \o Listing(fs[i], (i + Len(fs)) % 3) ELSE Listing(fs[i], (i * Len(fs)) % 3) \o a, "", [i \in DOMAIN fs |-> i])
Seen(s) == SeenFacets([i \in DOMAIN s |-> Facet(s[i])], DefaultView, TRUE)
\* Facets that go through each other aren't scenes.
Tell == /\ ~ told /\ fs # <<>> /\ told' = TRUE /\ UNCHANGED fs
        /\ Apart(Seen(fs).f)
        /\ PrintT("CASE " \o ToJson([stl |-> File]))
Next == Grow \/ Tell

Table(s) == LET x == Seen(s).f t == EdgeTable(x) IN [e \in DOMAIN t |-> Feature(x, t[e])]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Turned(s) == [i \in DOMAIN s |-> LET f == Facet(s[i]) IN [f EXCEPT !.v = << @[2], @[3], @[1] >>]]
Flipped(s) == [i \in DOMAIN s |-> LET f == Facet(s[i]) IN [f EXCEPT !.v = << @[3], @[2], @[1] >>]]
TableOf(facets) == LET x == SeenFacets(facets, DefaultView, TRUE).f t == EdgeTable(x) IN [e \in DOMAIN t |-> Feature(x, t[e])]
Laws == told =>
  /\ ~ Seen(fs).unsure
  /\ Len(Seen(fs).f) = Cardinality({ i \in DOMAIN fs : Up(fs[i]) })
  /\ Table(fs) = Table(Rev(fs))
  /\ Table(fs) = TableOf(Turned(fs)) /\ Table(fs) = TableOf(Flipped(fs))
  /\ Table(fs) = Table(SelectSeq(fs, Up))
  \* every edge of a single facet is drawn, and an edge has no more facets than there are
  /\ Len(fs) = 1 /\ Up(fs[1]) => \A e \in DOMAIN Table(fs) : Table(fs)[e] = "yes"
  /\ LET b == Box(Seen(fs).f) IN \A p \in Vertices(Seen(fs).f) :
        NLe(b.lo[1], p[1]) /\ NLe(p[1], b.hi[1]) /\ NLe(b.lo[2], p[2]) /\ NLe(p[2], b.hi[2])
=============================================================================
