------------------------------ MODULE MC_Layout ------------------------------
(***************************************************************************)
(* Draws with all combinations of some scales, places, views and models.     *)
(* Laws: a model length L is 72 L a / b points; the middle of what faces the  *)
(* viewer lies at the center of the page, or as many inches from it as @      *)
(* says; arrow heads and gaps have the same size at every scale; leaving a    *)
(* property out is the same as giving its default.                            *)
(***************************************************************************)
EXTENDS Meaning, Laws
VARIABLES st, told

\* [a, b, the text]
Scales == << << 1, 1, "" >>, << 1, 1, "1 : 1" >>, << 3, 1, "3 : 1" >>, << 1, 3, "1:3" >>, << 7, 5, "7 : 5" >>, << 30, 1, "30 : 1" >>, << 1, 100, "1 : 100" >>, << 100, 3, "100 : 3" >> >>
Places == << << "0", "0", "" >>, << "0", "0", "[0, 0]" >>, << "1", "0", "[1, 0]" >>, << "-2.5", "1.25", "[-2.5, 1.25]" >>, << "0.1", "-3", "[0.1, -3]" >>, << "40", "41", "[40, 41]" >> >>
ViewTexts == << "", "\"Z+\"", "\"X-\"", "[30, 60]" >>
Tetra == "facet normal 0 0 -1\nvertex 0 0 0\nvertex 0 5 0\nvertex 3 0 0\nendfacet\nfacet normal 0 -7 1\nvertex 0 0 0\nvertex 3 0 0\nvertex 1 1 7\nendfacet\n"
         \o "facet normal -7 0 1\nvertex 0 0 0\nvertex 1 1 7\nvertex 0 5 0\nendfacet\nfacet normal 35 21 7\nvertex 3 0 0\nvertex 0 5 0\nvertex 1 1 7\nendfacet\n"
\* what faces away counts for nothing
Pair == "facet normal 0 0 1\nvertex 10 0 0\nvertex 14 0 0\nvertex 10 6 0.5\nendfacet\nfacet normal -1 0 -1\nvertex 90 0 0\nvertex 90 9 0\nvertex 91 3 -1\nendfacet\n"
Stls == << Tetra, Pair >>
Init == /\ \E s \in DOMAIN Scales, p \in DOMAIN Places, v \in DOMAIN ViewTexts, m \in DOMAIN Stls : st = [s |-> s, p |-> p, v |-> v, m |-> m]
        /\ told = FALSE
Dims == "dim(at = [1, 2, 3], dir = [1, 2, 0.5], from = [0, 0, 0], to = [4, 4, 4]); angle(at = [2, 2, 2], apex = [0, 0, 0], from_dir = [1, 0, 0.25], to_point = [1, 3, 1]);"
Sets(x) == (IF Scales[x.s][3] = "" THEN "" ELSE "scale = " \o Scales[x.s][3] \o "; ")
           \o (IF Places[x.p][3] = "" THEN "" ELSE "@" \o Places[x.p][3] \o "; ")
           \o (IF ViewTexts[x.v] = "" THEN "" ELSE "view = " \o ViewTexts[x.v] \o "; ")
Item(x) == Parse("page { draw m { " \o Sets(x) \o Dims \o " } }").pages[1].items[1]
Facets(x) == ReadStl(Stls[x.m]).out
SceneOf(x) == Scene(Item(x), [n \in {"m"} |-> [ok |-> TRUE, facets |-> Facets(x), unsure |-> FALSE]])
Next == ~ told /\ told' = TRUE /\ UNCHANGED st
        /\ PrintT("CASE " \o ToJson([stl |-> Stls[st.m], set |-> Sets(st), stmt |-> Dims, bad |-> FALSE, unsure |-> FALSE]))

Sc == SceneOf(st)
Edges == ModelInk(Sc).edges
Ratio == NDiv(NMul(NInt(72), NInt(Scales[st.s][1])), NInt(Scales[st.s][2]))
\* the scale is kept as a float
About(x, y) == NLe(NAbs(NSub(x, y)), NMul(NDec("1e-6"), NAdd(N1, NAbs(y))))
Lengths == LET l == ModelLines(Sc.seen).edges e == Edges IN
  /\ Len(l) = Len(e)
  /\ \A i \in DOMAIN l : About(VLen(VSub(e[i][2], e[i][1])), NMul(Ratio, VLen(VXY(VSub(l[i][2], l[i][1])))))
Middle_ ==
  LET ends == UNION { { Edges[i][1], Edges[i][2] } : i \in DOMAIN Edges }
      Mid(i) == LET v == { p[i] : p \in ends } s == SetToSeq(v) IN
                NMul(NDec("0.5"), NAdd(FoldLeft(NMin, s[1], s), FoldLeft(NMax, s[1], s)))
  IN  ends # {} => /\ About(Mid(1), NAdd(NInt(396), NMul(NInt(72), NDec(Places[st.p][1]))))
                   /\ About(Mid(2), NAdd(NInt(306), NMul(NInt(72), NDec(Places[st.p][2]))))
Ink(x) == LET s == SceneOf(x) IN [i \in 1..2 |-> Annotate(s, Item(x).dims[i])]
Heads == \A i \in 1..2 : LET r == Ink(st)[i] IN
  r.bad = {} /\ \A s \in LinesAs(r, "dim.arrow") : Close(VSq(VSub(s[1], s[2])), NInt(40))
Defaults ==
  /\ st.s = 1 => SceneOf([st EXCEPT !.s = 2]) = Sc
  /\ st.p = 1 => SceneOf([st EXCEPT !.p = 2]) = Sc
  /\ st.v = 1 => SceneOf([st EXCEPT !.v = 2]) = Sc
=============================================================================
