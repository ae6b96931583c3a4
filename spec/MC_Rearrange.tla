---------------------------- MODULE MC_Rearrange ----------------------------
(***************************************************************************)
(* A file that is edited without changing the shape in it: neighbouring       *)
(* facets change places, facets list their vertices in other orders, and the  *)
(* whole is laid out, split into solids and spelled in other ways.  Law: what  *)
(* is drawn of it and of dimensions that pick points from it stays the same.  *)
(***************************************************************************)
EXTENDS Meaning, Laws
CONSTANT Styles
VARIABLES list, style, told

Pts_ == << << "0", "0", "0" >>, << "4", "0", "0" >>, << "0", "3", "0" >>, << "4", "3", "1" >>, << "1", "1", "5" >>, << "3", "1", "5" >>, << "2", "2.5", "4" >>, << "9", "0", "1" >> >>
\* what hides a part of others, a crease between two, and one that faces away
Shape == << [n |-> << "0", "0", "1" >>, v |-> << 1, 2, 3 >>],
            [n |-> << "-0.25", "-0.75", "3" >>, v |-> << 2, 4, 3 >>],
            [n |-> << "0", "2", "3" >>, v |-> << 5, 6, 7 >>] >>
Orders_ == << << 1, 2, 3 >>, << 2, 3, 1 >>, << 3, 1, 2 >>, << 3, 2, 1 >>, << 1, 3, 2 >>, << 2, 1, 3 >> >>
Init == /\ list = [i \in DOMAIN Shape |-> [f |-> i, o |-> 1]]
        /\ style = 0 /\ told = FALSE
Swap(i) == list' = [list EXCEPT ![i] = list[i + 1], ![i + 1] = list[i]] /\ UNCHANGED << style, told >>
Relist(i) == \E o \in DOMAIN Orders_ : o # list[i].o /\ list' = [list EXCEPT ![i].o = o] /\ UNCHANGED << style, told >>
Restyle == style' \in Styles \ {style} /\ UNCHANGED << list, told >>

\* the same number in other words
Spell(x, k) == LET neg == Ch(x, 1) = "-" a == IF neg THEN From(x, 2) ELSE x
                   dot == HasSub(a, ".") s == IF neg THEN "-" ELSE "" IN
  CASE k % 4 = 0 -> x
    [] k % 4 = 1 -> s \o a \o (IF dot THEN "000" ELSE ".0")
    [] k % 4 = 2 -> (IF neg THEN "-" ELSE "+") \o a \o "e0"
    [] k % 4 = 3 -> s \o "00" \o a \o "E+00"
Coords(t, k) == Spell(t[1], k) \o " " \o Spell(t[2], k) \o (IF k > 3 THEN "   " ELSE " ") \o Spell(t[3], k)
FacetText(e, k) ==
  LET f == Shape[e.f]
      v(i) == Coords(Pts_[f.v[Orders_[e.o][i]]], k)
      in == IF k % 2 = 1 THEN "    " ELSE ""
  IN  in \o "facet normal " \o Coords(f.n, k) \o LF \o (IF k = 5 THEN "" ELSE in \o " outer loop" \o LF)
      \o in \o "vertex " \o v(1) \o LF \o in \o "  vertex " \o v(2) \o LF \o in \o "vertex  " \o v(3) \o LF
      \o (IF k = 5 THEN "" ELSE in \o "endloop" \o LF) \o in \o "endfacet" \o LF
FileOf(l, k) ==
  LET split == k \in {2, 3, 6, 7} IN
  (IF k = 4 THEN "" ELSE "solid a" \o LF)
  \o FoldLeft(LAMBDA a, i : a \o FacetText(l[i], k) \o (IF split /\ i = (k % 2) + 1 THEN "endsolid a" \o LF \o "solid b" \o LF ELSE ""), "", [i \in DOMAIN l |-> i])
  \o (IF k = 4 THEN "" ELSE "endsolid" \o LF)
Dims_ == << "dim(at = [1, 5, 0], dir = [1, 0.5, 0], from = near([0.25, 0.5, 9]), to = near([5, 2, -3]));",
            "dia(at = [6, 4, 0], dir = [1, 1, 0], center = [2, 1.5, 7]);",
            "dim(at = [1, -2, 0], dir = [1, 0, 0], from = center([2, 1.25, 0]), to = [4, 0, 0]);" >>
Names == << "m", "zz", "A_1", "m", "dim2", "m", "q", "x" >>
Tell == ~ told /\ told' = TRUE /\ UNCHANGED << list, style >>
        /\ PrintT("CASE " \o ToJson([stl |-> FileOf(list, style), name |-> Names[style + 1], set |-> "scale = 1 : 2;", dims |-> Join(Dims_, " "),
                                     plain |-> FileOf([i \in DOMAIN Shape |-> [f |-> i, o |-> 1]], 0)]))
Next == (~ told /\ ((\E i \in 1..(Len(list) - 1) : Swap(i)) \/ (\E i \in DOMAIN list : Relist(i)) \/ Restyle)) \/ Tell

Item_ == Parse("page { draw m { scale = 1 : 2; " \o Join(Dims_, " ") \o " } }").pages[1].items[1]
SceneFor(l, k) == LET s == ReadStl(FileOf(l, k)) IN
                  Scene(Item_, [n \in {"m"} |-> [ok |-> s.bad = 0, facets |-> s.out, unsure |-> s.unsure]])
Lines_(s) == LET m == ModelInk(s) IN { << m.edges[i], m.kind[i], SegSet(m.must[i]), SegSet(m.may[i]) >> : i \in DOMAIN m.edges }
Notes(s) == [i \in DOMAIN Dims_ |-> Annotate(s, Item_.dims[i])]
First_ == SceneFor([i \in DOMAIN Shape |-> [f |-> i, o |-> 1]], 0)
Lines1 == Lines_(First_)
Notes1 == Notes(First_)
Sound == Cardinality(Lines1) = 8 /\ \A i \in DOMAIN Notes1 : Good(Notes1[i])
Here == SceneFor(list, style)
Same == told => /\ ~ Here.unsure
                /\ Lines_(Here) = Lines1
                /\ \A i \in DOMAIN Dims_ : SameInk(Notes(Here)[i], Notes1[i], << N0, N0 >>)
=============================================================================
