------------------------------- MODULE MC_Hide -------------------------------
(***************************************************************************)
(* An edge with up to Most triangles above it, each hiding an interval of it  *)
(* (or none), in every order: nested, touching, overlapping, apart.  Laws:    *)
(* what remains is what no interval covers, in order and without overlaps,    *)
(* whatever the order of the intervals.                                      *)
(***************************************************************************)
EXTENDS Hidden, TLC, Json
VARIABLES ivs, told
CONSTANTS Most, Ends
\* from 0 to Ends, in steps of 2 on paper
Intervals == { << i, j >> \in (0..Ends) \X (0..Ends) : i < j }

Init == ivs = <<>> /\ told = FALSE
Grow == ~ told /\ Len(ivs) < Most /\ \E x \in Intervals : ivs' = Append(ivs, x) /\ UNCHANGED told

V(x, y, z) == "vertex " \o ToString(x) \o " " \o ToString(y) \o " " \o ToString(z) \o "\n"
Facet(a, b, c) == "facet normal 0 0 1\nouter loop\n" \o a \o b \o c \o "endloop\nendfacet\n"
\* hides i to j where y = 0; the order of the intervals is that of the heights
Hider(iv, z) == LET w == iv[2] - iv[1] IN
  Facet(V(2 * iv[1] - w, -1, z), V(2 * iv[2] + w, -1, z), V(iv[1] + iv[2], 1, z))
\* the edge is the longest of a flat triangle below, from -2 to 2 Ends + 2
File == FoldLeft(LAMBDA s, i : IF i % 2 = 0 THEN s \o Hider(ivs[i], Len(ivs) + 1 - i) ELSE Hider(ivs[i], Len(ivs) + 1 - i) \o s,
                 Facet(V(-2, 0, 0), V(2 * Ends + 2, 0, 0), V(Ends, 40, -1)), [i \in DOMAIN ivs |-> i])
Tell == ~ told /\ told' = TRUE /\ UNCHANGED ivs /\ PrintT("CASE " \o ToJson([stl |-> File]))
Next == Grow \/ Tell

Frac(i) == NDiv(NInt(i), NInt(Ends))
AsT == [i \in DOMAIN ivs |-> << Frac(ivs[i][1]), Frac(ivs[i][2]) >>]
Cell(i) == NDiv(NInt(2 * i + 1), NInt(2 * Ends))
Covered(x, s) == \E i \in DOMAIN s : NLe(s[i][1], x) /\ NLe(x, s[i][2])
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Laws == LET r == Rest(AsT) IN
  /\ \A i \in 0..(Ends - 1) : Covered(Cell(i), r) # Covered(Cell(i), AsT)
  /\ \A i \in DOMAIN r : NLt(r[i][1], r[i][2])
  /\ \A i \in 1..(Len(r) - 1) : NLt(r[i][2], r[i + 1][1])
  /\ Rest(Rev(AsT)) = r
  /\ Rest(r) = Rest(Rest(Rest(r)))
=============================================================================
