------------------------------- MODULE MC_Stl -------------------------------
(***************************************************************************)
(* The reader of .stl files as an automaton: every kind of state is reached   *)
(* by a shortest file and tried with every kind of line, and several ends of  *)
(* the file.  Laws: blanks around the parts of a line make no difference, nor *)
(* does a facet without a normal, and facets are read one by one.             *)
(***************************************************************************)
EXTENDS Stl, TLC, Json
VARIABLES w, told

\* lines, by what they do
Good == << "solid", "solid a b", "facet normal 0 0 1", "facet normal 0 0 0", "facet normal -1e0 +.5 2.", "outer loop",
           "vertex 0 0 0", "vertex 4 0 1", "vertex 1 3 0.5", "endloop", "endfacet", "endsolid", "endsolid x" >>
Odd == << "", " ", "Solid", "solidx", "facet", "facet normal", "facet normal 0 0", "facet normal 0 0 1 0", "facet normal 0 0 x",
          "facetnormal 0 0 1", "outer", "outerloop", "outer  loop", "outer loop x", "loop", "vertex", "vertex 1 2", "vertex 1 2 3 4", "vertex 1 2 c",
          "vertex1 2 3", "vertex 1,2,3", "vertices 1 2 3", "vertex 1 2 3x", "vertex 0x1 2 3", "end loop", "endloops", "endfacet 1",
          "end facet", "end", "endsolidx", "# vertex 1 2 3", "x vertex 1 2 3", "solid" \o CR, "VERTEX 1 2 3", "vertex 1 2 .", "vertex 1 2 e3",
          "vertex 1 2 1e", "vertex 1 2 --1", "vertex 1 2 1.2.3", "vertex 1 2 inf", "vertex 1 2 nan", "vertex\t1 2 3", "vertex 1 2 3\t" >>
Triangle == << "facet normal 0 0 1", "outer loop", "vertex 0 0 0", "vertex 3 0 0", "vertex 1 2 0", "endloop", "endfacet" >>
Ends == << <<>>, << "endfacet" >>, << "vertex 0 3 0", "endfacet" >>, << "vertex 2 2 1", "vertex 0 3 0", "endfacet" >>,
           << "facet normal 0 0 1", "endfacet" >>, Triangle, << "endloop", "endfacet" >> \o Triangle >>

Read(lines) == FoldLeft(StlStep, StlInit, lines)
File(lines) == Join(lines, LF) \o LF
Kind(lines) == LET s == Read(lines) IN << VIsZero(s.n), Len(s.pts), s.out # <<>> >>
\* the first three vertices of a facet are different
Fresh(line) == LineOf(line).k = "vertex" =>
  \A j \in DOMAIN Read(w).pts : j > 3 \/ Read(w).pts[j] # LineOf(line).p \/ Len(Read(w).pts) >= 3
Init == w = <<>> /\ told = FALSE
Grow == ~ told /\ \E i \in DOMAIN Good : /\ Read(Append(w, Good[i])).bad = 0 /\ Len(Read(Append(w, Good[i])).pts) <= 4
                                         /\ Fresh(Good[i])
                                         /\ w' = Append(w, Good[i]) /\ UNCHANGED told
Tell == /\ ~ told /\ told' = TRUE /\ UNCHANGED w
        /\ \A i \in 1..(Len(Good) + Len(Odd)) : \A e \in DOMAIN Ends :
             PrintT("CASE " \o ToJson([stl |-> File(Append(w, IF i <= Len(Good) THEN Good[i] ELSE Odd[i - Len(Good)]) \o Ends[e])]))
Next == Grow \/ Tell
View == << Kind(w), told >>

\* Blanks around a line and between its numbers.
Wide(s) == "  " \o s \o " "
Blanks == \A i \in DOMAIN Good : LineOf(Wide(Good[i])) = LineOf(Good[i])
          /\ LineOf("vertex   1    2 3 ") = LineOf("vertex 1 2 3")
OddIsBad == \A i \in DOMAIN Odd : LineOf(Odd[i]).k = "bad"
\* A whole triangle adds exactly one facet, wherever it comes.
OneMore == LET s == Read(w) IN Len(Read(w \o Triangle).out) = Len(s.out) + 1
\* What was read stays read.
Prefix == \A i \in DOMAIN Good : LET s == Read(w) t == Read(Append(w, Good[i])) IN SubSeq(t.out, 1, Len(s.out)) = s.out
\* The end of the last line is no part of it.
LastLine == w # <<>> => ReadStl(Join(w, LF)) = ReadStl(File(w))
=============================================================================
