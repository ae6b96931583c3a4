------------------------------ MODULE MC_StlNum ------------------------------
(***************************************************************************)
(* All short texts in the place of a number in a .stl file, and the          *)
(* automaton of numbers with every byte.  Laws: NClassF64 takes what this     *)
(* automaton takes; the value of a number doesn't depend on how it is written. *)
(***************************************************************************)
EXTENDS Stl, TLC, Json
CONSTANT MaxLen
VARIABLES w, told

\* [+-] digits [. digits] [e [+-] digits], at least one digit before the e
NStep(m, c) ==
  CASE m = "start" -> IF c \in {"+", "-"} THEN "sign" ELSE IF c \in Digits THEN "int" ELSE IF c = "." THEN "dot" ELSE "no"
    [] m = "sign" -> IF c \in Digits THEN "int" ELSE IF c = "." THEN "dot" ELSE "no"
    [] m = "int" -> IF c \in Digits THEN m ELSE IF c = "." THEN "frac" ELSE IF c \in {"e", "E"} THEN "exp" ELSE "no"
    [] m = "dot" -> IF c \in Digits THEN "frac" ELSE "no"
    [] m = "frac" -> IF c \in Digits THEN m ELSE IF c \in {"e", "E"} THEN "exp" ELSE "no"
    [] m = "exp" -> IF c \in {"+", "-"} THEN "esign" ELSE IF c \in Digits THEN "edig" ELSE "no"
    [] m \in {"esign", "edig"} -> IF c \in Digits THEN "edig" ELSE "no"
    [] OTHER -> m
Mode(s) == FoldLeft(LAMBDA a, i : NStep(a, Ch(s, i)), "start", Range1(Len(s)))
Accepts(s) == Mode(s) \in {"int", "frac", "edig"}

Reps == {"1", "0", ".", "-", "+", "e", "E", "x"}
Init == w = "" /\ told = FALSE
Grow == ~ told /\ Len(w) < MaxLen /\ \E c \in Reps : w' = w \o c /\ UNCHANGED told
\* the shortest texts that lead to each state
Leads == {"", "+", "2", ".", "2.", ".5", "2.5", "3e", "3e-", "3e-1", "-0.25E+1"}
File(s) == "facet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex " \o s \o " 0 1\nvertex 1 2 0\nendloop\nendfacet\n"
Say(s) == PrintT("CASE " \o ToJson([stl |-> File(s)]))
Tell == /\ ~ told /\ told' = TRUE /\ UNCHANGED w
        /\ Say(w)
        /\ w = "" => \A l \in Leads : \A b \in 0..255 : \A e \in {"", "1", "e1", ".0"} : Say(l \o NByte(b) \o e)
Next == Grow \/ Tell

Agrees == (NClassF64(w) # "none") = Accepts(w)
Zeros == (Accepts(w) /\ Mode(w) = "int" /\ NClassF64(w) = "num") =>
           /\ NParseF64(w \o ".0") = NParseF64(w)
           /\ NParseF64(w \o "e0") = NParseF64(w)
           /\ NParseF64(w \o "0e-1") = NParseF64(w)
=============================================================================
