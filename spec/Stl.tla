-------------------------------- MODULE Stl --------------------------------
(***************************************************************************)
(* Reading an ASCII STL file (STLFile::Make): a state machine that takes a   *)
(* line at a time.  The result is a sequence of facets [n |-> the stored     *)
(* normal, v |-> its three vertices], or the number of the bad line.         *)
(*                                                                          *)
(* unsure is set where the specification takes no side: numbers beyond the   *)
(* range of a double, and names in a solid line that aren't plain ASCII.     *)
(***************************************************************************)
EXTENDS Chars, Num

\* What a line says.
Fields(s) == NonEmpty(Split(s, " "))
NumField(s) == NClassF64(s)

\* bytes that every encoding agrees on
IsAscii(s) == \A i \in 1..Len(s) : Ch(s, i) \in PrintableAscii

Triple(rest) ==
  LET f == Fields(rest)
      c == [i \in DOMAIN f |-> NumField(f[i])]
  IN  IF Len(f) # 3 \/ \E i \in DOMAIN f : c[i] = "none" THEN [k |-> "bad"]
      ELSE IF \E i \in DOMAIN f : c[i] # "num" \/ Len(f[i]) > 100 THEN [k |-> "unsure"]
      ELSE [k |-> "ok", p |-> [i \in 1..3 |-> NParseF64(f[i])]]

LineOf(line) ==
  LET s == Strip(line, " ") IN
  CASE s \in {"solid", "endsolid"} -> [k |-> "solid"]
    [] StartsWith(s, "solid ") \/ StartsWith(s, "endsolid ") ->
         [k |-> IF IsAscii(s) THEN "solid" ELSE "unsure"]
    [] s \in {"outer loop", "endloop"} -> [k |-> "loop"]
    [] s = "endfacet" -> [k |-> "endfacet"]
    [] StartsWith(s, "facet normal ") ->
         LET t == Triple(From(s, 14)) IN
         IF t.k = "ok" THEN [k |-> "facet", p |-> t.p] ELSE t
    [] StartsWith(s, "vertex ") ->
         LET t == Triple(From(s, 8)) IN
         IF t.k = "ok" THEN [k |-> "vertex", p |-> t.p] ELSE t
    [] OTHER -> [k |-> "bad"]

StlInit == [ln |-> 0, n |-> << N0, N0, N0 >>, pts |-> <<>>, out |-> <<>>, bad |-> 0, unsure |-> FALSE]

StlStep(st, line) ==
  IF st.bad # 0 THEN st
  ELSE LET l == LineOf(line)
           s == [st EXCEPT !.ln = @ + 1] IN
       CASE l.k \in {"solid", "loop"} -> s
         [] l.k = "facet" -> [s EXCEPT !.n = l.p, !.pts = <<>>]
         [] l.k = "vertex" -> [s EXCEPT !.pts = Append(@, l.p)]
         [] l.k = "endfacet" ->
              IF VIsZero(s.n) THEN s            \* no normal: skipped
              ELSE IF Len(s.pts) # 3 THEN [s EXCEPT !.bad = s.ln]
              ELSE [s EXCEPT !.out = Append(@, [n |-> s.n, v |-> s.pts]),
                             !.n = << N0, N0, N0 >>, !.pts = <<>>]
         [] l.k = "unsure" -> [s EXCEPT !.unsure = TRUE]
         [] OTHER -> [s EXCEPT !.bad = s.ln]

ReadStl(bytes) == FoldLeft(StlStep, StlInit, Lines(bytes))
=============================================================================
