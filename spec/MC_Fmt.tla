------------------------------- MODULE MC_Fmt -------------------------------
(***************************************************************************)
(* Formats as an automaton: every kind of state of the reader of formats is  *)
(* reached by a shortest text, and tried with every byte there is and with    *)
(* several texts after it.  Also a law: what printf shows can be read back.   *)
(***************************************************************************)
EXTENDS Fmt, Json, FiniteSets
VARIABLES w, told

StateOf(s) == FoldLeft(LAMBDA a, i : FmtStep(a, Ch(s, i)), FmtInit, Range1(Len(s)))
Kind(s) == LET x == StateOf(s) IN
  << x.m, x.n, x.fl # {}, x.w # "", x.p # "", x.hasp >>
Reps == {"%", "f", "-", "+", " ", "#", "0", "2", ".", "l", "x"}
Init == w = "" /\ told = FALSE
\* a bound on what is put together
Small(s) == Len(s) <= 8 /\ Cardinality(StateOf(s).fl) <= 2
Grow == ~ told /\ \E c \in Reps : /\ StateOf(w \o c).m # "bad" /\ ~ StateOf(w \o c).odd /\ Small(w \o c)
                                  /\ w' = w \o c /\ UNCHANGED told
Ends == << "", "f", "%f", "1f", ".2f", "f%%", "f%.1f", "%%%f", "f%", ".f", "-1.1f" >>
Tell == /\ ~ told /\ told' = TRUE /\ UNCHANGED w
        /\ (w = "" => PrintT("CASE " \o ToJson([fmt |-> "", k |-> ParseFmt("").k])))
        /\ \A b \in 0..255 : \A e \in DOMAIN Ends :
             LET s == w \o NByte(b) \o Ends[e] IN
             PrintT("CASE " \o ToJson([fmt |-> s, k |-> ParseFmt(s).k]))
Next == Grow \/ Tell
View == << Kind(w), told >>

\* What is shown is what was meant.
Values == { NDec("0"), NDec("0.5"), NDec("1.25"), NDec("99.995"), NDec("1234567.8915") }
Reads == LET f == ParseFmt(w) IN
  f.k = "ok" => \A x \in Values : /\ IsLabel(f, x, N0, Render(f, x))
                                  /\ Len(Shown(f, x)) >= f.w
                                  /\ Len(Render(f, x)) = Len(f.pre) + Len(Shown(f, x)) + Len(f.post)
=============================================================================
