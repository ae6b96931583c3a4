------------------------------- MODULE MC_Lex -------------------------------
(***************************************************************************)
(* The scanner as an automaton: every one of its states is reached by a      *)
(* shortest text, and each is tried with every byte there is, followed by     *)
(* texts that tell the states apart.  The scripts are printed for the real    *)
(* program to read.                                                          *)
(***************************************************************************)
EXTENDS Lex, TLC, Json
VARIABLES w, m, told

ModeOf(s) == FoldLeft(LAMBDA a, i : LexStep(s, a, i), LexInit, Range1(Len(s))).m

\* one character of each kind
Reps == {"a", "1", ".", "-", DQ, BS, "/", ";", " ", LF, "?"}

Init == w = "" /\ m = "start" /\ told = FALSE
Grow == ~ told /\ \E c \in Reps : /\ ModeOf(w \o c) # "bad"
                                  /\ w' = w \o c /\ m' = ModeOf(w \o c) /\ UNCHANGED told

\* where the text goes in a script: before, after
Places == << << "page{name=", ";}" >>, << "page{text[" \o DQ \o DQ \o "]{@[1,", "];}}" >>,
             << "page { text[", "]{} }" >>, << "load x", "=" \o DQ \o "x" \o DQ \o ";" >> >>
Ends == << "", "1", ".5", "x", DQ, "n" \o DQ, "/z" \o LF, LF \o " 2" >>

Tell == /\ ~ told /\ told' = TRUE /\ UNCHANGED << w, m >>
        /\ \A b \in 0..255 : \A p \in DOMAIN Places : \A e \in DOMAIN Ends :
             PrintT("CASE " \o ToJson([script |-> Places[p][1] \o w \o NByte(b) \o Ends[e] \o Places[p][2]]))
Next == Grow \/ Tell

View == << m, told >>      \* the first text that leads to a state stands for all
=============================================================================
