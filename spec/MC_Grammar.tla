----------------------------- MODULE MC_Grammar -----------------------------
(***************************************************************************)
(* The parser as an automaton: every stack it can have (with functions       *)
(* nested at most Depth deep) is reached by a shortest script, and is tried   *)
(* with every kind of token there is.  If the token fits, a shortest end of   *)
(* the script follows.  Each of these scripts is printed, on one line and     *)
(* with a token a line, for the real program to read.                        *)
(***************************************************************************)
EXTENDS Grammar, TLC, Json
CONSTANT Depth
VARIABLES st, w, told

Kinds == (Terminals \ {"eof"}) \cup {"bad"}
TextOf(k) == CASE k = "id" -> "name" [] k = "num" -> "1" [] k = "str" -> DQ \o "s" \o DQ [] k = "bad" -> "#" [] OTHER -> k
TokOf(k) == [k |-> k, s |-> TextOf(k), ln |-> 1, c |-> 0]

Init == st = ParseInit /\ w = <<>> /\ told = FALSE
Fits(k) == Feed(st, TokOf(k)).err = NoTok
Nested(s) == FoldLeft(LAMBDA a, x : IF x = "!func" THEN a + 1 ELSE a, 0, s)
Grow == ~ told /\ \E k \in Kinds : /\ Fits(k)
                                   /\ st' = Feed(st, TokOf(k)) /\ w' = Append(w, k)
                                   /\ Nested(st'.stk) <= Depth
                                   /\ UNCHANGED told

\* A shortest text for each symbol.
Short(x) ==
  CASE x \in {"PP", "DP", "TP", "DL", "DT", "VN", "ST", "S", "eof"} \/ IsAction(x) -> <<>>
    [] x = "A" -> << "id", "=", "num" >>
    [] x = "V" -> << "num" >>
    [] x = "VB" -> << "]" >>
    [] x = "P" -> << "[", "num", ",", "num", ",", "num", "]" >>
    [] x = "SL" -> << "str" >>
    [] OTHER -> << x >>
Completion(stk) == FoldLeft(LAMBDA a, x : a \o Short(x), <<>>, stk)

\* Every stack can be brought to an end ...
CanEnd == FoldLeft(Feed, st, [i \in DOMAIN Completion(st.stk) |-> TokOf(Completion(st.stk)[i])]).stk = << "eof" >>
          \/ LET c == Completion(st.stk) IN
             Feed(FoldLeft(Feed, st, [i \in DOMAIN c |-> TokOf(c[i])]), [TokOf("bad") EXCEPT !.k = "eof"]).err = NoTok
\* ... and what follows an error doesn't matter.
Final == \A k \in Kinds : LET e == Feed(st, TokOf(k)) IN e.err # NoTok => \A j \in Kinds : Feed(e, TokOf(j)) = e
\* The script that was read is what the scanner and the parser see in its text.
Same == LET r == FoldLeft(Feed, ParseInit, [i \in DOMAIN w |-> Tokens(Join([j \in DOMAIN w |-> TextOf(w[j])], LF))[i]])
        IN r.stk = st.stk /\ r.err = NoTok

Text(ks, sep) == Join([i \in DOMAIN ks |-> TextOf(ks[i])], sep)
Tell == /\ ~ told /\ told' = TRUE /\ UNCHANGED << st, w >>
        /\ \A sep \in {" ", LF} :
             /\ PrintT("CASE " \o ToJson([script |-> Text(w, sep)]))
             /\ PrintT("CASE " \o ToJson([script |-> Text(w \o Completion(st.stk), sep)]))
             /\ \A k \in Kinds :
                  LET n == Feed(st, TokOf(k)) IN
                  PrintT("CASE " \o ToJson([script |->
                    Text(w \o << k >> \o (IF n.err = NoTok THEN Completion(n.stk) ELSE <<>>), sep)]))
Next == Grow \/ Tell
View == << st.stk, told >>
=============================================================================
