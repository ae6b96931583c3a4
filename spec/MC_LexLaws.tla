----------------------------- MODULE MC_LexLaws -----------------------------
(***************************************************************************)
(* What is wanted of the scanner, over all short texts: nothing is lost,     *)
(* tokens are as long as they can be, white space and comments only separate, *)
(* and every text can be quoted.                                             *)
(***************************************************************************)
EXTENDS Lex, TLC, FiniteSets
CONSTANT MaxLen
VARIABLE w

Reps == {"a", "1", ".", "-", DQ, BS, "n", "/", ";", " ", LF, "?"}
Init == w = ""
Next == Len(w) < MaxLen /\ \E c \in Reps : w' = w \o c

T(s) == Tokens(s)
Bad(s) == \E i \in DOMAIN T(s) : T(s)[i].k = "bad"
Bare(ts) == [i \in DOMAIN ts |-> << ts[i].k, ts[i].s >>]
Plain(s) == LET t == Bare(T(s)) IN SubSeq(t, 1, Len(t) - 1)      \* without the end

\* where line l of a text begins, less one
RECURSIVE LineStart(_, _)
LineStart(s, l) == IF l = 1 THEN 0
  ELSE LET b == LineStart(s, l - 1) IN
       CHOOSE i \in (b + 1)..Len(s) : Ch(s, i) = LF /\ \A j \in (b + 1)..(i - 1) : Ch(s, j) # LF
At(s, t) == LineStart(s, t.ln) + t.c + 1

\* Tokens are where they say, in order, with only white space and comments between.
Places == LET ts == T(w) IN
  \A i \in DOMAIN ts : ts[i].k \notin {"eof"} => SubSeq(w, At(w, ts[i]), At(w, ts[i]) + Len(ts[i].s) - 1) = ts[i].s
Order == LET ts == T(w) IN
  \A i \in DOMAIN ts : i > 1 => At(w, ts[i]) >= At(w, ts[i - 1]) + Len(ts[i - 1].s)
Gap(s) == FoldLeft(LAMBDA a, i : LET c == Ch(s, i) IN
                     CASE a = "comment" -> IF c = LF THEN "blank" ELSE a
                       [] a = "slash" -> IF c = "/" THEN "comment" ELSE "no"
                       [] a = "no" -> a
                       [] OTHER -> IF c \in Blank THEN a ELSE IF c = "/" THEN "slash" ELSE "no",
                   "blank", Range1(Len(s))) \in {"blank", "comment"}
Between == LET ts == T(w) IN
  \A i \in DOMAIN ts : LET from == IF i = 1 THEN 1 ELSE At(w, ts[i - 1]) + Len(ts[i - 1].s)
                           to == IF ts[i].k = "eof" THEN Len(w) ELSE At(w, ts[i]) - 1
                       IN Gap(SubSeq(w, from, to))
\* A text that is one token isn't also two.
Longest == \A i \in 1..Len(w) - 1 :
  (Len(T(w)) = 2 /\ T(w)[1].s = w) => Plain(w) = << << T(w)[1].k, w >> >>
\* Between tokens more white space makes no difference.
Separate == \A i \in 0..Len(w) :
  LET a == SubSeq(w, 1, i) b == From(w, i + 1) IN
  (~ Bad(a) /\ ~ Bad(b) /\ (i = Len(w) \/ i = 0 \/ Ch(w, i) \in {" ", LF} \/ Ch(w, i + 1) \in {" ", LF})
   /\ \A j \in 1..Len(a) : Ch(a, j) # "/")
     => Plain(a \o LF \o b) = Plain(a) \o Plain(b) /\ ~ Bad(w) /\ Plain(w) = Plain(a) \o Plain(b)
Quoting == Unquote(Quote(w)) = w /\ Plain(Quote(w)) = << << "str", Quote(w) >> >>
Line1 == \A i \in DOMAIN T(w) : T(w)[i].ln = 1 + Cardinality({ j \in 1..Len(w) : Ch(w, j) = LF /\
                                     j < (IF T(w)[i].k = "eof" THEN Len(w) + 1 ELSE At(w, T(w)[i])) })
=============================================================================
