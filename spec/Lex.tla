-------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* The tokens of a script (lexer.l): longest match, reserved words, numbers,*)
(* quoted strings, // comments and white space.                             *)
(*                                                                          *)
(* A token is [k |-> kind, s |-> its text, ln |-> its line, c |-> where it    *)
(* begins in its line, from 0].  The kind is                                 *)
(* the punctuation or reserved word itself, or "id", "num", "str", or "bad"  *)
(* for a character that starts no token or a number that doesn't fit.  The   *)
(* last token is always "eof", unless a "bad" one ended the scan.            *)
(***************************************************************************)
EXTENDS Chars, Num

Punct == {"{", "}", "[", "]", "(", ")", "=", ";", ":", ",", "@"}
Blank == {" ", "\t", LF, CR}
Keywords == {"angle", "dia", "dim", "draw", "load", "page", "rad", "text"}
Escapable == {"'", DQ, "?", BS, "n"}

(***************************************************************************)
(* The scanner is a state machine that reads a character at a time:         *)
(*   m    "start" between tokens, else what is being read                   *)
(*   b    where the current token began                                     *)
(*   ln   the current line, l0 what comes before it                         *)
(*   out  the tokens so far                                                 *)
(***************************************************************************)
LexInit == [m |-> "start", b |-> 1, ln |-> 1, l0 |-> 0, out |-> <<>>]

\* the token that begins at character i
Tok(kind, text, st, i) == [k |-> kind, s |-> text, ln |-> st.ln, c |-> i - 1 - st.l0]

Emit(src, st, i) ==  \* the token from st.b to i, without what follows it
  LET s == SubSeq(src, st.b, i)
      t == CASE st.m = "word" -> Tok(IF s \in Keywords THEN s ELSE "id", s, st, st.b)
             [] st.m \in {"int", "frac"} ->
                  Tok(IF NClassF32(s) = "inf" THEN "bad" ELSE "num", s, st, st.b)
             [] OTHER -> Tok("bad", s, st, st.b)
  IN  [st EXCEPT !.m = IF t.k = "bad" THEN "bad" ELSE "start", !.out = Append(@, t)]

Start(src, st, i, c) ==
  CASE c \in Blank -> IF c = LF THEN [st EXCEPT !.ln = @ + 1, !.l0 = i] ELSE st
    [] c \in Punct -> [st EXCEPT !.out = Append(@, Tok(c, c, st, i))]
    [] c \in WordStart -> [st EXCEPT !.m = "word", !.b = i]
    [] c \in Digits    -> [st EXCEPT !.m = "int", !.b = i]
    [] c \in {"+", "-"} -> [st EXCEPT !.m = "sign", !.b = i]
    [] c = "." -> [st EXCEPT !.m = "dot", !.b = i]
    [] c = DQ  -> [st EXCEPT !.m = "str", !.b = i]
    [] c = "/" -> [st EXCEPT !.m = "slash", !.b = i]
    [] OTHER -> [st EXCEPT !.m = "bad", !.out = Append(@, Tok("bad", c, st, i))]

LexStep(src, st, i) ==
  LET c == Ch(src, i)
      Again(s) == IF s.m = "start" THEN Start(src, s, i, c) ELSE s
      Bad == [st EXCEPT !.m = "bad", !.out = Append(@, Tok("bad", Ch(src, st.b), st, st.b))]
  IN
  CASE st.m = "bad" -> st
    [] st.m = "start" -> Start(src, st, i, c)
    [] st.m = "word" -> IF c \in WordChar THEN st ELSE Again(Emit(src, st, i - 1))
    [] st.m = "int" -> CASE c \in Digits -> st
                         [] c = "." -> [st EXCEPT !.m = "frac"]
                         [] OTHER -> Again(Emit(src, st, i - 1))
    [] st.m = "frac" -> IF c \in Digits THEN st ELSE Again(Emit(src, st, i - 1))
    [] st.m = "sign" -> CASE c \in Digits -> [st EXCEPT !.m = "int"]
                          [] c = "." -> [st EXCEPT !.m = "dot"]
                          [] OTHER -> Bad
    [] st.m = "dot" -> IF c \in Digits THEN [st EXCEPT !.m = "frac"] ELSE Bad
    [] st.m = "str" -> CASE c = DQ -> [st EXCEPT !.m = "start",
                                          !.out = Append(@, Tok("str", SubSeq(src, st.b, i), st, st.b))]
                         [] c = BS -> [st EXCEPT !.m = "esc"]
                         [] c = LF -> Bad
                         [] OTHER -> st
    [] st.m = "esc" -> IF c \in Escapable THEN [st EXCEPT !.m = "str"] ELSE Bad
    [] st.m = "slash" -> IF c = "/" THEN [st EXCEPT !.m = "comment"] ELSE Bad
    [] st.m = "comment" -> IF c = LF THEN [st EXCEPT !.m = "start", !.ln = @ + 1, !.l0 = i] ELSE st

Tokens(src) ==
  LET n  == Len(src)
      st == FoldLeft(LAMBDA a, i : LexStep(src, a, i), LexInit, Range1(n))
      fin == CASE st.m \in {"bad", "start", "comment"} -> st
               [] st.m \in {"word", "int", "frac"} -> Emit(src, st, n)
               [] OTHER -> [st EXCEPT !.m = "bad", !.out = Append(@, Tok("bad", Ch(src, st.b), st, st.b))]
  IN  IF fin.m = "bad" THEN fin.out ELSE Append(fin.out, Tok("eof", "", st, n + 1))

\* What a quoted string says.
Unquote(q) ==
  FoldLeft(LAMBDA a, i :
             LET c == Ch(q, i) IN
             CASE a.esc -> [esc |-> FALSE, s |-> a.s \o (IF c = "n" THEN LF ELSE c)]
               [] c = BS -> [a EXCEPT !.esc = TRUE]
               [] OTHER -> [a EXCEPT !.s = @ \o c],
           [esc |-> FALSE, s |-> ""], [i \in 1..(Len(q) - 2) |-> i + 1]).s
\* A string written as a token that says s (for the round trip in MC_Lex).
Quote(s) == DQ \o MapChars(s, LAMBDA c : CASE c = LF -> "\\n" [] c \in {DQ, BS} -> BS \o c
                                           [] OTHER -> c) \o DQ
=============================================================================
