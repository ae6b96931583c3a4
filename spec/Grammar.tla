------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The grammar of scripts (parser.y) as a predictive parser: a stack of     *)
(* symbols, replaced by the right-hand sides that Prod gives for the next   *)
(* token.  Symbols beginning with "!" build the tree on a stack of values.  *)
(* The first token that fits nothing is where the script is wrong.          *)
(*                                                                          *)
(*   document = { "load" id "=" str ";"  |  "page" "{" {part} "}" }          *)
(*   part  = arg ";" | "draw" id "{" {dpart} "}"                             *)
(*         | "text" "[" strs "]" "{" {arg ";"} "}"                           *)
(*   dpart = arg ";" | ("angle"|"dia"|"dim"|"rad") "(" [arg {"," arg}] ")" ";"*)
(*   arg   = id "=" value | "@" "[" num "," num "]"                          *)
(*   value = strs | num | num ":" num | "[" num "," num "]" | point          *)
(*   point = "[" num "," num "," num "]" | id "(" point ")"                  *)
(*   strs  = str {str}                                                       *)
(***************************************************************************)
EXTENDS Lex

DimKinds == {"angle", "dia", "dim", "rad"}
Terminals == Punct \cup Keywords \cup {"id", "num", "str", "eof"}
NonTerminals == {"S", "PP", "DP", "TP", "DL", "DT", "A", "V", "VN", "VB", "P", "SL", "ST"}

None == << "none" >>

\* The right-hand side for non-terminal n when the next token is of kind la.
Prod(n, la) ==
  CASE n = "S" /\ la = "load" -> << "load", "id", "=", "str", ";", "!load", "S" >>
    [] n = "S" /\ la = "page" -> << "page", "{", "!nil", "!nil", "PP", "}", "!page", "S" >>
    [] n = "S" /\ la = "eof"  -> << "eof" >>
    [] n = "PP" /\ la \in {"id", "@"} -> << "A", ";", "!add2", "PP" >>
    [] n = "PP" /\ la = "draw" ->
         << "draw", "id", "{", "!nil", "!nil", "DP", "}", "!draw", "PP" >>
    [] n = "PP" /\ la = "text" ->
         << "text", "[", "!nil", "SL", "]", "{", "!nil", "TP", "}", "!text", "PP" >>
    [] n = "PP" /\ la = "}" -> <<>>
    [] n = "DP" /\ la \in {"id", "@"} -> << "A", ";", "!add2", "DP" >>
    [] n = "DP" /\ la \in DimKinds -> << la, "(", "!nil", "DL", ")", ";", "!dim", "DP" >>
    [] n = "DP" /\ la = "}" -> <<>>
    [] n = "TP" /\ la \in {"id", "@"} -> << "A", ";", "!add", "TP" >>
    [] n = "TP" /\ la = "}" -> <<>>
    [] n = "DL" /\ la \in {"id", "@"} -> << "A", "!add", "DT" >>
    [] n = "DL" /\ la = ")" -> <<>>
    [] n = "DT" /\ la = "," -> << ",", "A", "!add", "DT" >>
    [] n = "DT" /\ la = ")" -> <<>>
    [] n = "A" /\ la = "id" -> << "id", "=", "V", "!arg" >>
    [] n = "A" /\ la = "@"  -> << "@", "[", "num", ",", "num", "]", "!loc", "!arg" >>
    [] n = "V" /\ la = "str" -> << "!nil", "SL", "!str" >>
    [] n = "V" /\ la = "num" -> << "num", "VN" >>
    [] n = "V" /\ la = "["   -> << "[", "num", ",", "num", "VB" >>
    [] n = "V" /\ la = "id"  -> << "P", "!pt" >>
    [] n = "VN" /\ la = ":" -> << ":", "num", "!scale" >>
    [] n = "VN" -> << "!num" >>
    [] n = "VB" /\ la = "]" -> << "]", "!loc" >>
    [] n = "VB" /\ la = "," -> << ",", "num", "]", "!xyz", "!pt" >>
    [] n = "P" /\ la = "[" -> << "[", "num", ",", "num", ",", "num", "]", "!xyz" >>
    [] n = "P" /\ la = "id" -> << "id", "(", "P", ")", "!func" >>
    [] n = "SL" /\ la = "str" -> << "str", "!add", "ST" >>
    [] n = "ST" /\ la = "str" -> << "str", "!add", "ST" >>
    [] n = "ST" -> <<>>
    [] OTHER -> None

\* Tokens that go on the stack of values (others carry no information).
Valued == {"id", "num", "str", "load", "page", "text", "@"} \cup DimKinds

Scalar(tok) == NParseF32(tok.s)
Whole(x) == NLt(NAbs(x), NDec("1000000000")) /\ NIsInt(x)

\* The value stack after the action; <<>> followed by a line means an error.
Build(act, v) ==
  LET n == Len(v)
      Top(k) == v[n - k]                      \* k-th from the top, from 0
      Rest(k) == SubSeq(v, 1, n - k)
  IN
  CASE act = "!nil" -> Append(v, <<>>)
    [] act = "!add" -> Append(Rest(2), Append(Top(1), Top(0)))
    [] act = "!add2" -> Rest(3) \o << Append(Top(2), Top(0)), Top(1) >>
    [] act = "!load" -> Append(Rest(3), [k |-> "load", ln |-> Top(2).ln, name |-> Top(1).s,
                                         file |-> Unquote(Top(0).s)])
    [] act = "!page" -> Append(Rest(3), [k |-> "page", ln |-> Top(2).ln, args |-> Top(1),
                                         items |-> Top(0)])
    [] act = "!draw" -> Append(Rest(4), Append(Top(3),
                          [k |-> "draw", ln |-> Top(2).ln, name |-> Top(2).s,
                           args |-> Top(1), dims |-> Top(0)]))
    [] act = "!text" -> Append(Rest(4), Append(Top(3),
                          [k |-> "text", ln |-> Top(2).ln,
                           str |-> Join([i \in DOMAIN Top(1) |-> Unquote(Top(1)[i].s)], ""),
                           args |-> Top(0)]))
    [] act = "!dim" -> Append(Rest(3), Append(Top(2), [k |-> Top(1).k, ln |-> Top(1).ln,
                                                       args |-> Top(0)]))
    [] act = "!arg" -> Append(Rest(2), [name |-> Top(1).s, ln |-> Top(1).ln, v |-> Top(0)])
    [] act = "!loc" -> Append(Rest(2), [t |-> "loc", xy |-> << Scalar(Top(1)), Scalar(Top(0)) >>])
    [] act = "!num" -> Append(Rest(1), [t |-> "num"])
    [] act = "!str" -> Append(Rest(1), [t |-> "str",
                          s |-> Join([i \in DOMAIN Top(0) |-> Unquote(Top(0)[i].s)], "")])
    [] act = "!scale" -> Append(Rest(2), [t |-> "scale", a |-> Scalar(Top(1)), b |-> Scalar(Top(0))])
    [] act = "!xyz" -> Append(Rest(3), [f |-> "",
                          p |-> << Scalar(Top(2)), Scalar(Top(1)), Scalar(Top(0)) >>])
    [] act = "!func" -> Append(Rest(2), [f |-> Top(1).s, ln |-> Top(1).ln, arg |-> Top(0)])
    [] act = "!pt" -> Append(Rest(1), [t |-> "pt", p |-> Top(0)])

NoTok == [k |-> "none", s |-> "", ln |-> 0, c |-> 0]

\* A scale has to consist of whole numbers; this is checked while parsing.
ActionError(act, v) ==
  IF act = "!scale"
  THEN LET a == v[Len(v) - 1] b == v[Len(v)]
       IN  IF Whole(Scalar(a)) /\ Whole(Scalar(b)) THEN NoTok ELSE a
  ELSE NoTok

IsAction(sym) == Ch(sym, 1) = "!"

\* Actions happen as soon as they are on top of the stack.
RECURSIVE Settle(_)
Settle(st) ==
  IF st.err # NoTok \/ st.stk = <<>> THEN st
  ELSE LET top == Head(st.stk) IN
       IF ~ IsAction(top) THEN st
       ELSE LET e == ActionError(top, st.vals) IN
            IF e # NoTok THEN [st EXCEPT !.err = e]
            ELSE Settle([st EXCEPT !.stk = Tail(@), !.vals = Build(top, @)])

RECURSIVE Feed(_, _)
Feed(st, tok) ==
  IF st.err # NoTok THEN st
  ELSE LET top == Head(st.stk) IN
       IF tok.k = "bad" THEN [st EXCEPT !.err = tok]
       ELSE IF top \in NonTerminals
       THEN LET rhs == Prod(top, tok.k) IN
            IF rhs = None THEN [st EXCEPT !.err = tok]
            ELSE Feed(Settle([st EXCEPT !.stk = rhs \o Tail(@)]), tok)
       ELSE IF top = tok.k
            THEN Settle([st EXCEPT !.stk = Tail(@),
                                   !.vals = IF top \in Valued THEN Append(@, tok) ELSE @])
            ELSE [st EXCEPT !.err = tok]

ParseInit == [stk |-> << "S" >>, vals |-> <<>>, err |-> NoTok]

\* err = 0 and the statements of the script, or the line of the syntax error
\* and the token that doesn't fit.
Parse(src) ==
  LET st == FoldLeft(Feed, ParseInit, Tokens(src))
      good == st.err = NoTok
  IN  [err |-> st.err.ln, tok |-> st.err,
       loads |-> IF ~ good THEN <<>> ELSE SelectSeq(st.vals, LAMBDA x : x.k = "load"),
       pages |-> IF ~ good THEN <<>> ELSE SelectSeq(st.vals, LAMBDA x : x.k = "page")]
=============================================================================
