------------------------------- MODULE ErrMsg -------------------------------
(***************************************************************************)
(* The reporter of syntax errors (parser_support.cc): what a sequence of     *)
(* calls writes to stderr.  A call is                                         *)
(*   [file |-> <<name>> or <<>> if unknown, bl, bc, el, ec, text]             *)
(***************************************************************************)
EXTENDS Chars

Where(c) ==
  IF c.bl = c.el
  THEN ToString(c.bl) \o ":[" \o ToString(c.bc) \o "," \o ToString(c.ec) \o "]"
  ELSE ToString(c.bl) \o ":" \o ToString(c.bc) \o " to " \o ToString(c.el) \o ":" \o ToString(c.ec)

Message(c) ==
  "error " \o (IF c.file = <<>> THEN "??" ELSE c.file[1]) \o ":" \o Where(c) \o ": " \o c.text \o LF

VARIABLES run,   \* which sequence of calls
          todo,  \* calls to make
          log    \* stderr

CONSTANT Runs    \* the sequences of calls

Init == run \in DOMAIN Runs /\ todo = Runs[run] /\ log = ""
Report == /\ todo # <<>>
          /\ log' = log \o Message(Head(todo))
          /\ todo' = Tail(todo)
          /\ UNCHANGED run

\* Every message is a line of its own as long as name and text have none.
Plain(s) == ~ \E i \in 1..Len(s) : Ch(s, i) = LF
OneLineEach ==
  LET done == SubSeq(Runs[run], 1, Len(Runs[run]) - Len(todo)) IN
  (\A i \in DOMAIN done : Plain(done[i].text) /\ (done[i].file = <<>> \/ Plain(done[i].file[1])))
    => Len(Lines(log)) = Len(done)
=============================================================================
