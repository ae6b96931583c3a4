------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Strings.  A string is a TLC string in which each character stands for   *)
(* one byte (Latin-1), so scripts, model files, diagnostics and documents   *)
(* are all looked at byte by byte.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
Range1(n) == [i \in 1..n |-> i]         \* 1..n as something to fold over

LF == "\n"
CR == "\r"
DQ == "\""
BS == "\\"

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
          "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
          "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
WordStart == Lower \cup Upper \cup {"_"}
WordChar  == WordStart \cup Digits

PrintableAscii == {
  " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
  "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
  "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
  "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
  "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" }

\* the value of a short string of digits
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
                 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
                 [] c = "8" -> 8 [] OTHER -> 9
IntVal(s) == FoldLeft(LAMBDA a, i : a * 10 + DigitVal(Ch(s, i)), 0, Range1(Len(s)))

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))      \* the rest of s from position i on
HasSub(s, p) == \E i \in 1 .. (Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

\* The parts of s between the separators (one character); n + 1 parts for n
\* separators.
Split(s, sep) ==
  LET r == FoldLeft(LAMBDA a, i :
                      IF Ch(s, i) = sep
                      THEN [from |-> i + 1, out |-> Append(a.out, SubSeq(s, a.from, i - 1))]
                      ELSE a,
                    [from |-> 1, out |-> <<>>], Range1(Len(s)))
  IN  Append(r.out, From(s, r.from))

NonEmpty(seq) == SelectSeq(seq, LAMBDA x : x # "")

\* The lines of a file: the last one counts also without a newline at its end.
Lines(s) == LET p == Split(s, LF)
            IN  IF p[Len(p)] = "" THEN SubSeq(p, 1, Len(p) - 1) ELSE p

SkipLeft(s, c) ==
  LET n == FoldLeft(LAMBDA a, i : IF a = i - 1 /\ Ch(s, i) = c THEN i ELSE a, 0, Range1(Len(s)))
  IN  From(s, n + 1)
SkipRight(s, c) ==
  LET n == FoldLeft(LAMBDA a, i : IF Ch(s, i) # c THEN i ELSE a, 0, Range1(Len(s)))
  IN  SubSeq(s, 1, n)
Strip(s, c) == SkipLeft(SkipRight(s, c), c)

Join(seq, sep) ==
  FoldLeft(LAMBDA a, i : IF i = 1 THEN seq[i] ELSE a \o sep \o seq[i], "", Range1(Len(seq)))

\* every character of s replaced by f(c)
MapChars(s, f(_)) == FoldLeft(LAMBDA a, i : a \o f(Ch(s, i)), "", Range1(Len(s)))
=============================================================================
