------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* Short texts of everything that means something in a script, in PostScript *)
(* or in the program's own templates.  Laws: a text written with its          *)
(* parentheses and backslashes escaped is what the interpreter shows, and     *)
(* nothing else is executed; written as it is, it's shown exactly when its    *)
(* parentheses balance and it has no backslash; a block has a line where the  *)
(* text has one, 12 points apart; the box of a title fits its text.           *)
(***************************************************************************)
EXTENDS Meaning, Json
CONSTANT MaxLen
VARIABLES w, told
P == INSTANCE Ps

Reps == {"(", ")", BS, "%", "$", LF, CR, DQ, NByte(200), "n", "1", " "}
Init == w = "" /\ told = FALSE
Grow == Len(w) < MaxLen /\ ~ told /\ \E c \in Reps : w' = w \o c /\ UNCHANGED told
Tell == /\ ~ told /\ told' = TRUE /\ UNCHANGED w
        /\ PrintT("CASE " \o ToJson([s |-> w]))
Next == Grow \/ Tell

\* a document that shows s, written as it is
Doc(s) == P!Document("/Courier findfont 8 scalefont setfont\n10 20 moveto (" \o s \o ") show\n0 0 moveto 1 1 lineto stroke\nshowpage\n")
Shows(s, t) == LET d == Doc(s) IN
  /\ d.err = "" /\ ~ d.odd /\ ~ d.rest /\ Len(d.pages) = 1
  /\ LET p == d.pages[1] IN
     /\ p.clean /\ p.lines = << << N0, N0, N1, N1 >> >>
     /\ SelectSeq(p.texts, LAMBDA x : x.s # "") =
          IF t = "" THEN <<>> ELSE << [at |-> << NInt(10), NInt(20) >>, s |-> t, size |-> NInt(8)] >>
Escape(s) == MapChars(s, LAMBDA c : IF c \in {"(", ")", BS} THEN BS \o c ELSE c)
\* every end of a line is read as a newline
Ends(s) == FoldLeft(LAMBDA a, i : LET c == Ch(s, i) IN
                      IF c = CR THEN a \o LF ELSE IF c = LF /\ i > 1 /\ Ch(s, i - 1) = CR THEN a ELSE a \o c, "", Range1(Len(s)))
Escaped == Shows(Escape(w), Ends(w))
Depth(s, i) == FoldLeft(LAMBDA a, j : a + (CASE Ch(s, j) = "(" -> 1 [] Ch(s, j) = ")" -> -1 [] OTHER -> 0), 0, Range1(i))
Balanced(s) == Depth(s, Len(s)) = 0 /\ \A i \in 1..Len(s) : Depth(s, i) >= 0
Raw == Shows(w, Ends(w)) <=> (Balanced(w) /\ ~ \E i \in 1..Len(w) : Ch(w, i) = BS)

Item_(s) == Parse("page { text [" \o Quote(s) \o "] { @[1, -2]; } }").pages[1].items[1]
Count(s, c) == FoldLeft(LAMBDA a, i : IF Ch(s, i) = c THEN a + 1 ELSE a, 0, Range1(Len(s)))
Block == LET b == TextBlock(Item_(w)) IN
  /\ \A i \in DOMAIN b : b[i].s # "" /\ Count(b[i].s, LF) = 0
  /\ Join([i \in DOMAIN b |-> b[i].s], "") = MapChars(w, LAMBDA c : IF c = LF THEN "" ELSE c)
  /\ \A i \in DOMAIN b : b[i].at[1] = NInt(396 + 72)
  /\ \A i \in DOMAIN b : \E k \in 0..Count(w, LF) : b[i].at[2] = NInt(306 - 144 - 12 * k)
  /\ \A i, j \in DOMAIN b : i < j => NLt(b[j].at[2], b[i].at[2])
\* characters are 4.8 points wide
TitleFits == LET t == Title(w)
                 box == t[2].alts[1] IN
  /\ t[1].s = w
  /\ NSub(t[1].at[1], box[1][1][1]) = NInt(3)
  /\ NAdd(t[1].at[1], NMul(NDec("4.8"), NInt(Len(w)))) = NInt(784)
  /\ box[2][2] = << NInt(787), NInt(16) >>
=============================================================================
