---------------------------- MODULE MC_Furniture ----------------------------
(***************************************************************************)
(* Documents of some numbers of pages, named in some ways, with all flags.    *)
(* Laws: the border is a closed frame within the page; title and status line  *)
(* lie within it and, unless the title is very long, apart from each other;    *)
(* pages are told apart by their numbers, and by nothing if not numbered; the  *)
(* content of a page doesn't move its furniture.                              *)
(***************************************************************************)
EXTENDS Meaning, Json
VARIABLES st, told

Counts == {0, 1, 2, 3, 9, 10, 11, 12, 21}
Names == << "", "A", "p(\\", "Bottom view, revision 12", "$0 $1 %", "11111111112222222222333333333344444444445555555555666666666677777777778888888888" >>
Headers == << "", "x", "a\nshowpage", "%%EOF", "(\\", "a\r0 0 moveto 9 9 lineto stroke" >>
Paths == << "in.script", "a b.s", "x\nshowpage", "d/%(", "q\r1 0 div" >>
Items == << "", "text [\"t\"] { }", "text [\"a\\n\\nb\"] { @[-5.4, -4.1]; } text [\"page 1 of 1\"] { @[0, 2]; }" >>
Init == told = FALSE /\ st \in [n : Counts, k : DOMAIN Names, t : BOOLEAN, u : BOOLEAN, q : {0, 1}]
\* which name page i has; some have none
NameOf(s, i) == IF (i + s.q) % 3 = 0 /\ s.q = 1 THEN "" ELSE Names[((s.k + i * s.q) % Len(Names)) + 1]
PageText(s, i) == "page { " \o (IF NameOf(s, i) = "" THEN "" ELSE "name = " \o Quote(NameOf(s, i)) \o "; ") \o Items[((i + s.k) % 3) + 1] \o " }"
Script(s) == Join([i \in 1..s.n |-> PageText(s, i)], "\n")
H(s) == s.n + s.k + 2 * s.q + (IF s.t THEN 3 ELSE 0)
Next == ~ told /\ told' = TRUE /\ UNCHANGED st
        /\ PrintT("CASE " \o ToJson([script |-> Script(st), name |-> Headers[(H(st) % Len(Headers)) + 1], path |-> Paths[(H(st) % Len(Paths)) + 1],
                                     timestamp |-> st.t, number |-> st.u, tick |-> << 1000000000 + 86399 * st.n, 1 + st.k * 61 >>]))

Doc_ == Parse(Script(st))
Time == "2026-11-19 08:14:59"
Status(i) == StatusLine(st.t, st.u, Time, i, st.n)
Parsed == Doc_.err = 0 /\ Len(Doc_.pages) = st.n
          /\ \A i \in 1..st.n : PageName(Doc_.pages[i]) = NameOf(st, i) /\ PageBad(Doc_.pages[i]) = {}
Frame == LET b == Border.alts[1] IN
  /\ \A i \in DOMAIN b : b[i][2] = b[(i % Len(b)) + 1][1]
  /\ \A i \in DOMAIN b : \A p \in {b[i][1], b[i][2]} : NLt(N0, p[1]) /\ NLt(p[1], NInt(792)) /\ NLt(N0, p[2]) /\ NLt(p[2], NInt(612))
\* where a text of 8 points ends
EndOf(x, s) == NAdd(x, NMul(NDec("4.8"), NInt(Len(s))))
Apart_ == \A i \in 1..st.n :
  LET t == Title(NameOf(st, i))
      x == t[2].alts[1][1][1][1] IN
  /\ NLe(EndOf(t[1].at[1], t[1].s), NInt(787)) /\ NLt(x, NInt(787)) /\ NLt(t[1].at[2], NInt(16))
  /\ (Len(NameOf(st, i)) <= 80 => NLt(EndOf(StatusPoint[1], Status(i)), x))
Numbered == Cardinality({ Status(i) : i \in 1..st.n }) = IF st.u \/ st.n = 0 THEN st.n ELSE 1
Says == \A i \in 1..st.n :
  /\ (Status(i) = "") = (~ st.t /\ ~ st.u)
  /\ st.t => StartsWith(Status(i), Time)
  /\ st.u => HasSub(Status(i), " of " \o ToString(st.n))
  /\ (st.t /\ st.u) => Status(i) = Time \o " " \o StatusLine(FALSE, TRUE, "", i, st.n)
Laws == told => Parsed /\ Frame /\ Apart_ /\ Numbered /\ Says
=============================================================================
