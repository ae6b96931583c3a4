------------------------------- MODULE MC_Dim -------------------------------
(***************************************************************************)
(* Dimensions between points of a small grid, in many directions and at two   *)
(* scales.  Laws: the label is the distance of the points along the          *)
(* direction; neither which point is first, nor the length or the sense of    *)
(* the direction make a difference; moving all points moves the drawing; the  *)
(* dimension line lies along the direction, and each arrow's tip is an end of *)
(* it; an extension line points at its point and stays clear of it.           *)
(***************************************************************************)
EXTENDS Laws
VARIABLES st, told

Z3 == << 0, 0, 0 >>
Dirs == { << 1, 0, 0 >>, << 0, 1, 0 >>, << -1, 0, 0 >>, << 0, -2, 0 >>, << 3, 4, 0 >>, << -5, 12, 0 >>, << 1, 1, 0 >>, << 0, 0, 1 >>, << 1, 2, 2 >>, << 0, 3, -4 >>, << 20, 1, 0 >>, Z3 }
Ats == { << 0, 0, 0 >>, << 6, 1, 0 >>, << -2, 7, 3 >> }
Froms == { << 0, 0, 0 >>, << -4, 2, 1 >>, << 5, 5, 0 >> }
Tos == { << 1, 0, 0 >>, << 9, -3, 2 >>, << 5, 6, 0 >>, << -4, 2, 8 >> }
Scales == << NInt(4), NInt(30) >>
ScaleText == << "1 : 18", "5 : 12" >>
Mk(a, d, f, t) == Stmt("dim", << Arg("at", a), Arg("dir", d), Arg("from", f), Arg("to", t) >>)
Init == /\ \E a \in Ats, d \in Dirs, f \in Froms, t \in Tos, s \in 1..2 : st = [a |-> a, d |-> d, f |-> f, t |-> t, s |-> s]
        /\ told = FALSE
Text == "dim(at = " \o VText(st.a) \o ", dir = " \o VText(st.d) \o ", from = " \o VText(st.f) \o ", to = " \o VText(st.t) \o ");"
Run(a, d, f, t) == Dim(Scene0(<<>>, Scales[st.s]), Mk(a, d, f, t))
R == Run(st.a, st.d, st.f, st.t)
Next == ~ told /\ told' = TRUE /\ UNCHANGED st
        /\ PrintT("CASE " \o ToJson([stmt |-> Text, scale |-> ScaleText[st.s], bad |-> R.bad # {}, unsure |-> R.unsure]))

Plus(v, w) == << v[1] + w[1], v[2] + w[2], v[3] + w[3] >>
Times(v, k) == << v[1] * k, v[2] * k, v[3] * k >>
Here == << N0, N0 >>
Sc == Scales[st.s]
Dir2 == VXY(VNum(st.d))
Ext(i) == LET exts == SelectSeq(R.ink, LAMBDA x : x.k = "lines" /\ x.tag = "dim.ext") IN exts[i]
Laws ==
  /\ (R.bad # {}) = (st.d = Z3)
  /\ Good(R) =>
     /\ LET along == VDot(VUnit(VNum(st.d)), VSub(VNum(st.t), VNum(st.f))) IN Close(TheLabel(R).x, NAbs(along))
     /\ CloseV(TheLabel(R).at, VMul(VXY(VNum(st.a)), Sc))
     \* the ends of the dimension line
     /\ LET ends == UNION { {s[1], s[2]} : s \in LinesAs(R, "dim.line") }
            tips == { s[1] : s \in LinesAs(R, "dim.arrow") } IN
        /\ \A p \in tips : \E q \in ends : CloseV(p, q)
        /\ \A s \in LinesAs(R, "dim.line") : Close(VCrossZ(VSub(s[2], s[1]), Dir2), N0)
        /\ Cardinality(LinesAs(R, "dim.arrow")) <= 4
     \* extension lines are across, point at their points, and stop 2 points short
     /\ ~ VIsZero(Dir2) =>
          \A i \in 1..2 : \A k \in DOMAIN Ext(i).alts :
            LET s == Ext(i).alts[k][1]
                p == VMul(VXY(VNum(IF i = 1 THEN st.f ELSE st.t)), Sc) IN
            st.d[3] = 0 /\ TheLabel(R).x # N0 => /\ Close(VDot(VSub(s[2], s[1]), Dir2), N0)
                             /\ Close(VDot(VSub(p, s[1]), Dir2), N0)
                             /\ Close(VLen(VSub(p, s[2])), NInt(2))
  /\ SameInk(R, Run(st.a, Times(st.d, 7), st.f, st.t), Here)
  /\ SameInk(R, Run(st.a, Times(st.d, -1), st.f, st.t), Here)
  /\ (~ Good(R) \/ (Settled(R, "dim.ext") /\ TheLabel(R).x # N0)) => SameInk(R, Run(st.a, st.d, st.t, st.f), Here)
  /\ LET m == << 3, -8, 1 >> IN
     SameInk(R, Run(Plus(st.a, m), st.d, Plus(st.f, m), Plus(st.t, m)), VMul(VXY(VNum(m)), Sc))
=============================================================================
