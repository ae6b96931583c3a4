------------------------------ MODULE MC_Angle ------------------------------
(***************************************************************************)
(* Angles between directions, or toward points, all around the apex.  Laws:   *)
(* it is rejected exactly when the two look parallel; which one is first and  *)
(* how long a direction is makes no difference; moving everything moves the   *)
(* drawing, and turning it by a quarter turns it.  In the plane of the paper  *)
(* the arc runs counterclockwise over as many degrees as the label says,      *)
(* through the distance of at, and never over more than half a turn; the      *)
(* tips of the arrows are at its ends.                                       *)
(***************************************************************************)
EXTENDS Laws
VARIABLES st, told

Dirs == { << 1, 0, 0 >>, << 2, 1, 0 >>, << 1, 2, 0 >>, << 0, 3, 0 >>, << -1, 1, 0 >>, << -3, 1, 0 >>, << -2, 0, 0 >>, << -2, -1, 0 >>, << 0, -1, 0 >>, << 1, -4, 0 >>, << 1, 1, 2 >>, << 0, 0, 1 >>, << 0, 0, 0 >> }
Apexes == { << 0, 0, 0 >>, << 2, -1, 0 >> }
Ats == { << 5, 4, 0 >>, << -3, 1, 0 >>, << 2, 6, 1 >> }
Forms == {"dd", "pp", "dp"}
Plus(v, w) == << v[1] + w[1], v[2] + w[2], v[3] + w[3] >>
Times(v, k) == << v[1] * k, v[2] * k, v[3] * k >>
Quarter(v) == << -v[2], v[1], v[3] >>
Sc == NInt(7)
\* the side called n (from or to) in the direction v, given as a direction or a point
Side(n, form, apex, v) == IF form = "d" THEN Arg(n \o "_dir", v) ELSE Arg(n \o "_point", Plus(apex, v))
Form(i) == SubSeq(st.form, i, i)
Mk(at, apex, f, t, x) == Stmt("angle", << Arg("at", at), Arg("apex", apex), Side("from", x[1], apex, f), Side("to", x[2], apex, t) >>)
Init == /\ \E a \in Ats, x \in Apexes, f, t \in Dirs, m \in Forms : st = [a |-> a, x |-> x, f |-> f, t |-> t, form |-> m]
        /\ told = FALSE
F2 == << Form(1), Form(2) >>
SideText(n, form, v) == IF form = "d" THEN n \o "_dir = " \o VText(v) ELSE n \o "_point = " \o VText(Plus(st.x, v))
Text == "angle(at = " \o VText(st.a) \o ", apex = " \o VText(st.x) \o ", " \o SideText("from", Form(1), st.f) \o ", " \o SideText("to", Form(2), st.t) \o ");"
Run(at, apex, f, t, x) == Angle(Scene0(<<>>, Sc), Mk(at, apex, f, t, x))
R == Run(st.a, st.x, st.f, st.t, F2)
Next == ~ told /\ told' = TRUE /\ UNCHANGED st
        /\ PrintT("CASE " \o ToJson([stmt |-> Text, scale |-> "7 : 72", bad |-> R.bad # {}, unsure |-> R.unsure]))

CrossZ == st.f[1] * st.t[2] - st.f[2] * st.t[1]
Here == << N0, N0 >>
Flat == st.f[3] = 0 /\ st.t[3] = 0 /\ st.a[3] = 0
SameArc(r1, r2) == Good(r1) => LET a == TheArc(r1) b == TheArc(r2) IN Close(a.r, b.r) /\ Close(a.from, b.from) /\ Close(a.to, b.to)
Turned360(x) == IF NLt(x, N0) THEN NAdd(x, NInt(360)) ELSE x
QuarterP(p) == << NNeg(p[2]), p[1] >>
Laws ==
  /\ ~ R.unsure
  /\ (R.bad # {}) = (CrossZ = 0)
  /\ LET swapped == Run(st.a, st.x, st.t, st.f, << Form(2), Form(1) >>) IN SameInk(R, swapped, Here) /\ SameArc(R, swapped)
  /\ st.form = "dd" => LET long == Run(st.a, st.x, Times(st.f, 3), Times(st.t, 50), F2) IN SameInk(R, long, Here) /\ SameArc(R, long)
  /\ LET m == << 11, -2, 4 >> moved == Run(Plus(st.a, m), Plus(st.x, m), st.f, st.t, F2) IN
     SameInk(R, moved, VMul(VXY(VNum(m)), Sc)) /\ SameArc(R, moved)
  /\ LET q == Run(Quarter(st.a), Quarter(st.x), Quarter(st.f), Quarter(st.t), F2) IN
     /\ (q.bad = {}) = (R.bad = {})
     /\ Good(R) => /\ Close(TheLabel(q).x, TheLabel(R).x) /\ CloseV(TheLabel(q).at, QuarterP(TheLabel(R).at))
                   /\ SameSegs({ << QuarterP(s[1]), QuarterP(s[2]) >> : s \in AllLines(R) }, AllLines(q))
  /\ Good(R) =>
     LET arc == TheArc(R) x == TheLabel(R).x IN
     /\ NLt(N0, x) /\ NLt(x, NInt(180))
     /\ CloseV(arc.c, VMul(VXY(VNum(st.x)), Sc))
     /\ Flat => /\ Close(Turned360(NSub(arc.to, arc.from)), x)
                /\ Close(arc.r, VLen(VSub(TheLabel(R).at, arc.c)))
                \* tips on the arc, at its ends
                /\ \A s \in LinesAs(R, "angle.arrow") :
                     /\ Close(VLen(VSub(s[1], arc.c)), arc.r)
                     /\ \E ang \in {arc.from, arc.to} :
                          CloseV(s[1], VAdd(arc.c, VMul(<< NCosDeg(ang), NSinDeg(ang) >>, arc.r)))
                /\ Cardinality(LinesAs(R, "angle.arrow")) = 4
                \* the extension lines end 4 points beyond the arc
                /\ \A s \in LinesAs(R, "angle.ext") : Close(VLen(VSub(s[2], arc.c)), NAdd(arc.r, NInt(4)))
=============================================================================
