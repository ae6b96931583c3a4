-------------------------------- MODULE View --------------------------------
(***************************************************************************)
(* Views.  A view is a matrix that a point (a row vector) is multiplied by;  *)
(* x then points right on the paper, y up, and z at the viewer.              *)
(***************************************************************************)
EXTENDS Num, Sequences

P1 == N1
M1 == NNeg(N1)

\* A named view is given by which model axis points right, up and at the
\* viewer: Named("X+") looks at the side that faces +x.
AxisX == << N1, N0, N0 >>
AxisY == << N0, N1, N0 >>
AxisZ == << N0, N0, N1 >>
Neg(a) == [i \in DOMAIN a |-> NNeg(a[i])]

ViewNames == {"X+", "X-", "Y+", "Y-", "Z+", "Z-"}
\* [right, up, toward the viewer] in model coordinates
ViewAxes(name) ==
  CASE name = "X+" -> << AxisY, AxisZ, AxisX >>
    [] name = "X-" -> << Neg(AxisY), AxisZ, Neg(AxisX) >>
    [] name = "Y+" -> << Neg(AxisX), AxisZ, AxisY >>
    [] name = "Y-" -> << AxisX, AxisZ, Neg(AxisY) >>
    [] name = "Z+" -> << AxisX, AxisY, AxisZ >>
    [] name = "Z-" -> << AxisX, Neg(AxisY), Neg(AxisZ) >>

\* The matrix whose columns are those three axes.
ByAxes(c) == [i \in 1..3 |-> [j \in 1..3 |-> c[j][i]]]
NamedView(name) == ByAxes(ViewAxes(name))
DefaultView == NamedView("Z+")

MatMul(a, b) == [i \in 1..3 |-> VApply(a[i], b)]
\* Turn by a degrees in the plane of the paper (counterclockwise) ...
Turn(a) == << << NCosDeg(a), NSinDeg(a), N0 >>,
              << NNeg(NSinDeg(a)), NCosDeg(a), N0 >>,
              << N0, N0, N1 >> >>
\* ... and then tilt by b degrees about the x axis of the paper.
Tilt(b) == << << N1, N0, N0 >>,
              << N0, NCosDeg(b), NNeg(NSinDeg(b)) >>,
              << N0, NSinDeg(b), NCosDeg(b) >> >>
AngleView(ab) == MatMul(Turn(ab[1]), Tilt(ab[2]))
=============================================================================
