------------------------------- MODULE MC_View -------------------------------
(***************************************************************************)
(* Views: the named ones, and all pairs of angles on a grid.  Laws: a view is *)
(* a rotation (its rows are orthonormal and it isn't mirrored); a named view  *)
(* is given by angles, too; whole turns make no difference; the first angle   *)
(* turns in the plane of the paper, the second one keeps the x axis of the    *)
(* paper where it is.                                                        *)
(***************************************************************************)
EXTENDS View, TLC, Json
VARIABLES v, told
CONSTANT Step             \* of the angles, in degrees

Grid == { Step * i : i \in (-180 \div Step)..(360 \div Step) }
None == [k |-> "none"]
Named(n) == [k |-> "name", n |-> n]
Ang(a, b) == [k |-> "angles", a |-> a, b |-> b]
\* odd ones
Odd == { << "12.5", "33.25" >>, << "-0.5", "89.5" >>, << "359", "1" >>, << "720", "30" >>, << "-400", "20" >>, << "1e2", "-0.1e3" >>, << "90.0", "-90" >> }
Text(x) == ToString(x)
Views == {None} \cup { Named(n) : n \in ViewNames } \cup { Ang(Text(a), Text(b)) : << a, b >> \in Grid \X Grid } \cup { Ang(o[1], o[2]) : o \in Odd }

Matrix(x) == CASE x.k = "none" -> DefaultView [] x.k = "name" -> NamedView(x.n) [] OTHER -> AngleView(<< NDec(x.a), NDec(x.b) >>)
Init == v \in Views /\ told = FALSE

Sets(x) == CASE x.k = "none" -> "" [] x.k = "name" -> "view = \"" \o x.n \o "\"; " [] OTHER -> "view = [" \o x.a \o ", " \o x.b \o "]; "
\* a solid without symmetry, with a dimension along, across and at an angle
Script == "load m = \"m.stl\";\npage { draw m { " \o Sets(v) \o "scale = 1 : 3;\n"
          \o "dim(at = [1, 2, 4], dir = [1, 2, 3], from = [0, 5, 0], to = [1, 1, 7]);\n"
          \o "angle(at = [2, 1, 1], apex = [0, 0, 0], from_dir = [3, 1, 0.5], to_point = near([1, 1, 7]));\n } }\n"
Tetra == "facet normal 0 0 -1\nvertex 0 0 0\nvertex 0 5 0\nvertex 3 0 0\nendfacet\nfacet normal 0 -7 1\nvertex 0 0 0\nvertex 3 0 0\nvertex 1 1 7\nendfacet\n"
         \o "facet normal -7 0 1\nvertex 0 0 0\nvertex 1 1 7\nvertex 0 5 0\nendfacet\nfacet normal 35 21 7\nvertex 3 0 0\nvertex 0 5 0\nvertex 1 1 7\nendfacet\n"
Next == ~ told /\ told' = TRUE /\ UNCHANGED v
        /\ PrintT("CASE " \o ToJson([script |-> Script, files |-> << << "m.stl", Tetra >> >>]))

Close(x, y) == NLe(NAbs(NSub(x, y)), NDec("1e-14"))
CloseV(a, b) == \A i \in DOMAIN a : Close(a[i], b[i])
Same(a, b) == \A i \in 1..3 : CloseV(a[i], b[i])
M == Matrix(v)
Rotation == /\ \A i, j \in 1..3 : Close(VDot(M[i], M[j]), IF i = j THEN N1 ELSE N0)
            /\ CloseV(VCross(M[1], M[2]), M[3])
Alias == << << "X+", "-90", "90" >>, << "X-", "90", "90" >>, << "Y+", "180", "90" >>, << "Y-", "0", "90" >>, << "Z+", "0", "0" >>, << "Z-", "0", "180" >> >>
ByAngles == v.k = "name" => \E i \in DOMAIN Alias : Alias[i][1] = v.n /\ Same(M, AngleView(<< NDec(Alias[i][2]), NDec(Alias[i][3]) >>))
WholeTurns == v.k = "angles" =>
  Same(M, AngleView(<< NAdd(NDec(v.a), NInt(360)), NSub(NDec(v.b), NInt(720)) >>))
\* the sides a named view shows
Sides == /\ v = Named("X+") => M[1] = AxisZ /\ M[2] = AxisX /\ M[3] = AxisY
         /\ v = Named("Z-") => M[1] = AxisX /\ M[2] = Neg(AxisY) /\ M[3] = Neg(AxisZ)
\* a turn alone leaves the z axis toward the viewer, a tilt alone the x axis to the right
Alone == v.k = "angles" => /\ NDec(v.b) = N0 => CloseV(M[3], AxisZ)
                           /\ NDec(v.a) = N0 => CloseV(M[1], AxisX)
\* a quarter turn to the left, and one that shows what was at the top
Quarter == /\ CloseV(VApply(AxisX, AngleView(<< NInt(90), N0 >>)), AxisY)
           /\ CloseV(VApply(AxisZ, AngleView(<< N0, NInt(90) >>)), AxisY)
=============================================================================
