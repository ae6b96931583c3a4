------------------------------ MODULE MC_Circle ------------------------------
(***************************************************************************)
(* Circles: polygons with corners among twelve points of a circle (with       *)
(* integer coordinates, unevenly spaced), alone or with other corners around,  *)
(* sought from several places.  Laws: with all corners on the circle it is    *)
(* found from everywhere; what is found fits the points best (the sums that   *)
(* have to vanish do); the diameter is twice the radius; moving everything    *)
(* moves the drawing; quarter turns and mirroring make no difference to the   *)
(* circle that is found; center() is where dia and rad have it.               *)
(***************************************************************************)
EXTENDS Laws
VARIABLES st, told
CONSTANTS MostCorners, Thin

Ring == << << 5, 0, 0 >>, << 4, 3, 0 >>, << 3, 4, 0 >>, << 0, 5, 0 >>, << -3, 4, 0 >>, << -4, 3, 0 >>, << -5, 0, 0 >>,
           << -4, -3, 0 >>, << -3, -4, 0 >>, << 0, -5, 0 >>, << 3, -4, 0 >>, << 4, -3, 0 >> >>
Seqs == { q \in UNION { [1..n -> 1..12] : n \in 3..MostCorners } : \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1] }
\* what else is there: nothing, something far away, something in the neighborhood of the rim, something inside
Others == << <<>>, << << 40, 1, 0 >>, << 44, 1, 0 >>, << 40, 7, 2 >> >>, << << 6, 1, 1 >>, << 7, -2, 0 >>, << 9, 2, 0 >> >>,
             << << 1, 0, 3 >>, << 2, 0, 3 >>, << 1, 2, 3 >> >> >>
Targets == { << 0, 0, 0 >>, << 1, -1, 0 >>, << 7, 2, 5 >>, << -3, 30, 0 >> }
\* not all combinations of them
Sum_(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Init == /\ \E q \in Seqs, t \in Targets, o \in DOMAIN Others :
             /\ Sum_(q) % 4 = o - 1 \/ Len(q) = 3
             /\ (Sum_(q) + 2 * o + (t[1] % 4)) % Thin = 0
             /\ st = [q |-> q, t |-> t, o |-> o]
        /\ told = FALSE
Polygon(q) == [i \in DOMAIN q |-> Ring[q[i]]]
Corners(q, o) == Polygon(q) \o Others[o]
Vs(pts) == Sorted({ VNum(pts[i]) : i \in DOMAIN pts })
Sc == NInt(3)
At == << 8, 6, 0 >>
Dir == << 2, -1, 0 >>
Run(kind, pts, at, dir, t) == Circle(Scene0(Vs(pts), Sc), Stmt(kind, << Arg("at", at), Arg("dir", dir), Arg("center", t) >>))
All == Corners(st.q, st.o)
R == Run("dia", All, At, Dir, st.t)
Rad == Run("rad", All, At, Dir, st.t)
V3(a) == ToString(a[1]) \o " " \o ToString(a[2]) \o " " \o ToString(a[3])
Tri3(a, b, c) == "facet normal 0 0 1\nvertex " \o V3(a) \o "\nvertex " \o V3(b) \o "\nvertex " \o V3(c) \o "\nendfacet\n"
Stl_ == LET p == Polygon(st.q) o == Others[st.o] IN
        FoldLeft(LAMBDA a, i : a \o Tri3(p[1], p[i], p[i + 1]), "", SubSeq([i \in DOMAIN p |-> i], 2, Len(p) - 1))
        \o (IF o = <<>> THEN "" ELSE Tri3(o[1], o[2], o[3]))
Args(k) == k \o "(at = " \o VText(At) \o ", dir = " \o VText(Dir) \o ", center = " \o VText(st.t) \o ");"
Text == Args("dia") \o "\n" \o Args("rad") \o "\ndim(at = [9, -9, 0], dir = [1, 0, 0], from = [-20, 0, 0], to = center(" \o VText(st.t) \o "));\n"
        \o "dim(at = [-9, 9, 0], dir = [0, 1, 0], from = [0, -20, 0], to = center(" \o VText(st.t) \o "));"
Next == ~ told /\ told' = TRUE /\ UNCHANGED st
        /\ PrintT("CASE " \o ToJson([stl |-> Stl_, stmt |-> Text, bad |-> R.bad # {}, unsure |-> R.unsure]))

Found(pts, t) == CircleAt(Vs(pts), VNum(t), FALSE)
C == Found(All, st.t)
Map(pts, f(_)) == [i \in DOMAIN pts |-> f(pts[i])]
Quarter(v) == << -v[2], v[1], v[3] >>
Mirror(v) == << v[2], v[1], v[3] >>
Plus(v, w) == << v[1] + w[1], v[2] + w[2], v[3] + w[3] >>
Used == LET sel == Closest(Vs(All), 3, VNum(st.t))
            first == Fit([i \in DOMAIN sel |-> sel[i].p]) IN
        Between(Vs(All), NMul(NSqrt(first.r2), NDec(".9")), NMul(NSqrt(first.r2), NDec("1.1")), first.c)
Err(p) == NSub(Dist2(p, C.c), C.r2)
\* Which of several points at the same distance are taken depends on the order of their coordinates.
Ties == LET d == ByDist(Vs(All), VNum(st.t)) IN \E i \in 1..(Len(d) - 1) : d[i].d = d[i + 1].d
Sure == C.ok /\ ~ C.unsure
Found_ ==
  /\ (R.bad = {}) = C.ok /\ (Rad.bad = {}) = C.ok
  /\ st.o = 1 => Sure /\ CloseV(C.c, << N0, N0 >>) /\ Close(C.r2, NInt(25))
  \* something far away doesn't matter when the target is near
  /\ st.o = 2 /\ st.t[1] < 2 /\ st.t[2] < 30 => CloseV(C.c, << N0, N0 >>) /\ Close(C.r2, NInt(25))
BestFit == Sure =>
  /\ Close(Sum(Used, LAMBDA p : Err(p)), N0)
  /\ Close(Sum(Used, LAMBDA p : NMul(Err(p), p[1])), N0)
  /\ Close(Sum(Used, LAMBDA p : NMul(Err(p), p[2])), N0)
Shows == Sure =>
  /\ Close(TheLabel(R).x, NMul(TheLabel(Rad).x, NInt(2)))
  /\ Close(NMul(TheLabel(Rad).x, TheLabel(Rad).x), C.r2)
  /\ LET e == Eval([f |-> "center", ln |-> 1, arg |-> [f |-> "", ln |-> 1, p |-> VNum(st.t)]], Vs(All), Scene0(<<>>, Sc).m) IN
     e.err = "" /\ VXY(e.p) = C.c /\ e.p[3] = N0
  \* the arrows touch the circle
  /\ \A s \in LinesAs(R, "circle.arrow") : Close(VLen(VSub(s[1], VMul(C.c, Sc))), NMul(TheLabel(Rad).x, Sc))
Moves == Sure =>
  LET m == << 7, 100, -2 >> moved == Run("dia", Map(All, LAMBDA p : Plus(p, m)), Plus(At, m), Dir, Plus(st.t, m)) IN
  SameInk(R, moved, VMul(VXY(VNum(m)), Sc))
Turns == Sure /\ ~ Ties =>
  /\ LET q == Found(Map(All, Quarter), Quarter(st.t)) IN q.ok /\ CloseV(q.c, << NNeg(C.c[2]), C.c[1] >>)
  /\ LET q == Found(Map(All, Mirror), Mirror(st.t)) IN q.ok /\ CloseV(q.c, << C.c[2], C.c[1] >>)
=============================================================================
