------------------------------- MODULE MC_Near -------------------------------
(***************************************************************************)
(* near(): one or two facets between seven points, of which two pairs are at  *)
(* the same place on paper, seen or not, and places to look from: at points,   *)
(* above them, in the middle between them, and far away.  Laws: what it       *)
(* gives is a vertex that is seen, moved to the plane of the paper unless      *)
(* that is just where one looked; no other is nearer; to look again from there *)
(* finds the same; the order of the facets and what isn't seen make no        *)
(* difference.                                                               *)
(***************************************************************************)
EXTENDS Laws
VARIABLES st, told
CONSTANT Most

Pos == << << 0, 0, 0 >>, << 4, 0, 0 >>, << 4, 0, 3 >>, << 0, 4, 1 >>, << 0, 4, -2 >>, << 4, 4, 2 >>, << -3, 1, 0 >> >>
Triples == { t \in (1..7) \X (1..7) \X (1..7) : t[1] < t[2] /\ t[2] < t[3] }
Facets == Triples \X {1, -1}
V(f) == << VNum(Pos[f[1][1]]), VNum(Pos[f[1][2]]), VNum(Pos[f[1][3]]) >>
Out(f) == VMul(Cross3(V(f)), NInt(f[2]))
Facet(f) == [n |-> Out(f), v |-> V(f)]
Rank(f) == 1000 * f[1][1] + 100 * f[1][2] + 10 * f[1][3] + f[2]
Targets == { << 0, 0, 0 >>, << 4, 0, 0 >>, << 4, 0, 3 >>, << 4, 0, 2 >>, << 0, 4, 0 >>, << 2, 2, 0 >>, << 2, 0, 1 >>, << 0, 2, 0 >>, << 3, 1, 9 >>, << -40, 3, 0 >>, << 4, 1, 0 >>, << -3, 1, 1 >> }
Lists == { << f >> : f \in Facets } \cup (IF Most > 1 THEN { << p[1], p[2] >> : p \in { x \in Facets \X Facets : Rank(x[1]) < Rank(x[2]) } } ELSE {})
Hash(fs, t) == FoldLeft(LAMBDA a, f : a + Rank(f), 7 * t[1] + 3 * t[2] + t[3] + 1000, fs)
CONSTANT Thin
Init == /\ \E fs \in Lists, t \in Targets : (Len(fs) = 1 \/ Hash(fs, t) % Thin = 0) /\ st = [fs |-> fs, t |-> t]
        /\ told = FALSE
V3(a) == ToString(a[1]) \o " " \o ToString(a[2]) \o " " \o ToString(a[3])
IntN(n) == ToString(NFloor(n[1])) \o " " \o ToString(NFloor(n[2])) \o " " \o ToString(NFloor(n[3]))
Listing(f) == "facet normal " \o IntN(Out(f)) \o "\nvertex " \o V3(Pos[f[1][1]]) \o "\nvertex " \o V3(Pos[f[1][2]]) \o "\nvertex " \o V3(Pos[f[1][3]]) \o "\nendfacet\n"
Seen(fs) == SeenFacets([i \in DOMAIN fs |-> Facet(fs[i])], DefaultView, TRUE)
Vs(fs) == Sorted(Vertices(Seen(fs).f))
Eval_(pt, fs) == Eval(pt, Vs(fs), DefaultView)
At(v) == [f |-> "", ln |-> 1, p |-> VNum(v)]
NearOf(pt) == [f |-> "near", ln |-> 1, arg |-> pt]
R == Eval_(NearOf(At(st.t)), st.fs)
N == "near(" \o VText(st.t) \o ")"
Stmts == "dim(at = [9, -9, 0], dir = [1, 0, 0], from = [-20, 0, 0], to = " \o N \o ");\n"
        \o "dim(at = [-9, 9, 0], dir = [0, 1, 0], from = [0, -20, 0], to = near(" \o N \o "));\n"
        \o "dim(at = [-9, -9, 0], dir = [3, 4, 12], from = " \o N \o ", to = [0, 0, 50], fmt = \"%.9f\");"
Next == ~ told /\ told' = TRUE /\ UNCHANGED st
        /\ Apart(Seen(st.fs).f)
        /\ PrintT("CASE " \o ToJson([stl |-> FoldLeft(LAMBDA a, f : a \o Listing(f), "", st.fs), stmt |-> Stmts, bad |-> R.err # "", unsure |-> R.unsure \/ Seen(st.fs).unsure]))

Up(f) == NLt(N0, Out(f)[3])
Fails == (R.err = "near") = (\A i \in DOMAIN st.fs : ~ Up(st.fs[i])) /\ R.err \in {"", "near"}
Gives == R.err = "" =>
  LET vs == Vs(st.fs) t == VNum(st.t) IN
  /\ ~ R.unsure
  /\ \E i \in DOMAIN vs : VXY(vs[i]) = VXY(R.p)
  /\ \A i \in DOMAIN vs : NLe(Dist2(R.p, t), Dist2(vs[i], t))
  /\ (R.p[3] # N0 \/ (\E i \in DOMAIN vs : vs[i] = t)) => R.p = t
Again == R.err = "" => LET b == Eval_(NearOf(NearOf(At(st.t))), st.fs) IN b.err = "" /\ VXY(b.p) = VXY(R.p)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
NoOrder == Eval_(NearOf(At(st.t)), Rev(st.fs)) = R
OnlySeen == Eval_(NearOf(At(st.t)), SelectSeq(st.fs, Up)) = R
=============================================================================
