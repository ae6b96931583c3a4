---------------------------- MODULE MC_Degenerate ----------------------------
(***************************************************************************)
(* Annotations where geometry degenerates: points that coincide, or do so on   *)
(* paper, or differ very little or very much; zero directions; models that are *)
(* empty, flat, edge-on, a point, hidden or tiny; scales that leave no room.   *)
(* Laws: a statement is rejected or it draws all its parts, every number of    *)
(* which is a number; it is rejected for the reasons there are and no others;   *)
(* moving the label along its dimension line changes nothing but where it is.   *)
(***************************************************************************)
EXTENDS Meaning, Laws
VARIABLES st, told
CONSTANT Thin

Pts_ == << "[0, 0, 0]", "[0, 0, 5]", "[1, 1, 1]", "[1, 1, -4]", "[1000000, 1, 1]", "[1, 0.000001, 0]", "[-1, -1, -1]", "near([1, 1, 1])", "center([0, 0, 0])", "near(center([9, 0, 0]))" >>
Plain == 1..7
V3(a) == ToString(a[1]) \o " " \o ToString(a[2]) \o " " \o ToString(a[3])
Tri(n, a, b, c) == "facet normal " \o n \o "\nvertex " \o a \o "\nvertex " \o b \o "\nvertex " \o c \o "\nendfacet\n"
Models == <<
  "",
  Tri("0 0 1", "5 0 0", "3 4 0", "-4 3 0"),
  Tri("0 0 1", "0 0 0", "0 0 0", "0 0 0"),
  Tri("0 0 1", "1 1 1", "1 1 1", "3 1 1"),
  Tri("0 0 1", "0 0 0", "1 1 0", "2 2 0"),
  Tri("1 0 0", "0 0 0", "0 2 0", "0 0 3") \o Tri("-1 0 0", "0 0 0", "0 0 3", "0 2 0"),
  Tri("0 0 0", "1 0 0", "0 1 0", "0 0 1"),
  Tri("0 0 1", "1e-6 0 0", "0 1e-6 0", "-1e-6 0 1e-6"),
  Tri("0 0 1", "1e6 0 0", "0 1e6 0", "-1e6 0 1e6") \o Tri("0 0 1", "1 1 1", "2 1 1", "1 2 1"),
  Tri("0 0 1", "1 0 -1", "0 1 -1", "0 0 -1") \o Tri("0 0 1", "-9 -9 1", "9 -9 1", "0 9 1") >>
Views_ == << "", "view = \"X+\"; ", "view = [0, 90]; ", "view = [45, 30]; " >>
Scales == << "", "scale = 1 : 1000000; ", "scale = 1000 : 1; " >>

Kinds == << "dim", "angle", "dia", "rad" >>
Names(k) == CASE k = 1 -> << "at", "dir", "from", "to" >>
              [] k = 2 -> << "at", "apex", "from_dir", "to_point" >>
              [] OTHER -> << "at", "dir", "center" >>
Tuples4 == [1..4 -> DOMAIN Pts_]
Hash(k, p, m, v, s) == 101 * k + 211 * m + 307 * v + 401 * s + 503 * p[1] + 601 * p[2] + 701 * p[3] + 809 * p[4]
Init == /\ \E k \in 1..4, p \in Tuples4, m \in DOMAIN Models, v \in DOMAIN Views_, s \in DOMAIN Scales :
             /\ k > 2 => p[4] = 1
             /\ Hash(k, p, m, v, s) % (IF k > 2 THEN 1 + Thin \div 5 ELSE Thin) = 0
             /\ st = [k |-> k, p |-> p, m |-> m, v |-> v, s |-> s]
        /\ told = FALSE
Text(x) == LET n == Names(x.k) IN
  Kinds[x.k] \o "(" \o FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ", ") \o n[i] \o " = " \o Pts_[x.p[i]], "", [i \in DOMAIN n |-> i]) \o ");"
Sets(x) == Views_[x.v] \o Scales[x.s]
Item(x) == Parse("page { draw m { " \o Sets(x) \o Text(x) \o " } }").pages[1].items[1]
SceneOf(x) == Scene(Item(x), [n \in {"m"} |-> [ok |-> TRUE, facets |-> ReadStl(Models[x.m]).out, unsure |-> FALSE]])
Sc == SceneOf(st)
A(x) == Annotate(SceneOf(x), Item(x).dims[1])
R == A(st)
Next == ~ told /\ told' = TRUE /\ UNCHANGED st
        /\ PrintT("CASE " \o ToJson([stl |-> Models[st.m], set |-> Sets(st), stmt |-> Text(st), bad |-> R.bad # {}, unsure |-> R.unsure]))

Number(x) == NLe(x, x) /\ NLe(NAbs(x), NDec("1e18"))
Numbers(v) == \A i \in DOMAIN v : Number(v[i])
Fine(i) ==
  CASE i.k = "lines" -> i.alts # <<>> /\ \A a \in DOMAIN i.alts : \A j \in DOMAIN i.alts[a] : Numbers(i.alts[a][j][1]) /\ Numbers(i.alts[a][j][2])
    [] i.k = "arc" -> Numbers(i.c) /\ Number(i.r) /\ Numbers(<< i.from, i.to >>) /\ NLe(N0, i.r)
    [] i.k = "label" -> Numbers(i.at) /\ Number(i.x) /\ NLe(N0, i.x) /\ Len(Render(i.f, i.x)) > 0
HowMany == CASE st.k = 1 -> 5 [] st.k = 2 -> 4 [] OTHER -> 3
AllOrNothing == told =>
  /\ R.bad # {} => R.ink = <<>>
  /\ R.bad = {} => R.unsure \/ (Len(R.ink) = HowMany /\ \A i \in DOMAIN R.ink : Fine(R.ink[i]))
Used == { st.p[i] : i \in DOMAIN Names(st.k) }
OnlyPlain == Used \subseteq Plain
P(i) == LET pt == Item(st).dims[1].args[i].v.p IN pt.p
Dir0 == VIsZero(IF st.k = 1 THEN VApply(P(2), Sc.m) ELSE VXY(ToF64(VApply(P(2), Sc.m))))
Reasons == told /\ OnlyPlain /\ ~ R.unsure =>
  LET c == { b.c : b \in R.bad } IN
  CASE st.k = 1 -> c = IF Dir0 THEN {"dir"} ELSE {}
    [] st.k = 2 -> c \subseteq {"parallel"}
    [] OTHER -> c \subseteq {"dir", "circle"} /\ (Len(Sc.vs) < 3 => "circle" \in c) /\ (Dir0 => "dir" \in c)
\* a picked point is a mistake just where there is nothing to pick
Picks == told => LET w == { b.word : b \in { x \in R.bad : x.c = "pick" } } IN
  /\ ("near" \in w) => 8 \in Used \/ 10 \in Used
  /\ ("center" \in w) => 9 \in Used \/ 10 \in Used
  /\ Sc.vs = <<>> /\ ({8, 10} \cap Used # {}) => "near" \in w
  /\ Len(Sc.vs) < 3 /\ 9 \in Used => "center" \in w
\* a zero length is shown as zero
Zero == told /\ st.k = 1 /\ OnlyPlain /\ st.p[3] = st.p[4] /\ Good(R) => TheLabel(R).x = N0
=============================================================================
