-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Helpers for models that check laws about annotations: small numbers as     *)
(* text and value, statements made by hand, and ink compared but for          *)
(* rounding.                                                                 *)
(***************************************************************************)
EXTENDS Annot, Json

P3(a, b, c) == << NInt(a), NInt(b), NInt(c) >>
\* coordinates in the models are small integers
VText(v) == "[" \o ToString(v[1]) \o ", " \o ToString(v[2]) \o ", " \o ToString(v[3]) \o "]"
VNum(v) == [i \in 1..3 |-> NInt(v[i])]
PointVal(v) == [t |-> "pt", p |-> [f |-> "", p |-> VNum(v), ln |-> 1]]
\* an argument by its name and a vector of integers
Arg(n, v) == [name |-> n, ln |-> 1, v |-> PointVal(v)]
NearVal(v) == [t |-> "pt", p |-> [f |-> "near", ln |-> 1, arg |-> PointVal(v).p]]
Stmt(kind, args) == [k |-> kind, ln |-> 1, args |-> args]
Scene0(vs, scale) == [vs |-> vs, m |-> << << N1, N0, N0 >>, << N0, N1, N0 >>, << N0, N0, N1 >> >>, scale |-> scale, d |-> << N0, N0 >>]

\* ---- comparisons but for rounding
Close(x, y) == NLe(NAbs(NSub(x, y)), NDec("1e-8"))
CloseV(a, b) == \A i \in DOMAIN a : Close(a[i], b[i])
SameSeg(s, t) == (CloseV(s[1], t[1]) /\ CloseV(s[2], t[2])) \/ (CloseV(s[1], t[2]) /\ CloseV(s[2], t[1]))
SegSet(segs) == { segs[i] : i \in DOMAIN segs }
Within(A, B) == \A s \in A : \E t \in B : SameSeg(s, t)
SameSegs(A, B) == Within(A, B) /\ Within(B, A)
\* the lines of some ink, with the first alternative of those that have several
LinesAs(r, tag) == UNION { SegSet(r.ink[i].alts[1]) : i \in { j \in DOMAIN r.ink : r.ink[j].k = "lines" /\ r.ink[j].tag = tag } }
Settled(r, tag) == \A i \in DOMAIN r.ink : r.ink[i].k = "lines" /\ r.ink[i].tag = tag => Len(r.ink[i].alts) = 1
AllLines(r) == UNION { SegSet(r.ink[i].alts[1]) : i \in { j \in DOMAIN r.ink : r.ink[j].k = "lines" } }
Moved(segs, t) == { << VAdd(s[1], t), VAdd(s[2], t) >> : s \in segs }
TheLabel(r) == r.ink[CHOOSE i \in DOMAIN r.ink : r.ink[i].k = "label"]
TheArc(r) == r.ink[CHOOSE i \in DOMAIN r.ink : r.ink[i].k = "arc"]
Good(r) == r.bad = {} /\ ~ r.unsure /\ r.ink # <<>>
\* r2 is what r1 is but moved by t
SameInk(r1, r2, t) ==
  /\ Good(r1) = Good(r2) /\ (r1.bad = {}) = (r2.bad = {})
  /\ Good(r1) => /\ Close(TheLabel(r1).x, TheLabel(r2).x)
                 /\ CloseV(VAdd(TheLabel(r1).at, t), TheLabel(r2).at)
                 /\ SameSegs(Moved(AllLines(r1), t), AllLines(r2))
=============================================================================
