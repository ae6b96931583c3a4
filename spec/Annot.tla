------------------------------- MODULE Annot -------------------------------
(***************************************************************************)
(* Dimensions: which arguments they accept, and what they draw.              *)
(*                                                                          *)
(* What a statement does is [bad |-> set of mistakes, unsure |-> BOOLEAN,     *)
(* ink |-> sequence of lines, arcs, labels], in points on the page.           *)
(* A mistake is [ln |-> line, word |-> what the diagnostic has to mention,   *)
(* c |-> its kind].                                                          *)
(* An ink item for lines is [k |-> "lines", tag, alts]: one of the           *)
(* alternatives, each a sequence of segments, is drawn.                      *)
(***************************************************************************)
EXTENDS Hidden, Pick, Fmt

DiaSign == NByte(233)             \* shown as a diameter sign (in ISO Latin 1, an e acute)

\* c is the kind of mistake, to say which promise is broken if it isn't noticed.
Mistake(line, w, c) == [ln |-> line, word |-> w, c |-> c]

\* ---- arguments
ArgNames(args) == { args[i].name : i \in DOMAIN args }
First(args, n) == args[CHOOSE i \in DOMAIN args : args[i].name = n /\ \A j \in 1..(i - 1) : args[j].name # n]
Has(args, n) == n \in ArgNames(args)
Duplicates(args) ==
  { Mistake(args[i].ln, args[i].name, "twice") :
      i \in { k \in DOMAIN args : \E j \in DOMAIN args : j # k /\ args[j].name = args[k].name } }
Unknown(args, known) ==
  { Mistake(args[i].ln, args[i].name, "unknown") : i \in { k \in DOMAIN args : args[k].name \notin known } }
Missing(st, needed) == { Mistake(st.ln, n, "props") : n \in needed \ ArgNames(st.args) }

\* ---- point arguments: the value of argument n
PointArg(args, n, vs, m) ==
  LET a == First(args, n) IN
  IF a.v.t # "pt" THEN Fail(n, a.ln, FALSE) ELSE Eval(a.v.p, vs, m)
PointMistakes(args, names, vs, m) ==
  LET r == [n \in names |-> PointArg(args, n, vs, m)]
  IN  [bad |-> { Mistake(r[n].ln, r[n].err, IF First(args, n).v.t = "pt" THEN "pick" ELSE "props") : n \in { k \in names : r[k].err # "" } },
       unsure |-> \E n \in names : r[n].unsure,
       p |-> [n \in names |-> r[n].p]]

\* A direction that was calculated and is nothing but rounding.
CalcAny(args, names) == \E n \in names \cap ArgNames(args) : First(args, n).v.t = "pt" /\ Rounded(First(args, n).v.p)
Reach(vs) == FoldLeft(LAMBDA a, v : NMax(a, L1(v)), N1, vs)
NoDir(args, names, vs, d) == CalcAny(args, names) /\ NLe(NMul(VLen(d), NDec("1e9")), Reach(vs))

\* ---- the format
FormatOf(args, decimals) ==
  IF ~ Has(args, "fmt") THEN Default(decimals)
  ELSE LET a == First(args, "fmt") IN
       IF a.v.t # "str" THEN [k |-> "bad"] ELSE ParseFmt(a.v.s)
FmtMistakes(args, f) == IF f.k = "bad" THEN { Mistake(First(args, "fmt").ln, "fmt", IF First(args, "fmt").v.t = "str" THEN "fmt" ELSE "props") } ELSE {}

\* ---- results
Rejected(bad, unsure) == [bad |-> bad, unsure |-> unsure, ink |-> <<>>]
Drawn(ink, unsure) == [bad |-> {}, unsure |-> unsure, ink |-> ink]

\* on paper
OnPage(cx, p) == VAdd(VMul(VXY(p), cx.scale), cx.d)
Seg(cx, a, b) == << OnPage(cx, a), OnPage(cx, b) >>
Always(tag, segs) == [k |-> "lines", tag |-> tag, alts |-> << segs >>]
OneOf(tag, alts) == [k |-> "lines", tag |-> tag, alts |-> alts]
Label(tag, at, mode, pre, f, x, eps, post) ==
  [k |-> "label", tag |-> tag, at |-> at, mode |-> mode, pre |-> pre, f |-> f, x |-> x,
   eps |-> eps, post |-> post]

Pts(cx, n) == NDiv(n, cx.scale)              \* n points in model units
K(n) == NInt(n)
Eps(x) == NMul(NDec("1e-9"), NAdd(N1, NAbs(x)))
Near0(x, size) == NLe(NAbs(x), NMul(NDec("1e-9"), size))

(***************************************************************************)
(* dim: the distance of from and to along dir.  cx is the context of the     *)
(* draw: vs (vertices), m (view), scale, d.                                  *)
(***************************************************************************)
DimNames == {"at", "dir", "from", "to"}

DimDraw(cx, st, p, f, uns) ==
  LET at == p["at"]
      dir == VUnit(p["dir"])
      from == p["from"]
      to == p["to"]
      afrom == VAdd(at, VMul(dir, VDot(dir, VSub(from, at))))
      ato == VAdd(at, VMul(dir, VDot(dir, VSub(to, at))))
      len == VSub(ato, afrom)
      x == VLen(len)
      size == NAdd(L1(at), NAdd(L1(from), NAdd(L1(to), N1)))
      flat == << len[1], len[2], N0 >>
      u == VUnit(flat)                       \* along the dimension, on paper
      a == VMul(u, Pts(cx, N1))
      b == << NNeg(a[2]), a[1], N0 >>
      none == VIsZero(u)                     \* nothing to see of its length
      chars == Len(Render(f, x))
      width == NAdd(NMul(NDec("2.4"), NInt(chars)), N1)
      height == NDec("3.664")
      gap == IF none THEN N0
             ELSE IF u[1] = N0 THEN NDiv(height, NAbs(u[2]))
             ELSE IF u[2] = N0 THEN NDiv(width, NAbs(u[1]))
             ELSE NMin(NDiv(width, NAbs(u[1])), NDiv(height, NAbs(u[2])))
      room == ~ none /\ NLt(NMul(gap, K(2)), NMul(x, cx.scale))
      Arrow(s) == IF s THEN a ELSE VMul(a, NNeg(N1))
      out == Arrow(room)
      Ext(end, arrow, sgn) == << Seg(cx, VSub(arrow, VMul(b, K(4 * sgn))),
                                         VSub(end, VMul(b, K(2 * sgn)))) >>
      SideOf(end) == VDot(VSub(end, at), VMul(b, cx.scale))
      Extension(end, arrow) ==
        IF Near0(SideOf(end), size)
        THEN OneOf("dim.ext", << Ext(end, arrow, 1), Ext(end, arrow, -1) >>)
        ELSE Always("dim.ext", Ext(end, arrow, IF NLt(N0, SideOf(end)) THEN 1 ELSE -1))
      Tip(p0, k) == << Seg(cx, p0, VAdd(p0, VAdd(VMul(out, K(6 * k)), VMul(b, K(2))))),
                        Seg(cx, p0, VAdd(p0, VAdd(VMul(out, K(6 * k)), VMul(b, K(-2))))) >>
      line == IF room THEN << Seg(cx, afrom, VSub(at, VMul(a, gap))),
                              Seg(cx, VAdd(at, VMul(a, gap)), ato) >>
              ELSE << Seg(cx, afrom, VSub(afrom, VMul(a, K(10)))),
                      Seg(cx, ato, VAdd(ato, VMul(a, K(10)))) >>
      knife == \/ ~ none /\ NLe(NAbs(NSub(NMul(gap, K(2)), NMul(x, cx.scale))), NDec("1e-6"))
               \* seen end-on but for rounding
               \/ ~ none /\ NLe(NMul(VLen(flat), NDec("1e9")), size)
               \/ NLt(NDec("1e-9"), x) /\ none /\ ~ (len[1] = N0 /\ len[2] = N0)
               \* no length but for rounding
               \/ NLe(NMul(x, NDec("1e9")), size) /\ from # to
                  /\ Cardinality({ i \in 1..3 : dir[i] = N0 }) # 2
  IN  Drawn(<< Label("dim.label", OnPage(cx, at), "center", "", f, x, NMul(NDec("1e-9"), size), ""),
               Always("dim.line", line),
               Extension(from, afrom), Extension(to, ato),
               Always("dim.arrow", Tip(afrom, 1) \o Tip(ato, -1)) >>,
            uns \/ knife)

Dim(cx, st) ==
  LET args == st.args
      known == DimNames \cup {"fmt"}
      shape == Duplicates(args) \cup Unknown(args, known) \cup Missing(st, DimNames)
      f == FormatOf(args, 3)
      pm == PointMistakes(args, DimNames \cap ArgNames(args), cx.vs, cx.m)
      zero == IF shape = {} /\ pm.bad = {} /\ VIsZero(pm.p["dir"])
              THEN { Mistake(First(args, "dir").ln, "dir", "dir") } ELSE {}
      bad == shape \cup pm.bad \cup zero \cup FmtMistakes(args, f)
      lost == shape = {} /\ pm.bad = {} /\ NoDir(args, {"dir"}, cx.vs, pm.p["dir"])
  IN  IF bad # {} THEN Rejected(bad, pm.unsure \/ lost)
      ELSE IF f.k = "unsure" \/ lost THEN Rejected({}, TRUE)
      ELSE DimDraw(cx, st, pm.p, f, pm.unsure)

(***************************************************************************)
(* angle: between the directions from the apex.                              *)
(***************************************************************************)
AngleKnown == {"at", "apex", "from_dir", "from_point", "to_dir", "to_point", "fmt"}

AngleDraw(cx, st, at, apex, d1, p1, d2, p2, f, uns) ==
  LET ccw == NLt(N0, VCrossZ(d1, d2))       \* "to" counterclockwise of "from"
      fd == IF ccw THEN d1 ELSE d2
      fp == IF ccw THEN p1 ELSE p2
      td == IF ccw THEN d2 ELSE d1
      tp == IF ccw THEN p2 ELSE p1
      l == VLen(VSub(at, apex))
      gap == Pts(cx, K(2))
      fa == VMul(fd, Pts(cx, N1))
      ta == VMul(td, Pts(cx, N1))
      dot == VDot(fd, td)
      fb == VMul(VUnit(VSub(td, VMul(fd, dot))), Pts(cx, N1))
      tb == VMul(VUnit(VSub(fd, VMul(td, dot))), Pts(cx, N1))
      fe == VAdd(apex, VMul(fd, l))
      te == VAdd(apex, VMul(td, l))
      Tip(p0, a, b) == << Seg(cx, p0, VAdd(p0, VAdd(VMul(a, K(2)), VMul(b, K(6))))),
                           Seg(cx, p0, VAdd(p0, VAdd(VMul(a, K(-2)), VMul(b, K(6))))) >>
      far == NAdd(l, NMul(gap, K(2)))
      x == NAcosDeg(dot)
      blunt == NLt(x, N1) \/ NLt(K(179), x)
  IN  Drawn(<< Label("angle.label", OnPage(cx, at), "center", "", f, x,
                     IF blunt THEN NDec("1e-5") ELSE NDec("1e-9"), " deg"),
               Always("angle.ext", << Seg(cx, VAdd(fp, VMul(fd, gap)), VAdd(apex, VMul(fd, far))),
                                      Seg(cx, VAdd(tp, VMul(td, gap)), VAdd(apex, VMul(td, far))) >>),
               Always("angle.arrow", Tip(fe, fa, fb) \o Tip(te, ta, tb)),
               [k |-> "arc", tag |-> "angle.arc", c |-> OnPage(cx, apex), r |-> NMul(l, cx.scale),
                from |-> NAtan2Deg(fd[2], fd[1]), to |-> NAtan2Deg(td[2], td[1])] >>,
            uns)

Angle(cx, st) ==
  LET args == st.args
      names == ArgNames(args)
      Pair(d, p, w) == IF d \in names /\ p \in names
                       THEN { Mistake(First(args, d).ln, w, "props"), Mistake(First(args, p).ln, w, "props") }
                       ELSE IF d \notin names /\ p \notin names THEN { Mistake(st.ln, w, "props") }
                       ELSE {}
      shape == Duplicates(args) \cup Unknown(args, AngleKnown) \cup Missing(st, {"at", "apex"})
               \cup Pair("from_dir", "from_point", "from_") \cup Pair("to_dir", "to_point", "to_")
      f == FormatOf(args, 1)
      pm == PointMistakes(args, names \cap (AngleKnown \ {"fmt"}), cx.vs, cx.m)
      bad == shape \cup pm.bad \cup FmtMistakes(args, f)
  IN  IF bad # {} THEN Rejected(bad, pm.unsure)
      ELSE
      LET apex == pm.p["apex"]
          raw1 == IF "from_dir" \in names THEN pm.p["from_dir"] ELSE VSub(pm.p["from_point"], apex)
          raw2 == IF "to_dir" \in names THEN pm.p["to_dir"] ELSE VSub(pm.p["to_point"], apex)
          p1 == IF "from_dir" \in names THEN apex ELSE pm.p["from_point"]
          p2 == IF "to_dir" \in names THEN apex ELSE pm.p["to_point"]
          cz == VCrossZ(raw1, raw2)
          both == NMul(VSq(raw1), VSq(raw2))
          parallel == NLe(NMul(cz, cz), NMul(NDec("1e-28"), both))
          knife == ~ parallel /\ NLe(NMul(cz, cz), NMul(NDec("1e-18"), both))
          lost == NoDir(args, IF "from_dir" \in names THEN {"from_dir"} ELSE {"from_point", "apex"}, cx.vs, raw1)
                  \/ NoDir(args, IF "to_dir" \in names THEN {"to_dir"} ELSE {"to_point", "apex"}, cx.vs, raw2)
      IN  IF knife \/ lost THEN Rejected({}, TRUE)
          ELSE IF parallel THEN Rejected({ Mistake(st.ln, "", "parallel") }, pm.unsure)
          ELSE IF f.k = "unsure" THEN Rejected({}, TRUE)
          ELSE AngleDraw(cx, st, pm.p["at"], apex, VUnit(raw1), p1, VUnit(raw2), p2, f, pm.unsure)

(***************************************************************************)
(* dia and rad: the circle near center.                                      *)
(***************************************************************************)
CircleNames == {"at", "dir", "center"}

CircleDraw(cx, st, at3, dir2, circle, f, uns) ==
  LET at == VXY(at3)
      c == circle.c
      r == NSqrt(circle.r2)
      dir == VUnit(dir2)
      a == VAdd(c, VMul(dir, r))
      b == VSub(c, VMul(dir, r))
      start == IF st.k = "dia" THEN b ELSE c
      direct == VSub(at, c)
      size == NAdd(L1(at), NAdd(L1(c), NAdd(r, N1)))
      \* The leader bends where it is level with 'at', or at the circle when
      \* 'at' is closer; when dir is along an axis either may happen.
      axis == Near0(dir[1], N1) \/ Near0(dir[2], N1)
      len == NMin(NDiv(direct[1], dir[1]), NDiv(direct[2], dir[2]))
      Leader(p) == << Seg(cx, start, p), Seg(cx, p, at) >>
      bend(t) == VAdd(c, VMul(dir, t))
      leader ==
        IF axis
        THEN OneOf("circle.leader",
               << Leader(a) >>
               \o (IF Near0(dir[1], N1) /\ ~ Near0(dir[2], N1) THEN << Leader(bend(NDiv(direct[2], dir[2]))) >>
                   ELSE IF Near0(dir[2], N1) /\ ~ Near0(dir[1], N1) THEN << Leader(bend(NDiv(direct[1], dir[1]))) >>
                   ELSE <<>>))
        ELSE IF Near0(NSub(len, N1), size) THEN OneOf("circle.leader", << Leader(a), Leader(bend(len)) >>)
        ELSE Always("circle.leader", Leader(IF NLt(N1, len) THEN bend(len) ELSE a))
      u == VMul(dir, Pts(cx, N1))
      v == << NNeg(u[2]), u[1] >>
      Tip(p, k) == << Seg(cx, p, VAdd(p, VAdd(VMul(u, K(6 * k)), VMul(v, K(2))))),
                       Seg(cx, p, VAdd(p, VAdd(VMul(u, K(6 * k)), VMul(v, K(-2))))) >>
      heads == Tip(a, -1) \o (IF st.k = "dia" THEN Tip(b, 1) ELSE <<>>)
      \* the label begins right of 'at'
      x == IF st.k = "dia" THEN NMul(r, K(2)) ELSE r
      from == VAdd(OnPage(cx, at), << IF st.k = "dia" THEN NDec("2.4") ELSE NDec("4.8"), N0 >>)
  IN  Drawn(<< leader, Always("circle.arrow", heads),
               Label("circle.label", from, "left", IF st.k = "dia" THEN DiaSign ELSE "R", f, x,
                     NMul(NDec("1e-9"), size), "") >>,
            uns \/ NLe(NMul(VLen(dir2), NDec("1e9")), L1(at3)))

Circle(cx, st) ==
  LET args == st.args
      known == CircleNames \cup {"fmt"}
      shape == Duplicates(args) \cup Unknown(args, known) \cup Missing(st, CircleNames)
      f == FormatOf(args, 3)
      pm == PointMistakes(args, CircleNames \cap ArgNames(args), cx.vs, cx.m)
      fine == shape = {} /\ pm.bad = {}
      few == IF shape = {} /\ Len(cx.vs) < 3 THEN { Mistake(st.ln, "", "circle") } ELSE {}
      zero == IF fine /\ VIsZero(VXY(pm.p["dir"])) THEN { Mistake(First(args, "dir").ln, "dir", "dir") } ELSE {}
      circle == IF fine /\ few = {} THEN CircleAt(cx.vs, pm.p["center"], Rounded(First(args, "center").v.p)) ELSE [ok |-> FALSE, unsure |-> FALSE]
      lost == IF fine /\ few = {} /\ ~ circle.ok THEN { Mistake(st.ln, "", "circle") } ELSE {}
      bad == shape \cup pm.bad \cup few \cup zero \cup lost \cup FmtMistakes(args, f)
      nodir == fine /\ NoDir(args, {"dir"}, cx.vs, VXY(pm.p["dir"]))
  IN  IF bad # {} THEN Rejected(bad, pm.unsure \/ circle.unsure \/ nodir)
      ELSE IF f.k = "unsure" \/ nodir THEN Rejected({}, TRUE)
      ELSE CircleDraw(cx, st, pm.p["at"], VXY(pm.p["dir"]), circle, f, pm.unsure \/ circle.unsure)

Annotate(cx, st) ==
  CASE st.k = "dim" -> Dim(cx, st)
    [] st.k = "angle" -> Angle(cx, st)
    [] st.k \in {"dia", "rad"} -> Circle(cx, st)

\* The lines that a diagnostic about statement st may point at.
LinesOf(st, bad) == {st.ln} \cup { b.ln : b \in bad }
=============================================================================
