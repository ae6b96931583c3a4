------------------------------- MODULE Meaning -------------------------------
(***************************************************************************)
(* What the statements of a script mean: what is wrong with them, which file  *)
(* a load statement reads, where things are put on the page.                 *)
(***************************************************************************)
EXTENDS Annot, Grammar, Stl

(***************************************************************************)
(* Faults.  A group is what a faulty statement may be reported as: at least  *)
(* one of the mistakes in alts has to be reported, and only lines in lns may  *)
(* be pointed at.  A statement whose only mistakes are properties that it     *)
(* doesn't know, or that it has twice, has to be reported for each of them.  *)
(***************************************************************************)
Group(line, bad) == [lns |-> {line} \cup { b.ln : b \in bad }, alts |-> bad]
AllOf(g) == { m.c : m \in g.alts } \in { {"unknown"}, {"twice"} }
Maybe(m) == [m EXCEPT !.c = IF @ \in {"unknown", "twice"} THEN "props" ELSE @]
Groups(line, bad) == IF bad = {} THEN <<>> ELSE << Group(line, bad) >>

(***************************************************************************)
(* Loading.                                                                  *)
(***************************************************************************)
IsAbsolute(p) == StartsWith(p, "/")
\* The names along a path; "/" comes first if it starts at the root.  A
\* relative one starts in cwd (<<>> if that doesn't matter).
Steps(cwd, p) == (IF IsAbsolute(p) THEN << "/" >> ELSE cwd) \o SelectSeq(Split(p, "/"), LAMBDA x : x # "" /\ x # ".")
Cwd(input) == IF "cwd" \in DOMAIN input THEN Steps(<<>>, input.cwd) ELSE <<>>
\* Where the files are.  A directory is there for every file in it.
StepsTo(cwd, files) == [j \in DOMAIN files |-> Steps(cwd, files[j].path)]
IsPrefix0(s, t) == Len(t) >= Len(s) /\ SubSeq(t, 1, Len(s)) = s
IsDir(cwd, files, at, steps) ==
  \/ IsPrefix0(steps, cwd)
  \/ steps = << "/" >>
  \/ \E j \in DOMAIN files : IsPrefix0(steps, at[j]) /\ (Len(steps) < Len(at[j]) \/ files[j].kind = "dir")
\* Where a path leads, step by step: ".." leaves a directory that is there.
Walk(cwd, files, at, p) ==
  FoldLeft(LAMBDA w, x : IF ~ w.ok THEN w
                         ELSE IF x # ".." THEN [w EXCEPT !.to = Append(@, x)]
                         ELSE IF w.to = <<>> \/ ~ IsDir(cwd, files, at, w.to) THEN [w EXCEPT !.ok = FALSE]
                         ELSE IF w.to = << "/" >> THEN w
                         ELSE [w EXCEPT !.to = SubSeq(@, 1, Len(@) - 1)],
           [ok |-> TRUE, to |-> <<>>], Steps(cwd, p))
\* what is there at a path: [kind |-> "none", "dir", or of the file, data]
Lookup(cwd, files, at, p) ==
  LET w == Walk(cwd, files, at, p)
      hits == { j \in DOMAIN files : at[j] = w.to }
      last == LET c == Split(p, "/") IN c[Len(c)] IN
  IF ~ w.ok THEN [kind |-> "none"]
  ELSE IF IsDir(cwd, files, at, w.to) THEN [kind |-> "dir"]
  ELSE IF hits = {} \/ last \in {"", ".", ".."} THEN [kind |-> "none"]
  ELSE files[CHOOSE j \in hits : TRUE]
Candidates(file, loadpath) ==
  IF IsAbsolute(file) THEN << file >>
  ELSE << "./" \o file >> \o [i \in DOMAIN NonEmpty(Split(loadpath, ",")) |->
                                NonEmpty(Split(loadpath, ","))[i] \o "/" \o file]
\* the file that is read for a load statement; "none" if there is none
Find1(input, file) ==
  LET c == Candidates(file, input.loadpath)
      cwd == Cwd(input)
      at == StepsTo(cwd, input.files)
      found == [i \in DOMAIN c |-> Lookup(cwd, input.files, at, c[i])]
      good == { i \in DOMAIN c : found[i].kind # "none" }
  IN  IF good = {} THEN [kind |-> "none"] ELSE found[CHOOSE x \in good : \A y \in good : x <= y]

LoadResult(input, ld, loaded) ==
  IF ld.name \in DOMAIN loaded THEN [why |-> "load.twice", m |-> loaded[ld.name]]
  ELSE LET f == Find1(input, ld.file)
           nothing == [ok |-> FALSE, facets |-> <<>>, unsure |-> FALSE] IN
       CASE f.kind = "none" -> [why |-> "load.missing", m |-> nothing]
         [] f.kind # "file" -> [why |-> "load.unreadable", m |-> nothing]
         [] OTHER -> LET s == ReadStl(f.data) IN
                     IF s.bad # 0 THEN [why |-> "load.stl", m |-> [nothing EXCEPT !.unsure = s.unsure]]
                     ELSE [why |-> "", m |-> [ok |-> TRUE, facets |-> s.out, unsure |-> s.unsure]]

(***************************************************************************)
(* Layout.  The page is 11 by 8.5 inches; a draw or text without @ belongs   *)
(* at its center.                                                            *)
(***************************************************************************)
Center == << NInt(396), NInt(306) >>
Place(args) == IF Has(args, "@") THEN VAdd(Center, VMul(First(args, "@").v.xy, NInt(72))) ELSE Center

TextAt(tag, p, s) == [k |-> "text", tag |-> tag, at |-> p, s |-> s]

\* The lines of a text block, 12 points apart; empty ones leave a gap.
TextBlock(st) ==
  LET p == Place(st.args)
      s == Split(st.str, LF)
      line(i) == TextAt("text", << p[1], NSub(p[2], NInt(12 * (i - 1))) >>, s[i])
  IN  SelectSeq([i \in DOMAIN s |-> line(i)], LAMBDA x : x.s # "")

\* The title, right-aligned in a box in the corner of the border.
Title(name) ==
  LET x == NSub(NInt(784), NMul(NDec("4.8"), NInt(Len(name))))
      l == NSub(x, NInt(3))
      h == NInt(16)
  IN  << TextAt("title", << x, NInt(8) >>, name),
         Always("title.box", << << << l, NInt(5) >>, << l, h >> >>, << << l, h >>, << NInt(787), h >> >> >>) >>

\* The border of every page.
Border ==
  LET a == NInt(5) r == NInt(787) t == NInt(607) IN
  Always("border", << << << a, a >>, << a, t >> >>, << << a, t >>, << r, t >> >>,
                      << << r, t >>, << r, a >> >>, << << r, a >>, << a, a >> >> >>)

\* The status line of page n of m.
StatusLine(timestamp, number, time, n, m) ==
  Join((IF timestamp THEN << time >> ELSE <<>>)
       \o (IF number THEN << "page " \o ToString(n) \o " of " \o ToString(m) >> ELSE <<>>), " ")
StatusPoint == << NInt(7), NInt(7) >>

PageBad(page) ==
  Duplicates(page.args) \cup Unknown(page.args, {"name"})
  \cup (IF Has(page.args, "name") /\ First(page.args, "name").v.t # "str"
        THEN { Mistake(First(page.args, "name").ln, "name", "props") } ELSE {})
PageName(page) == IF Has(page.args, "name") /\ First(page.args, "name").v.t = "str"
                  THEN First(page.args, "name").v.s ELSE ""

TextBad(st) == Duplicates(st.args) \cup Unknown(st.args, {"@"})

(***************************************************************************)
(* Draws.                                                                    *)
(***************************************************************************)
ViewOf(args) ==      \* [ok, m, plain]
  IF ~ Has(args, "view") THEN [ok |-> TRUE, m |-> DefaultView, plain |-> TRUE]
  ELSE LET v == First(args, "view").v IN
       CASE v.t = "str" -> IF v.s \in ViewNames THEN [ok |-> TRUE, m |-> NamedView(v.s), plain |-> TRUE]
                           ELSE [ok |-> FALSE]
         [] v.t = "loc" -> [ok |-> TRUE, m |-> AngleView(v.xy), plain |-> v.xy = << N0, N0 >>]
         [] OTHER -> [ok |-> FALSE]

ScaleBad(args) ==
  Has(args, "scale") /\ LET v == First(args, "scale").v IN
    v.t # "scale" \/ (v.t = "scale" /\ (NLe(v.a, N0) \/ NLe(v.b, N0)))
ScaleOf(args) ==
  IF ~ Has(args, "scale") THEN NInt(72)
  ELSE LET v == First(args, "scale").v IN NF32(NDiv(NMul(NInt(72), v.a), v.b))

DrawNames == {"scale", "view", "@"}
\* Mistakes that leave nothing to draw ...
DrawBad1(st, loaded) ==
  Duplicates(st.args)
  \cup (IF ScaleBad(st.args) THEN { Mistake(First(st.args, "scale").ln, "scale", "props") } ELSE {})
  \cup (IF st.name \notin DOMAIN loaded THEN { Mistake(st.ln, st.name, "props") } ELSE {})
  \cup (IF ViewOf(st.args).ok THEN {} ELSE { Mistake(First(st.args, "view").ln, "view", "props") })
\* ... and others.
DrawBad(st, loaded) == DrawBad1(st, loaded) \cup Unknown(st.args, DrawNames)

\* The context of a draw: everything its dimensions refer to.
Scene(st, loaded) ==
  LET view == ViewOf(st.args)
      seen == SeenFacets(loaded[st.name].facets, view.m, view.plain)
      scale == ScaleOf(st.args)
  IN  [ok |-> TRUE, seen |-> seen.f, unsure |-> seen.unsure \/ loaded[st.name].unsure,
       vs |-> Sorted(Vertices(seen.f)), m |-> view.m, scale |-> scale,
       d |-> VSub(Place(st.args), VMul(Middle(Box(seen.f)), scale))]
NoScene == [ok |-> FALSE]

\* The lines of the model, on paper.
ModelInk(scene) ==
  LET l == ModelLines(scene.seen)
      Put(segs) == [i \in DOMAIN segs |-> Seg(scene, segs[i][1], segs[i][2])]
  IN  [k |-> "model", tag |-> "model",
       must |-> [i \in DOMAIN l.must |-> Put(l.must[i])],
       may |-> [i \in DOMAIN l.may |-> Put(l.may[i])],
       edges |-> Put(l.edges), kind |-> l.kind]
=============================================================================
