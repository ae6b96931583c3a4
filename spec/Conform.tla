------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Recorded runs of the real program against the specification.  The file    *)
(* of cases gives the inputs of each run and what was observed:              *)
(*   obs.status  exit status, negative for a signal, 999 if it didn't end    *)
(*   obs.stderr, obs.out  all that it printed and wrote                       *)
(*   name, timestamp, number  flags; times, what the clock may have shown    *)
(*   path        the script as it was named on the command line              *)
(* The specification does the same run; in its last state the two are         *)
(* compared, and every difference is given as <<tag, details>>.               *)
(***************************************************************************)
EXTENDS StlToPs, Trace, IOUtils

CaseFile == IOEnv.CASES
Cases == Recorded(CaseFile)

P == INSTANCE Ps
I == INSTANCE Ink

(***************************************************************************)
(* Diagnostics: the lines on stderr that contain SCRIPT:LINE:                *)
(***************************************************************************)
DigitsAt(s, j) ==
  FoldLeft(LAMBDA a, i : IF a = i - 1 /\ Ch(s, i) \in Digits /\ a < j + 8 THEN i ELSE a, j - 1,
           [x \in 1..(Len(s) - j + 1) |-> j + x - 1])
Diag(line, path) ==
  LET key == path \o ":"
      n == Len(key)
      hits == { i \in 1 .. (Len(line) - n) : SubSeq(line, i, i + n - 1) = key
                                             /\ Ch(line, i + n) \in Digits }
  IN  IF hits = {} \/ StartsWith(line, "@LOG I") \/ StartsWith(line, "@LOG W") THEN [ln |-> 0, msg |-> line]
      ELSE LET i == CHOOSE x \in hits : \A y \in hits : x <= y
               e == DigitsAt(line, i + n)
           IN  [ln |-> IntVal(SubSeq(line, i + n, e)), msg |-> From(line, e + 1)]
Diags(stderr, path) ==
  LET l == Lines(stderr)
  IN  SelectSeq([i \in DOMAIN l |-> Diag(l[i], path)], LAMBDA d : d.ln # 0)

Tag(t, d) == << t, d >>

(***************************************************************************)
(* Rejected runs.                                                            *)
(***************************************************************************)
Says(ds, m) == \E i \in DOMAIN ds : ds[i].ln = m.ln /\ HasSub(ds[i].msg, m.word)
KindsOf(g) == { m.c : m \in g.alts }
\* A syntax error is reported with the columns of the token that doesn't fit,
\* as [first, end], and one that is no token by its text.
Columns(t) == ":[" \o ToString(t.c) \o "," \o ToString(t.c + Len(t.s)) \o "]: " \o (IF t.k = "bad" /\ t.s # NByte(0) THEN t.s ELSE "")
ColumnTags(ds) ==
  IF doc.err = 0 \/ doc.tok.k = "eof" THEN {}
  ELSE LET here == { i \in DOMAIN ds : ds[i].ln = doc.err } IN
       IF here = {} \/ \E i \in here : StartsWith(ds[i].msg, Columns(doc.tok)) THEN {}
       ELSE { Tag("diag.columns", << Columns(doc.tok), { ds[i].msg : i \in here } >>) }
DiagTags(ds) ==
  LET all == UNION { faults[i].lns : i \in DOMAIN faults } IN
  UNION { IF (IF AllOf(faults[i])
              THEN \A w \in { m.word : m \in faults[i].alts } : \E m \in faults[i].alts : m.word = w /\ Says(ds, m)
              ELSE \E m \in faults[i].alts : Says(ds, m)) THEN {}
          ELSE { Tag("diag.missing." \o k, faults[i].lns) : k \in KindsOf(faults[i]) } : i \in DOMAIN faults }
  \cup { Tag("diag.line", ds[i]) : i \in { j \in DOMAIN ds : ds[j].ln \notin all } }

\* What a run that should have been accepted complained about.
StmtAt(line) ==
  LET hit(x) == x.ln = line \/ \E i \in DOMAIN x.args : x.args[i].ln = line IN
  UNION { IF p.ln = line THEN {"page"} ELSE
          UNION { IF p.items[i].k = "text" THEN IF hit(p.items[i]) THEN {"text"} ELSE {}
                  ELSE (IF hit(p.items[i]) THEN {"draw"} ELSE {})
                       \cup { p.items[i].dims[d].k : d \in { e \in DOMAIN p.items[i].dims : hit(p.items[i].dims[e]) } }
                  : i \in DOMAIN p.items }
        : p \in { doc.pages[i] : i \in DOMAIN doc.pages } }
  \cup { "load" : l \in { x \in DOMAIN doc.loads : doc.loads[x].ln = line } }
RejectTags(ds) ==
  IF ds = <<>> THEN { Tag("rejected.silently", "") }
  ELSE UNION { IF StartsWith(ds[i].msg, ":[") \/ HasSub(ds[i].msg, " to ") THEN { Tag("rejected.syntax", ds[i]) }
               ELSE IF HasSub(ds[i].msg, "fmt") THEN { Tag("rejected.fmt", ds[i]) }
               ELSE LET s == StmtAt(ds[i].ln) IN
                    IF s = {} THEN { Tag("rejected.other", ds[i]) }
                    ELSE { Tag("rejected." \o x, ds[i]) : x \in s } : i \in DOMAIN ds }

NoPages(out) ==
  \/ out = ""
  \/ LET d == P!Document(out) IN d.pages = <<>> /\ ~ d.rest

(***************************************************************************)
(* Accepted runs: the pages.                                                 *)
(***************************************************************************)
PrepSegs(segs) == [i \in DOMAIN segs |-> I!Prep(<< segs[i][1][1], segs[i][1][2], segs[i][2][1], segs[i][2][2] >>)]
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

Ready(ink) ==    \* with the segments prepared
  [i \in DOMAIN ink |->
     CASE ink[i].k = "lines" -> [ink[i] EXCEPT !.alts = [j \in DOMAIN @ |-> PrepSegs(@[j])]]
       [] ink[i].k = "model" -> [ink[i] EXCEPT !.must = [j \in DOMAIN @ |-> PrepSegs(@[j])],
                                               !.may = [j \in DOMAIN @ |-> PrepSegs(@[j])],
                                               !.edges = PrepSegs(@)]
       [] OTHER -> ink[i]]

ShowSeg(a) == a.s

LineTags(ink, obs) ==
  LET lines == SelectSeq(ink, LAMBDA x : x.k = "lines")
      mods == SelectSeq(ink, LAMBDA x : x.k = "model")
      fine == Flat([i \in DOMAIN lines |-> Flat(lines[i].alts)])
      allowed == fine \o Flat([i \in DOMAIN mods |-> Flat(mods[i].may)])
      \* everything that could be drawn of the edges that may be drawn, and of all edges
      onEdge == fine \o Flat([i \in DOMAIN mods |->
                  LET m == mods[i] IN SelectSeq([j \in DOMAIN m.edges |-> IF m.kind[j] # "no" THEN m.edges[j]
                                                                  ELSE [m.edges[j] EXCEPT !.q = N0]],
                                                LAMBDA a : a.q # N0)])
      onAny == fine \o Flat([i \in DOMAIN mods |-> mods[i].edges])
      short == { i \in DOMAIN lines : ~ \E a \in DOMAIN lines[i].alts :
                    \A s \in DOMAIN lines[i].alts[a] : I!Covered(lines[i].alts[a][s], obs) }
      lost == UNION { UNION { { mods[m].must[e][s] : s \in { x \in DOMAIN mods[m].must[e] :
                                                            ~ I!Covered(mods[m].must[e][x], obs) } }
                             : e \in DOMAIN mods[m].must } : m \in DOMAIN mods }
      stray == { i \in DOMAIN obs : ~ I!Covered(obs[i], allowed) }
  IN  { Tag(lines[i].tag, << "not drawn", [a \in DOMAIN lines[i].alts |->
                                 [s \in DOMAIN lines[i].alts[a] |-> ShowSeg(lines[i].alts[a][s])]] >>) : i \in short }
      \cup { LET h == I!Holes(s, obs) IN
             Tag(IF Len(h) = 1 /\ h[1] = << N0, s.q >> THEN "model.missing" ELSE "model.partial", ShowSeg(s)) : s \in lost }
      \cup { Tag(IF I!Covered(obs[i], onEdge) THEN "stray.hidden"
                 ELSE IF I!Covered(obs[i], onAny) THEN "stray.smooth" ELSE "stray.line", ShowSeg(obs[i])) : i \in stray }

ArcTags(ink, obs) ==
  LET arcs == SelectSeq(ink, LAMBDA x : x.k = "arc") IN
  { Tag(arcs[i].tag, arcs[i]) : i \in { j \in DOMAIN arcs : ~ \E k \in DOMAIN obs : I!SameArc(obs[k], arcs[j]) } }
  \cup { Tag("stray.arc", obs[i]) : i \in { j \in DOMAIN obs : ~ \E k \in DOMAIN arcs : I!SameArc(obs[j], arcs[k]) } }

\* PostScript reads every end of a line in a string as a newline.
AsRead(s) ==
  FoldLeft(LAMBDA a, i : LET c == Ch(s, i) IN
             [o |-> IF c = CR THEN a.o \o LF ELSE IF c = LF /\ a.cr THEN a.o ELSE a.o \o c, cr |-> c = CR],
           [o |-> "", cr |-> FALSE], Range1(Len(s))).o
Reads(s) == IF \E i \in 1..Len(s) : Ch(s, i) = CR THEN AsRead(s) ELSE s

LabelAt(l, t) ==     \* t is where label l belongs
  IF l.mode = "left" THEN I!AtPoint(VAdd(t.at, << N0, NDec("2.0125") >>), l.at)
  ELSE I!AtPoint(VAdd(t.at, << NMul(NDec("2.4"), NInt(Len(t.s))), NDec("2.0125") >>), l.at)
LabelSays(l, t) ==
  IsLabel([l.f EXCEPT !.pre = Reads(l.pre \o @), !.post = Reads(@ \o l.post)], l.x, l.eps, t.s)

TextTags(ink, obs) ==
  LET txt == SelectSeq(ink, LAMBDA x : x.k = "text" /\ x.s # "")
      lab == SelectSeq(ink, LAMBDA x : x.k = "label")
      At(e, t) == I!AtPoint(t.at, e.at)
      Is(e, t) == t.s = Reads(e.s)
      TextTag(e) == IF \E i \in DOMAIN obs : At(e, obs[i]) /\ Is(e, obs[i]) THEN {}
                    ELSE { Tag(e.tag \o (IF \E i \in DOMAIN obs : Is(e, obs[i]) THEN ".place" ELSE ".content"),
                               << e.at, e.s >>) }
      LabelTag(l) == IF \E i \in DOMAIN obs : LabelAt(l, obs[i]) /\ LabelSays(l, obs[i]) THEN {}
                     ELSE { Tag(l.tag \o (IF \E i \in DOMAIN obs : LabelAt(l, obs[i]) THEN ".value"
                                          ELSE IF \E i \in DOMAIN obs : LabelSays(l, obs[i]) THEN ".place"
                                          ELSE ".missing"),
                                << l.at, l.x, l.pre, l.f, l.post >>) }
      Known(t) == \/ t.s = ""
                  \/ \E i \in DOMAIN txt : At(txt[i], t) /\ Is(txt[i], t)
                  \/ \E i \in DOMAIN lab : LabelAt(lab[i], t)
  IN  UNION { TextTag(txt[i]) : i \in DOMAIN txt }
      \cup UNION { LabelTag(lab[i]) : i \in DOMAIN lab }
      \cup { Tag("stray.text", obs[i]) : i \in { j \in DOMAIN obs : ~ Known(obs[j]) } }
      \cup { Tag("text.size", obs[i]) : i \in { j \in DOMAIN obs : obs[j].s # "" /\
                ~ NLe(NAbs(NSub(obs[j].size, NInt(8))), NDec("1e-6")) } }

(***************************************************************************)
(* The status line.                                                          *)
(***************************************************************************)
StatusText(c, t, n) == StatusLine(c.timestamp, c.number, t, n, Len(doc.pages))
InCorner(t) == t.s # "" /\ I!AtPoint(t.at, StatusPoint)
\* the times that the corner of page n agrees with
Agrees(c, page, n) ==
  { i \in DOMAIN c.times : LET want == StatusText(c, c.times[i], n) IN
      IF want = "" THEN TRUE
      ELSE \E j \in DOMAIN page.texts : InCorner(page.texts[j]) /\ page.texts[j].s = want }
StatusTags(c, obs) ==
  LET n == Len(obs.pages)
      ok == { i \in DOMAIN c.times : \A p \in 1..n : i \in Agrees(c, obs.pages[p], p) } IN
  IF ok # {} THEN {}
  ELSE { Tag("status", [p \in 1..n |-> SelectSeq(obs.pages[p].texts, InCorner)]) }
WithStatus(c, ink, n) ==
  ink \o [i \in DOMAIN c.times |-> TextAt("status.alt", StatusPoint, StatusText(c, c.times[i], n))]

PageTags(c, obs, ink0, n) ==
  LET ink == Ready(ink0)
      segs == [i \in DOMAIN obs.lines |-> I!Prep(obs.lines[i])]
      \* the status line is judged by StatusTags
      texts == { t \in TextTags(WithStatus(c, ink0, n), obs.texts) :
                   t[1] \notin {"status.alt.place", "status.alt.content"} }
  IN  LineTags(ink, segs) \cup ArcTags(ink, obs.arcs) \cup texts
      \cup (IF obs.size = << NInt(792), NInt(612) >> THEN {} ELSE { Tag("page.size", obs.size) })
      \cup (IF obs.clean THEN {} ELSE { Tag("ps.unclean", n) })

NoteParts(s) == NonEmpty(Split(MapChars(s, LAMBDA c : IF c \in {CR, LF, "\f"} THEN LF ELSE c), LF))
HeaderTags(notes, what, s) ==
  IF \A i \in DOMAIN NoteParts(s) : \E n \in DOMAIN notes : HasSub(notes[n], NoteParts(s)[i]) THEN {}
  ELSE { Tag("header", << what, s >>) }

DocTags(c, obs, d) ==
  IF d.odd THEN { Tag("odd", d.err) }
  ELSE (IF d.err # "" THEN { Tag("ps.error", d.err) } ELSE {})
    \cup (IF d.rest THEN { Tag("ps.rest", "") } ELSE {})
    \cup (IF Len(d.pages) # Len(pages) THEN { Tag("pages.count", << Len(d.pages), Len(pages) >>) }
          ELSE UNION { PageTags(c, d.pages[n], pages[n], n) : n \in DOMAIN pages }
               \cup StatusTags(c, d))
    \cup HeaderTags(d.notes, "name", c.name) \cup HeaderTags(d.notes, "script", c.path)

(***************************************************************************)
(* Two documents that show the same drawing: obs.twin was written by another *)
(* run of the same inputs, obs.alike from other inputs for the same drawing. *)
(***************************************************************************)
SamePage(a, b) ==
  LET la == [i \in DOMAIN a.lines |-> I!Prep(a.lines[i])]
      lb == [i \in DOMAIN b.lines |-> I!Prep(b.lines[i])]
      Matches(x, ys, R(_, _)) == \A i \in DOMAIN x : \E j \in DOMAIN ys : R(x[i], ys[j])
      SameText(s, t) == s.s = t.s /\ I!AtPoint(s.at, t.at)
  IN  /\ a.size = b.size
      /\ \A i \in DOMAIN la : I!Covered(la[i], lb)
      /\ \A i \in DOMAIN lb : I!Covered(lb[i], la)
      /\ Matches(a.arcs, b.arcs, I!SameArc) /\ Matches(b.arcs, a.arcs, I!SameArc)
      /\ Matches(a.texts, b.texts, SameText) /\ Matches(b.texts, a.texts, SameText)
TwinTags(obs) ==
  IF "twin" \notin DOMAIN obs \/ obs.twin = obs.out THEN {}
  ELSE IF P!Document(obs.twin).pages = P!Document(obs.out).pages THEN {} ELSE { Tag("differs", "") }
AlikeTags(obs) ==
  IF "alike" \notin DOMAIN obs THEN {}
  ELSE LET a == P!Document(obs.out).pages
           b == P!Document(obs.alike).pages
       IN  IF Len(a) = Len(b) /\ \A n \in DOMAIN a : SamePage(a[n], b[n]) THEN {} ELSE { Tag("unlike", "") }

\* Only what holds for every document.
FormTags(d) ==
  IF d.odd THEN { Tag("odd", d.err) }
  ELSE (IF d.err # "" THEN { Tag("ps.error", d.err) } ELSE {})
    \cup (IF d.rest THEN { Tag("ps.rest", "") } ELSE {})
    \cup { Tag("ps.unclean", n) : n \in { p \in DOMAIN d.pages : ~ d.pages[p].clean } }

(***************************************************************************)
(* The verdict about a run.                                                  *)
(***************************************************************************)
Verdict ==
  LET c == In
      obs == c.obs
      ds == Diags(obs.stderr, c.path)
      ended == obs.status \in {0, 1} \/ (c.broken # "" /\ obs.status # 999)
  IN
  IF ~ ended THEN { Tag(IF obs.status = 999 THEN "hang" ELSE "crash", obs.status) }
  ELSE IF obs.status # 0
  THEN (IF c.broken # "output" /\ ~ NoPages(obs.out) THEN { Tag("partial", "") } ELSE {})
       \cup (IF unsure THEN (IF ds = <<>> /\ c.broken = "" THEN { Tag("rejected.silently", "") } ELSE {})
             ELSE IF Succeeds THEN RejectTags(ds)
             ELSE IF c.broken # "" THEN {}     \* it may not have come that far
             ELSE DiagTags(ds) \cup ColumnTags(ds))
  ELSE \* it succeeded
    TwinTags(obs) \cup
    IF unsure THEN FormTags(P!Document(obs.out))
              \cup (IF c.broken # "" THEN { Tag("accepted." \o c.broken, "") } ELSE {})
    ELSE IF ~ Succeeds
    THEN { Tag("accepted." \o k, UNION { faults[i].lns : i \in DOMAIN faults }) :
              k \in UNION { KindsOf(faults[i]) : i \in DOMAIN faults }
                    \cup (IF c.broken # "" THEN { c.broken } ELSE {}) }
    ELSE LET d == P!Document(obs.out) IN
         DocTags(c, obs, d) \cup AlikeTags(obs)
         \cup (IF ds # <<>> THEN { Tag("diag.spurious", ds) } ELSE {})

\* how much there was to compare
Size == [ok |-> Succeeds, unsure |-> unsure, faults |-> Len(faults), pages |-> Len(pages),
         ink |-> FoldLeft(LAMBDA a, p : a + Len(p), 0, pages)]

\* Of some runs only the outline is judged: light.
IsLight == "light" \in DOMAIN In
LightVerdict ==
  LET o == In.obs IN
  IF o.status = 999 THEN { Tag("hang", "") }
  ELSE IF o.status \notin {0, 1} THEN { Tag("crash", o.status) }
  ELSE IF o.status = 1
  THEN (IF HasSub(o.out, "showpage") THEN { Tag("partial", "") } ELSE {})
       \cup (IF HasSub(o.stderr, In.path \o ":") THEN {} ELSE { Tag("rejected.silently", "") })
  ELSE {}

Begin == IF IsLight THEN /\ pc = "parse" /\ pc' = "end"
                         /\ UNCHANGED << run, doc, models, faults, pages, at, cx, own, unsure >>
         ELSE Step

Judge ==
  /\ pc = "end"
  /\ pc' = "judged"
  /\ PrintT("VERDICT " \o ToString(run) \o " " \o ToJson([tags |-> { << t[1], ToString(t[2]) >> : t \in IF IsLight THEN LightVerdict ELSE Verdict }, size |-> Size]))
  /\ UNCHANGED << run, doc, models, faults, pages, at, cx, own, unsure >>

Next == Begin \/ Judge
=============================================================================
