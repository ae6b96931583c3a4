------------------------------- MODULE StlToPs -------------------------------
(***************************************************************************)
(* A run of stl-to-ps, step by step: the script is parsed, the models are    *)
(* loaded in order, then the pages are laid out, drawable by drawable and    *)
(* dimension by dimension; only if nothing was wrong the document is         *)
(* written.                                                                  *)
(*                                                                          *)
(* Inputs is a sequence of inputs, each a record                             *)
(*   script    the bytes of the script                                       *)
(*   cwd       the current directory (may be left out)                         *)
(*   loadpath  --load_path                                                   *)
(*   files     what is there to load: [path, kind, data] each, kind "file",   *)
(*             "dir" or "broken" (can be opened but not read)                *)
(*   broken    "" or what fails apart from all this: "script" (can't be read) *)
(*             or "output" (can't be written)                                *)
(* Every one of them is an initial state.                                    *)
(***************************************************************************)
EXTENDS Meaning

CONSTANT Inputs

VARIABLES
  run,      \* which input
  pc,       \* what is next
  doc,      \* the parsed script
  models,   \* name -> [ok, facets, unsure]
  faults,   \* what is wrong, a sequence of groups (see Group)
  pages,    \* the pages laid out so far, sequences of ink
  at,       \* [load, page, item, dim]: the statement that is next
  cx,       \* the scene of the current draw
  own,      \* the faults of the current draw
  unsure    \* rounding decides what happens

vars == << run, pc, doc, models, faults, pages, at, cx, own, unsure >>

In == Inputs[run]

(***************************************************************************)
(* The steps of a run.                                                       *)
(***************************************************************************)
Init ==
  /\ run \in DOMAIN Inputs
  /\ pc = "parse"
  /\ doc = [err |-> 0, tok |-> NoTok, loads |-> <<>>, pages |-> <<>>]
  /\ models = [x \in {} |-> 0]
  /\ faults = <<>>
  /\ pages = <<>>
  /\ at = [load |-> 1, page |-> 1, item |-> 1, dim |-> 1]
  /\ cx = NoScene
  /\ own = {}
  /\ unsure = FALSE

ParseScript ==
  /\ pc = "parse"
  /\ LET d == Parse(In.script) IN
     /\ doc' = d
     /\ faults' = IF d.err = 0 THEN <<>> ELSE << Group(d.err, { Mistake(d.err, "", "syntax") }) >>
     /\ pc' = IF d.err = 0 THEN "load" ELSE "end"
  /\ UNCHANGED << run, models, pages, at, cx, own, unsure >>

Load ==
  /\ pc = "load" /\ at.load <= Len(doc.loads)
  /\ LET ld == doc.loads[at.load]
         r == LoadResult(In, ld, models) IN
     /\ models' = [n \in DOMAIN models \cup {ld.name} |-> IF n = ld.name THEN r.m ELSE models[n]]
     /\ faults' = IF r.why = "" THEN faults
                  ELSE Append(faults, Group(ld.ln, { Mistake(ld.ln, "", r.why) }))
     \* a file that may or may not be read as a model
     /\ unsure' = (unsure \/ r.m.unsure)
     /\ at' = [at EXCEPT !.load = @ + 1]
  /\ UNCHANGED << run, pc, doc, pages, cx, own >>

\* Pages are only looked at when every model is there.
LoadsDone ==
  /\ pc = "load" /\ at.load > Len(doc.loads)
  /\ pc' = IF faults = <<>> THEN "page" ELSE "end"
  /\ UNCHANGED << run, doc, models, faults, pages, at, cx, own, unsure >>

Page == doc.pages[at.page]
Item == Page.items[at.item]
AddInk(ink) == [pages EXCEPT ![at.page] = @ \o ink]

BeginPage ==
  /\ pc = "page" /\ at.page <= Len(doc.pages)
  /\ faults' = faults \o Groups(Page.ln, PageBad(Page))
  /\ pages' = Append(pages, << Border >>)
  /\ pc' = "item"
  /\ UNCHANGED << run, doc, models, at, cx, own, unsure >>

DrawText ==
  /\ pc = "item" /\ at.item <= Len(Page.items) /\ Item.k = "text"
  /\ faults' = faults \o Groups(Item.ln, TextBad(Item))
  /\ pages' = AddInk(TextBlock(Item))
  /\ at' = [at EXCEPT !.item = @ + 1]
  /\ UNCHANGED << run, pc, doc, models, cx, own, unsure >>

BeginDraw ==
  /\ pc = "item" /\ at.item <= Len(Page.items) /\ Item.k = "draw"
  /\ own' = DrawBad(Item, models)
  /\ IF DrawBad1(Item, models) # {}
     THEN /\ cx' = NoScene
          /\ UNCHANGED << pages, unsure >>
     ELSE /\ cx' = Scene(Item, models)
          /\ pages' = AddInk(<< ModelInk(cx') >>)
          /\ unsure' = (unsure \/ cx'.unsure)
  /\ pc' = "dim"
  /\ UNCHANGED << run, doc, models, faults, at >>

\* A draw with mistakes may hide those of its dimensions.
AnnotateDraw ==
  /\ pc = "dim" /\ cx.ok /\ at.dim <= Len(Item.dims)
  /\ LET st == Item.dims[at.dim]
         a == Annotate(cx, st) IN
     /\ IF own = {}
        THEN /\ faults' = faults \o Groups(st.ln, a.bad)
             /\ own' = own
        ELSE /\ own' = LET bad == { Maybe(b) : b \in a.bad }
                       IN own \cup bad \cup { Mistake(st.ln, b.word, b.c) : b \in bad }
             /\ faults' = faults
     /\ pages' = AddInk(a.ink)
     /\ unsure' = (unsure \/ a.unsure)
     /\ at' = [at EXCEPT !.dim = @ + 1]
  /\ UNCHANGED << run, pc, doc, models, cx >>

EndDraw ==
  /\ pc = "dim" /\ (~ cx.ok \/ at.dim > Len(Item.dims))
  /\ faults' = faults \o Groups(Item.ln, own)
  /\ own' = {}
  /\ cx' = NoScene
  /\ at' = [at EXCEPT !.item = @ + 1, !.dim = 1]
  /\ pc' = "item"
  /\ UNCHANGED << run, doc, models, pages, unsure >>

EndPage ==
  /\ pc = "item" /\ at.item > Len(Page.items)
  /\ pages' = AddInk(Title(PageName(Page)))
  /\ at' = [at EXCEPT !.page = @ + 1, !.item = 1]
  /\ pc' = "page"
  /\ UNCHANGED << run, doc, models, faults, cx, own, unsure >>

\* All or nothing.
Finish ==
  /\ pc = "page" /\ at.page > Len(doc.pages)
  /\ pc' = "end"
  /\ UNCHANGED << run, doc, models, faults, pages, at, cx, own, unsure >>

Step == ParseScript \/ Load \/ LoadsDone \/ BeginPage \/ DrawText \/ BeginDraw \/ AnnotateDraw
        \/ EndDraw \/ EndPage \/ Finish

\* What the run does in the end.
Succeeds == faults = <<>> /\ In.broken = ""
=============================================================================
