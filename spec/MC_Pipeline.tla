----------------------------- MODULE MC_Pipeline -----------------------------
(***************************************************************************)
(* The run of the program as a state machine, over all scripts of up to Most  *)
(* blocks, each right or wrong in one way.  Checked in all states: what was   *)
(* laid out and what was found wrong stays; nothing is laid out before all    *)
(* models are loaded.  At the end: the run succeeds exactly when no block is  *)
(* wrong, and then has one page per page block; every wrong block is reported *)
(* (wrong pages aren't looked at when a load is wrong, and nothing else when  *)
(* the syntax is).  And every run ends.                                       *)
(***************************************************************************)
EXTENDS StlToPs, Json
CONSTANT Most

Tri == "facet normal 0 0 1\nvertex 0 0 0\nvertex 4 0 0\nvertex 1 3 0\nendfacet\n"
Tri2 == "facet normal 0 0 1\nvertex 0 0 0\nvertex 2 0 0\nvertex 0 2 1\nendfacet\n"
Dimension == "dim(at = [0, 4, 0], dir = [1, 0, 0], from = [0, 0, 0], to = near([9, 0, 0]));"
\* [s |-> text, k |-> "load" or "page", ok |-> is it right]
Load_(s, ok) == [s |-> s, k |-> "load", ok |-> ok]
Page_(s, ok) == [s |-> "page { " \o s \o " }", k |-> "page", ok |-> ok]
Blocks == <<
  Load_("load n = \"n.stl\";", TRUE),
  Load_("load o = \"no.stl\";", FALSE),
  Load_("load p = \"bad.stl\";", FALSE),
  Load_("load q = \"dir\";", FALSE),
  Load_("load m = \"n.stl\";", FALSE),
  Page_("", TRUE),
  Page_("name = \"A\"; text [\"t\"] { @[1, 2]; }", TRUE),
  Page_("draw m { }", TRUE),
  Page_("draw m { scale = 1 : 2; " \o Dimension \o " } draw m { @[-3, 1]; }", TRUE),
  Page_("draw n { view = \"X-\"; }", FALSE),
  Page_("draw m { scale = 0 : 1; }", FALSE),
  Page_("draw m { view = 3; } text [\"u\"] { }", FALSE),
  Page_("draw m { dim(at = [0, 4, 0], dir = [0, 0, 0], from = [0, 0, 0], to = [1, 0, 0]); }", FALSE),
  Page_("text [\"v\"] { @[1, 1]; @[1, 2]; }", FALSE),
  Page_("name = \"A\"; name = \"B\";", FALSE),
  Page_("draw m { dim(at = [0, 4, 0]); " \o Dimension \o " dia(at = [1, 2, 3], dir = [1, 0, 0], center = near([0, 0, 0]), fmt = \"x\"); }", FALSE),
  [s |-> "page { draw }", k |-> "syntax", ok |-> FALSE],
  [s |-> "} ", k |-> "syntax", ok |-> FALSE] >>
Seqs == UNION { [1..n -> DOMAIN Blocks] : n \in 0..Most }
List == SetToSeq(Seqs)
FilesOf == << [path |-> "m.stl", kind |-> "file", data |-> Tri], [path |-> "n.stl", kind |-> "file", data |-> Tri2],
              [path |-> "bad.stl", kind |-> "file", data |-> Tri \o "vertex\n"], [path |-> "dir", kind |-> "dir", data |-> ""] >>
ScriptOf(q) == "load m = \"m.stl\";\n" \o Join([i \in DOMAIN q |-> Blocks[q[i]].s], "\n") \o "\n"
AllInputs == [i \in DOMAIN List |-> [script |-> ScriptOf(List[i]), loadpath |-> "", files |-> FilesOf, broken |-> ""]]

Seq_ == List[run]
\* a model may be loaded later than a page that draws it, but not twice
Twice(q, i) == Blocks[q[i]].k = "load" /\ \E j \in 1..(i - 1) : q[j] = q[i] /\ q[i] = 1
Known(q) == \E j \in DOMAIN q : q[j] = 1
OkAt(q, i) == LET b == Blocks[q[i]] IN (b.ok /\ ~ Twice(q, i)) \/ (q[i] = 10 /\ Known(q))
Right(q) == \A i \in DOMAIN q : OkAt(q, i)
Count(q, kd) == Cardinality({ i \in DOMAIN q : Blocks[q[i]].k = kd })
Wrong(q, kd) == { i \in DOMAIN q : Blocks[q[i]].k = kd /\ ~ OkAt(q, i) }

Tell == /\ pc = "end" /\ pc' = "told" /\ UNCHANGED << run, doc, models, faults, pages, at, cx, own, unsure >>
        /\ PrintT("CASE " \o ToJson([script |-> In.script, files |-> [i \in DOMAIN In.files |-> << In.files[i].path, In.files[i].data, In.files[i].kind >>]]))
Next == Step \/ Tell
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc \in {"end", "told"}
Outcome == Done => Succeeds = Right(Seq_)
PageCount == Done /\ Succeeds => Len(pages) = Count(Seq_, "page")
\* The syntax comes first, then the loading, then the pages
Reported == Done =>
  LET q == Seq_ IN
  IF Wrong(q, "syntax") # {} THEN Len(faults) = 1
  ELSE IF Wrong(q, "load") # {} THEN Len(faults) = Cardinality(Wrong(q, "load"))
  ELSE Len(faults) >= Cardinality(Wrong(q, "page"))
       /\ \A i \in Wrong(q, "page") : \E f \in DOMAIN faults : \E l \in faults[f].lns : l = i + 1
Places == \A i \in DOMAIN faults : \A l \in faults[i].lns : l \in 2..(Len(Seq_) + 2)
LoadedFirst == pages # <<>> => Wrong(Seq_, "load") = {} /\ at.load > Len(doc.loads)
\* what was found and laid out stays
IsPrefix_(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Grows == [][IsPrefix_(faults, faults') /\ Len(pages) <= Len(pages')
            /\ \A i \in 1..(Len(pages) - 1) : pages[i] = pages'[i]
            /\ \A n \in DOMAIN models : n \in DOMAIN models' /\ models'[n] = models[n]]_vars
Ends == <>(pc = "told")
=============================================================================
