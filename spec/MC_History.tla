------------------------------ MODULE MC_History ------------------------------
(***************************************************************************)
(* Sequences of drawables from a menu, with page breaks among them, so that   *)
(* every kind of drawable comes after every other, on the same page and on    *)
(* the next.  Laws: a page carries its frame and what each of its drawables   *)
(* puts there when it is the only one; the content of a page that is finished *)
(* doesn't change; a page is only begun after the one before it is finished.  *)
(***************************************************************************)
EXTENDS StlToPs, Json
CONSTANT Most

Tetra == "facet normal 0 0 -1\nvertex 0 0 0\nvertex 0 5 0\nvertex 3 0 0\nendfacet\nfacet normal 0 -7 1\nvertex 0 0 0\nvertex 3 0 0\nvertex 1 1 7\nendfacet\n"
         \o "facet normal -7 0 1\nvertex 0 0 0\nvertex 1 1 7\nvertex 0 5 0\nendfacet\nfacet normal 35 21 7\nvertex 3 0 0\nvertex 0 5 0\nvertex 1 1 7\nendfacet\n"
Square == "facet normal 0 0 1\nvertex -2 -2 0\nvertex 2 -2 0\nvertex 2 2 0\nendfacet\nfacet normal 0 0 1\nvertex -2 -2 0\nvertex 2 2 0\nvertex -2 2 0\nendfacet\n"
\* "" is a page break
Menu == << "draw m { }",
           "draw m { scale = 1 : 3; dim(at = [1, -1, 0], dir = [1, 0, 0], from = [0, 0, 0], to = near([9, 0, 0])); }",
           "draw m { view = \"X+\"; @[-2.5, 1]; dim(at = [0, 1, 8], dir = [0, 1, 0], from = [0, 0, 0], to = near([1, 5, 0]), fmt = \"w %.1f\"); }",
           "draw m { view = [30, 40]; scale = 1 : 2; }",
           "draw n { @[2, -2]; dia(at = [3, 3, 0], dir = [1, 2, 0], center = [0, 0, 0]); angle(at = [0, 3, 0], apex = [0, 0, 0], from_dir = [1, 0, 0], to_point = near([2, 2, 0])); }",
           "draw n { view = \"Z-\"; }",
           "draw n { view = \"Y-\"; scale = 2 : 1; dim(at = [0, 0, 1], dir = [1, 0, 0], from = [-2, 0, 0], to = [0, 0, 0]); }",
           "text [\"one\\ntwo\"] { @[-4, 3]; }",
           "text [\"three\"] { }",
           "" >>
Break == Len(Menu)
Seqs == UNION { [1..n -> DOMAIN Menu] : n \in 1..Most }
List == SetToSeq(Seqs)
FilesOf == << [path |-> "m.stl", kind |-> "file", data |-> Tetra], [path |-> "n.stl", kind |-> "file", data |-> Square] >>
PageText(i) == "name = \"Page\"; " \o Menu[i]
ScriptOf(q) == "load m = \"m.stl\";\nload n = \"n.stl\";\npage {\n"
               \o FoldLeft(LAMBDA a, i : a \o (IF i = Break THEN "}\npage { name = \"Next\";\n" ELSE Menu[i] \o "\n"), "", q) \o "}\n"
InputOf(q) == [script |-> ScriptOf(q), loadpath |-> "", files |-> FilesOf, broken |-> ""]
AllInputs == [i \in DOMAIN List |-> InputOf(List[i])]
Seq_ == List[run]

Tell == /\ pc = "end" /\ pc' = "told" /\ UNCHANGED << run, doc, models, faults, pages, at, cx, own, unsure >>
        /\ PrintT("CASE " \o ToJson([script |-> In.script, files |-> [i \in DOMAIN In.files |-> << In.files[i].path, In.files[i].data >>]]))
Next == Step \/ Tell

\* What the menu's items put on a page, each by itself.
Loaded == [n \in {"m", "n"} |-> LET s == ReadStl(IF n = "m" THEN Tetra ELSE Square) IN [ok |-> TRUE, facets |-> s.out, unsure |-> s.unsure]]
ItemOf(i) == Parse("page { " \o Menu[i] \o " }").pages[1].items[1]
\* as numbers of lines and columns differ, items are compared without them
Inks(i) == LET it == ItemOf(i) IN
           IF it.k = "text" THEN TextBlock(it)
           ELSE LET s == Scene(it, Loaded) IN
                << ModelInk(s) >> \o FoldLeft(LAMBDA a, d : a \o Annotate(s, d).ink, <<>>, it.dims)
Alone == [i \in DOMAIN Menu |-> IF i = Break THEN <<>> ELSE Inks(i)]

\* the sequence, as pages
Parts_ == FoldLeft(LAMBDA a, i : IF i = Break THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, i)], << <<>> >>, Seq_)
PageInk(k) == << Border >> \o FoldLeft(LAMBDA a, i : a \o Alone[i], <<>>, Parts_[k]) \o Title(IF k = 1 THEN "" ELSE "Next")
Done == pc \in {"end", "told"}
Fine == faults = <<>> /\ ~ unsure
Sum_ == Done => Len(pages) = Len(Parts_) /\ \A k \in DOMAIN pages : pages[k] = PageInk(k)
Finished == \A k \in DOMAIN pages : k < at.page => pages[k] = PageInk(k)
InOrder == Len(pages) <= at.page /\ Len(pages) >= at.page - 1
=============================================================================
