-------------------------------- MODULE Rule --------------------------------
(***************************************************************************)
(* The Bazel rules (rule.bzl): the actions a target declares, and what        *)
(* happens when they run in a sandbox that holds nothing but their inputs.    *)
(*                                                                            *)
(* A target is [kind, label, main |-> file, deps |-> files, out |-> file,      *)
(* tool |-> path, actions]; a file is [root, short, path], an action            *)
(* [exe, argv, inputs, outputs].                                              *)
(***************************************************************************)
EXTENDS Chars, FiniteSets

VARIABLES run, have, left

CONSTANT Targets
T == Targets[run]

Paths(fs) == { fs[i].path : i \in DOMAIN fs }
Elems(seq) == { seq[i] : i \in DOMAIN seq }

(***************************************************************************)
(* Running: an action needs its inputs, and leaves its outputs.               *)
(***************************************************************************)
Init == /\ run \in DOMAIN Targets
        /\ have = {T.main.path} \cup Paths(T.deps)
        /\ left = DOMAIN T.actions
Can(a) == Elems(T.actions[a].inputs) \subseteq have \cup {T.tool}
Act == \E a \in left :
         /\ Can(a)
         /\ have' = have \cup Elems(T.actions[a].outputs)
         /\ left' = left \ {a}
         /\ UNCHANGED run
Stuck == \A a \in left : ~ Can(a)
Done == left = {} /\ T.out.path \in have

(***************************************************************************)
(* Command lines.                                                             *)
(***************************************************************************)
EqAt(s) == LET e == { i \in 1..Len(s) : Ch(s, i) = "=" } IN
           IF e = {} THEN 0 ELSE CHOOSE i \in e : \A j \in e : i <= j
\* [flags |-> <<name, value>> pairs, rest |-> the other arguments]
Command(argv) ==
  LET r == FoldLeft(LAMBDA a, i :
             LET s == argv[i] e == EqAt(s) IN
             IF a.flag # "" THEN [a EXCEPT !.flags = Append(@, << a.flag, s >>), !.flag = ""]
             ELSE IF StartsWith(s, "--")
             THEN IF e = 0 THEN [a EXCEPT !.flag = From(s, 3)]
                  ELSE [a EXCEPT !.flags = Append(@, << SubSeq(s, 3, e - 1), From(s, e + 1) >>)]
             ELSE IF s = "-o" THEN [a EXCEPT !.flag = "o"]
             ELSE IF StartsWith(s, "-o") THEN [a EXCEPT !.flags = Append(@, << "o", From(s, 3) >>)]
             ELSE [a EXCEPT !.rest = Append(@, s)],
             [flags |-> <<>>, flag |-> "", rest |-> <<>>], Range1(Len(argv)))
  IN  [flags |-> r.flags \o (IF r.flag = "" THEN <<>> ELSE << << r.flag, "" >> >>), rest |-> r.rest]
Values(c, f) == [i \in 1..Cardinality({ j \in DOMAIN c.flags : c.flags[j][1] = f }) |->
                   SelectSeq(c.flags, LAMBDA x : x[1] = f)[i][2]]

Roots == { f.root : f \in {T.main} \cup Elems(T.deps) } \ {""}

Bad(t, x) == { << t, x >> }
Must(p, t, x) == IF p THEN {} ELSE Bad(t, x)

(***************************************************************************)
(* What is wrong with the declared actions.                                   *)
(***************************************************************************)
By(exe) == { a \in DOMAIN T.actions : T.actions[a].exe = exe }

PsTags(a) ==
  LET act == T.actions[a]
      c == Command(act.argv)
      lp == FoldLeft(LAMBDA x, i : x \o NonEmpty(Split(Values(c, "load_path")[i], ",")), <<>>,
                     Range1(Len(Values(c, "load_path"))))
  IN  Must(Elems(act.inputs) \ {T.tool} = {T.main.path} \cup Paths(T.deps), "inputs", act.inputs)
      \cup Must(Len(act.outputs) = 1, "outputs", act.outputs)
      \cup Must(Values(c, "output") = act.outputs, "args.output", act.argv)
      \cup Must(Values(c, "script") = << T.main.path >>, "args.script", act.argv)
      \cup Must(Values(c, "name") = << T.label >>, "args.name", act.argv)
      \cup Must(Elems(lp) = Roots /\ Len(lp) = Cardinality(Roots) /\ Len(Values(c, "load_path")) <= 1, "args.load_path", act.argv)
      \cup Must(c.rest = <<>> /\ \A i \in DOMAIN c.flags : c.flags[i][1] \in {"output", "script", "name", "load_path"},
                "args.other", act.argv)

PdfTags(a, ps) ==
  LET act == T.actions[a] IN
  Must(Elems(act.inputs) = Elems(ps), "pdf.inputs", act.inputs)
  \cup Must(act.outputs = << T.out.path >>, "pdf.outputs", act.outputs)
  \cup Must(Command(act.argv).rest = ps \o << T.out.path >>, "pdf.args", act.argv)

ScadTags(a) ==
  LET act == T.actions[a] c == Command(act.argv) IN
  Must(Elems(act.inputs) = {T.main.path} \cup Paths(T.deps), "scad.inputs", act.inputs)
  \cup Must(act.outputs = << T.out.path >>, "scad.outputs", act.outputs)
  \cup Must(c.rest = << T.main.path >> /\ c.flags = << << "o", T.out.path >> >>, "scad.args", act.argv)

DeclTags ==
  IF T.kind = "stl2pdf"
  THEN IF Len(T.actions) # 2 \/ Cardinality(By(T.tool)) # 1 \/ Cardinality(By("ps2pdf")) # 1
       THEN Bad("actions", [a \in DOMAIN T.actions |-> T.actions[a].exe])
       ELSE LET a == CHOOSE x \in By(T.tool) : TRUE
                b == CHOOSE x \in By("ps2pdf") : TRUE
            IN  PsTags(a) \cup PdfTags(b, T.actions[a].outputs)
  ELSE IF Len(T.actions) # 1 \/ By("openscad") = {}
       THEN Bad("actions", [a \in DOMAIN T.actions |-> T.actions[a].exe])
       ELSE ScadTags(1)
=============================================================================
