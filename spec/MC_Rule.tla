------------------------------- MODULE MC_Rule -------------------------------
(* All small targets of both rules, printed for rule.bzl to be run on.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES t, told

Gen == "bazel-out/k8-fastbuild/bin"
Host == "bazel-out/host/genfiles"
F(r, s) == [root |-> r, short |-> s]
Pool == { F("", "pkg/a.stl"), F("", "pkg/b.stl"), F(Gen, "pkg/c.stl"), F(Gen, "other/dir/d.stl"), F(Host, "e.stl") }
\* sequences of at most three different files
Deps == UNION { { s \in [1..n -> Pool] : Cardinality({ s[i] : i \in 1..n }) = n } : n \in 0..3 }
Mains == { F("", "pkg/in.script"), F(Gen, "pkg/gen.script"), F("", "top.script") }
Outs == { << "pkg", F(Gen, "pkg/out.pdf"), "doc" >>, << "", F(Gen, "doc.pdf"), "my-doc_1" >>,
          << "pkg", F(Gen, "pkg/sub/out.pdf"), "doc2" >>, << "a/b", F(Gen, "a/b/o.pdf"), "x/y" >> }
Init == /\ told = FALSE
        /\ t \in { [kind |-> k, package |-> o[1], out |-> o[2], label |-> o[3], main |-> m, deps |-> d] :
                     k \in {"stl2pdf", "scad_binary"}, o \in Outs, m \in Mains, d \in Deps }
Next == ~ told /\ told' = TRUE /\ UNCHANGED t /\ PrintT("CASE " \o ToJson(t))
=============================================================================
