------------------------------ MODULE RuleTrace ------------------------------
(* The actions that rule.bzl declares for given targets, judged and run.       *)
EXTENDS Integers, Sequences, TLC, Trace, IOUtils
VARIABLES run, have, left, judged
Cases == Recorded(IOEnv.CASES)
R == INSTANCE Rule WITH Targets <- Cases

Init == R!Init /\ judged = FALSE
Judge == /\ R!Stuck /\ ~ judged /\ judged' = TRUE
         /\ PrintT("VERDICT " \o ToString(run) \o " " \o
              ToJson([tags |-> { << t[1], ToString(t[2]) >> : t \in R!DeclTags \cup R!Must(R!Done, "build", << left, have >>) },
                      size |-> [actions |-> Len(Cases[run].actions)]]))
         /\ UNCHANGED << run, have, left >>
Next == (R!Act /\ UNCHANGED judged) \/ Judge
=============================================================================
