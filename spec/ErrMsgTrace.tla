----------------------------- MODULE ErrMsgTrace -----------------------------
(* Recorded calls of the real reporter (obs.err, obs.out: what it wrote to   *)
(* stderr and stdout) against ErrMsg.                                         *)
EXTENDS Integers, Sequences, TLC, Trace, IOUtils

VARIABLES run, todo, log, judged
Cases == Recorded(IOEnv.CASES)
E == INSTANCE ErrMsg WITH Runs <- [i \in DOMAIN Cases |-> Cases[i].calls]

Init == E!Init /\ judged = FALSE
Tags == (IF log # Cases[run].obs.err THEN {<<"message", log>>} ELSE {})
        \cup (IF Cases[run].obs.out # "" THEN {<<"stdout", "">>} ELSE {})
Judge == /\ todo = <<>> /\ ~ judged /\ judged' = TRUE
         /\ PrintT("VERDICT " \o ToString(run) \o " " \o ToJson([tags |-> Tags, size |-> [calls |-> Len(Cases[run].calls)]]))
         /\ UNCHANGED << run, todo, log >>
Next == (E!Report /\ UNCHANGED judged) \/ Judge
OneLineEach == E!OneLineEach
=============================================================================
