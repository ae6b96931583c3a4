-------------------------------- MODULE Trace --------------------------------
(* Recorded runs, one JSON record a line.  TLC would read the file every time *)
(* one is mentioned; Trace.java keeps what was read.                          *)
EXTENDS Json
Recorded(file) == ndJsonDeserialize(file)
=============================================================================
