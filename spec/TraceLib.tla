------------------------------ MODULE TraceLib ------------------------------
(* Shared by the trace specifications: sessions recorded from the implementation, one JSON object per line
   {id, cfg, ev: [...]}.  A trace specification keeps `s` (session index) and `l` (next event) and reports, through
   registers, how far the longest behaviour got in each session.  Run with one worker. *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.SESSIONS)
NSessions == Len(Sessions)
InitRegs == \A i \in 1..NSessions : TLCSet(i, 0)
Note(s, l) == IF l - 1 > TLCGet(s) THEN TLCSet(s, l - 1) ELSE TRUE
Report == JsonSerialize(IOEnv.OUT, [furthest |-> [i \in 1..NSessions |-> TLCGet(i)]])
=============================================================================
