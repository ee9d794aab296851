---------------------------- MODULE UtilTrace ----------------------------
(* Are the recorded calls of the utilities what the specification Util.tla allows?                                          *)
EXTENDS Util, Json
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, h
vars == <<l, h>>
Init == l = 0 /\ h = 0
Next == /\ l < Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l + 1] IN One(h, e) /\ h' = IF e.op = "hist" THEN e ELSE h
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
