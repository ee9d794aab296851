---------------------------- MODULE CycTrace ----------------------------
(* Is a recorded execution of the cycler, call by call, one the monitor of Cyc.tla allows?                                *)
EXTENDS Cyc, Json
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, u, m
vars == <<l, u, m>>
Init == l = 0 /\ u = 0 /\ m = 0
Next ==
  /\ l < Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     CASE e.op = "build" -> u' = e /\ m' = 0
       [] e.op = "begin" -> m' = Start(e, u) /\ UNCHANGED u
       [] e.op = "setI" -> SetIOk(m, e) /\ m' = SetIUpd(m, e) /\ UNCHANGED u
       [] e.op = "setV" -> SetVOk(m, e) /\ m' = SetVUpd(m, e) /\ UNCHANGED u
       [] e.op = "store" -> StoreOk(m, e) /\ m' = StoreUpd(m, e) /\ UNCHANGED u
       [] e.op = "time" -> TimeOk(m, e) /\ m' = TimeUpd(m, e) /\ UNCHANGED u
       [] e.op = "seg" -> m' = SegUpd(m, e) /\ UNCHANGED u
       [] e.op = "restore" -> P("P27", "only the capacity test restores states", m.c.cmd = "cap") /\ m' = [m EXCEPT !.restored = TRUE] /\ UNCHANGED u
       [] e.op = "end" -> EndOk(m, e) /\ m' = 0 /\ UNCHANGED u
       [] OTHER -> UNCHANGED <<u, m>>
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
