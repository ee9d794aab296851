---------------------------- MODULE CoolTrace ----------------------------
(* Is a recorded history of a cooling system, or of a pack with its cooling, one the specification Cool.tla allows?        *)
EXTENDS Cool, Json
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, c, u
vars == <<l, c, u>>
Init == l = 0 /\ c = 0 /\ u = 0
Next ==
  /\ l < Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     /\ CASE e.op = "build" /\ e.lone -> Built(e) /\ LookOk(e.k, e) /\ c' = e
          [] e.op = "build" -> PackBuilt(e) /\ c' = e
          [] e.op \in {"ctrl", "setT", "dst", "strat", "reset", "copy"} -> Lone(c, u, e) /\ LookOk(c.k, e) /\ UNCHANGED c
          [] OTHER -> Pack(c, u, e) /\ UNCHANGED c
     /\ u' = e
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
