---------------------------- MODULE AgeTrace ----------------------------
(* Is a recorded life of a physics-based cell one the specification Age.tla allows?                                        *)
EXTENDS Age, Json
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, c, u
vars == <<l, c, u>>
Init == l = 0 /\ c = 0 /\ u = 0
Next ==
  /\ l < Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     /\ CASE e.op = "build" -> Built(e) /\ c' = e
          [] e.op = "step" -> StepOk(c, u, e) /\ UNCHANGED c
          [] OTHER -> CommandOk(e) /\ UNCHANGED c
     /\ LookOk(e)
     /\ u' = e
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
