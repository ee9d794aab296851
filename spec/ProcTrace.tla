---------------------------- MODULE ProcTrace ----------------------------
(* Is a recorded execution of the procedures one Proc.tla allows?                                                           *)
EXTENDS Proc, Json
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, k, m, d
vars == <<l, k, m, d>>
None == [f |-> NoFiles, pend |-> <<>>, ph |-> <<>>]
Init == l = 0 /\ k = "" /\ m = 0 /\ d = None
Next ==
  /\ l < Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     CASE e.op = "build" -> k' = e.k /\ m' = 0 /\ d' = None
       [] e.op = "bal" -> BalOk(e) /\ UNCHANGED <<k, m, d>>
       [] e.op = "checkup" -> CheckupOk(e) /\ UNCHANGED <<k, m, d>>
       [] e.op = "mods" -> ModsOk(e.want, e.got) /\ UNCHANGED <<k, m, d>>
       [] e.op \in {"cycle", "use", "cyc15"} -> m' = Begin(("k" :> k) @@ e) /\ d' = [d EXCEPT !.f = NoFiles] /\ UNCHANGED k
       [] e.op = "p" -> PhaseOk(m, e) /\ m' = PhaseUpd(m, e) /\ d' = [d EXCEPT !.ph = <<>>] /\ UNCHANGED k
       [] e.op = "cyc" -> d' = [d EXCEPT !.ph = <<>>] /\ UNCHANGED <<k, m>>
       [] e.op = "cyced" -> PhaseRows(d, e) /\ UNCHANGED <<k, m, d>>
       [] e.op = "fin" -> EndOk(m, e) /\ m' = 0 /\ UNCHANGED <<k, d>>
       [] e.op = "st" -> d' = Store(d, e) /\ UNCHANGED <<k, m>>
       [] e.op = "wr" -> d' = Write(d, e) /\ UNCHANGED <<k, m>>
       [] e.op = "copyw" -> d' = CopyWrite(d, e) /\ UNCHANGED <<k, m>>
       [] e.op = "files" -> FilesOk(d, e) /\ UNCHANGED <<k, m, d>>
       [] OTHER -> UNCHANGED <<k, m, d>>
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
