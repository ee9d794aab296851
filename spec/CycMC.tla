------------------------------ MODULE CycMC ------------------------------
(* The cycler as it is built, call by call, on an arbitrary storage unit: the unit answers every call with any of a set of  *)
(* voltages, currents, statuses and failures. Checked exhaustively against the monitor of Cyc.tla, the same one recorded    *)
(* executions are checked against. Bug names a deliberately wrong cycler which must be rejected.                            *)
EXTENDS Cyc
CONSTANTS Cmds, Steps, Bug, Small2
VARIABLES m, a, ok
vars == <<m, a, ok>>
VLim == 3000000
U == [k |-> "any", cap |-> 1000, r |-> 200000, vmin |-> 2700000, vmax |-> 4200000, VMIN |-> 2000000, VMAX |-> 4300000, nc |-> 1]
VCh == {VLim - 300, VLim + 300, -3} \cup (IF Small2 THEN {} ELSE {VLim})
VCv == {VLim + 5000, VLim + 200000, 4400000}
ICv == {500000, 7000, 700, 0}
Args == { c \in [cmd : Cmds, I : {100000, -100000}, v : {VLim} , il : {10000}, tl : {0, 2500, Forever}, dt : {1000}, ndt : IF Small2 THEN {0, 2} ELSE {0, 1, 2, 3}, diag : BOOLEAN, thtm : {5000}, thah : {70}, thwh : {900},
                 I0 : {0, 40000}, V0 : {VLim - 300, VLim + 300, VLim + 5000}, faulty : {FALSE}, seq : {1}] :
            /\ c.cmd = "rest" => c.I > 0 /\ ~c.diag /\ c.tl < Forever /\ c.V0 = VLim - 300
            /\ c.cmd = "cv" => c.I > 0 /\ ~c.diag /\ c.tl < Forever
            /\ c.cmd = "cccv" => c.I > 0 /\ c.V0 # VLim + 5000
            /\ c.cmd = "cc" => c.V0 # VLim + 5000 }
\* the cycler: where it is, what it has counted in this phase (and in the earlier phase of CCCV), the current it wants
Alg(c) == [pc |-> CASE c.cmd = "cc" -> "cc0" [] c.cmd = "cv" -> "cv0" [] c.cmd = "rest" -> "r0" [] OTHER -> "z0",
           t |-> 0, idat |-> 0, n |-> 0, tm |-> 0, ah |-> 0, wh |-> 0, tm1 |-> 0, ah1 |-> 0, wh1 |-> 0, I |-> c.I, I0 |-> c.I0, V |-> c.V0, vs |-> 0, cur |-> c.I0, st |-> 99, stores |-> 0, tl |-> c.tl, reason |-> 99]
Init == \E c \in Args : m = Start(c, U) /\ a = Alg(c) /\ ok = TRUE
C == m.c
To(pc) == [a EXCEPT !.pc = pc]
Internal(b) == a' = b /\ UNCHANGED <<m, ok>>
Call(okk, mm, b) == ok' = okk /\ m' = mm /\ a' = b
EndCC(st) == IF C.cmd = "cccv" THEN [a EXCEPT !.pc = "cv0", !.reason = st, !.tm1 = a.tm, !.ah1 = a.ah, !.wh1 = a.wh, !.tm = 0, !.ah = 0, !.wh = 0, !.tl = IF C.tl = Forever THEN Forever ELSE C.tl - a.tm, !.t = 0, !.idat = 0, !.n = 0]
             ELSE [a EXCEPT !.pc = "end", !.st = st]
\* data point
Store(pc) == IF C.ndt > 0 THEN LET e == [op |-> "store"] IN Call(StoreOk(m, e), StoreUpd(m, e), [a EXCEPT !.pc = pc, !.stores = a.stores + 1]) ELSE Internal(To(pc))
\* set current x: status st, current afterwards, voltage afterwards
SetI(x, st, v, b) == LET i == IF Bad(st) THEN a.cur ELSE x
                         e == [op |-> "setI", x |-> x, st |-> st, V |-> v, I |-> i, pV |-> a.V] IN
                     Call(SetIOk(m, e), SetIUpd(m, e), [b EXCEPT !.cur = i, !.V = v])
Step(dti, k, exc, v, i, vs, b) ==
  LET e == [op |-> "time", dt |-> dti, k |-> k, pI |-> a.cur, pV |-> a.V, V |-> v, I |-> i, vs |-> vs, exc |-> exc] IN
  Call(TimeOk(m, e), TimeUpd(m, e), IF exc # 0 THEN b ELSE [b EXCEPT !.V = v, !.cur = i, !.vs = vs])
Dti == IF Bug = "over" THEN C.dt ELSE Min2(C.dt, a.tl - a.t)
KMax == IF C.ndt > 0 /\ Bug # "stride" THEN Min2(2, C.ndt) ELSE 2
Ks == { k \in 1 .. KMax : k = 1 \/ k * C.dt <= a.tl - a.t }
Q(i, ms) == MulDiv2(Abs(i), ms, 360, 100)

(* ---------------------------------------------------------------- constant current *)
Cross(x, v0, v) == IF Bug = "limit" THEN (IF x < 0 /\ v0 <= C.v /\ v > C.v THEN TRUE ELSE v0 >= C.v /\ v < C.v)
                   ELSE (x < 0 /\ v0 <= C.v /\ v > C.v) \/ (x > 0 /\ v0 >= C.v /\ v < C.v)
CC0 == a.pc = "cc0" /\ Store("cc1")
CC1 == /\ a.pc = "cc1" /\ \E st \in {0, 2, 12}, v \in VCh \ {-3} :
          LET vn == IF st = 12 THEN a.V ELSE v IN
          /\ st = 12 => v = VLim - 300
          /\ st = 2 => C.diag
          /\ SetI(a.I, st, vn, IF st # 0 THEN [a EXCEPT !.pc = "ccr", !.I0 = a.cur, !.st = st]
                               ELSE IF Cross(a.I, a.V, vn) \/ Past(a.I, vn, C.v) THEN EndCC(Volt)
                               ELSE [a EXCEPT !.pc = "ccl"])
CCr == a.pc = "ccr" /\ IF Bug = "restore" THEN Internal(EndCC(a.st)) ELSE SetI(a.I0, 0, a.V, EndCC(a.st))
CCl == /\ a.pc = "ccl" /\ a.n < Steps
       /\ IF a.t >= a.tl THEN Internal([a EXCEPT !.pc = "ccf", !.st = Time])
          ELSE \E st \in {0, 12} : SetI(IF Bug = "half" THEN a.I \div 2 ELSE a.I, st, a.V, IF st # 0 THEN [a EXCEPT !.pc = "ccr", !.I0 = a.cur, !.st = st] ELSE To("cct"))
CCt == /\ a.pc = "cct"
       /\ \E exc \in {0, 77}, k \in Ks, v \in VCh, vs \in {0, 2} :
            /\ exc # 0 => k = 1 /\ vs = 0 /\ v = VLim - 300
            /\ v < 0 => vs = 0
            /\ LET d == IF k = 1 THEN Dti ELSE C.dt  q == Q(a.I, d * k)
                   ended == (C.diag /\ vs # 0 /\ Bug # "diag") \/ v <= 0
                   b0 == [a EXCEPT !.t = a.t + d * k, !.n = a.n + 1, !.idat = a.idat + k]
                   b1 == IF ended /\ Bug = "thru" THEN b0 ELSE [b0 EXCEPT !.tm = a.tm + d * k, !.ah = a.ah + q, !.wh = a.wh + (IF Bug = "volt" THEN q \div 3 ELSE MulDiv(q, v, 10000000))]
                   b2 == [b1 EXCEPT !.pc = IF C.ndt > 0 /\ b1.idat >= C.ndt THEN "ccs" ELSE "ccv"]
                   fin(st) == IF C.cmd = "cccv" THEN [b1 EXCEPT !.pc = "cv0", !.reason = st, !.tm1 = b1.tm, !.ah1 = b1.ah, !.wh1 = b1.wh, !.tm = 0, !.ah = 0, !.wh = 0, !.tl = IF C.tl = Forever THEN Forever ELSE C.tl - b1.tm, !.t = 0, !.idat = 0, !.n = 0]
                              ELSE [b1 EXCEPT !.pc = "end", !.st = st] IN
               Step(d, k, exc, v, a.cur, vs, IF exc # 0 THEN EndCC(StepFail) ELSE IF C.diag /\ vs # 0 /\ Bug # "diag" THEN fin(vs) ELSE IF v <= 0 THEN fin(NoVolt) ELSE b2)
CCs == a.pc = "ccs" /\ LET e == [op |-> "store"] IN Call(StoreOk(m, e), StoreUpd(m, e), [a EXCEPT !.pc = "ccv", !.idat = IF Bug = "idat" THEN 0 - C.ndt ELSE 0, !.stores = a.stores + 1])
CCv == a.pc = "ccv" /\ Internal(IF Past(a.I, a.V, C.v) /\ Bug # "late" THEN [a EXCEPT !.pc = "ccf", !.st = IF a.t >= a.tl THEN Time ELSE Volt] ELSE To("ccl"))
CCf == a.pc = "ccf" /\ IF C.ndt > 0 /\ Bug # "final" THEN LET e == [op |-> "store"] IN Call(StoreOk(m, e), StoreUpd(m, e), [EndCC(a.st) EXCEPT !.stores = a.stores + 1]) ELSE Internal(EndCC(a.st))
(* ---------------------------------------------------------------- constant voltage *)
At(v) == IF Bug = "notol" THEN TRUE ELSE Abs(v - C.v) < 10000 \/ Abs(v - C.v) * 1000 < C.v
CV0 == a.pc = "cv0" /\ Store("cv1")
CV1 == a.pc = "cv1" /\ Internal(IF Abs(a.cur) < C.il /\ At(a.V) THEN [a EXCEPT !.pc = "end", !.st = Curr] ELSE To("cvl"))
CVl == /\ a.pc = "cvl" /\ a.n < Steps
       /\ IF a.t >= a.tl THEN Internal([a EXCEPT !.pc = "cvf", !.st = Time])
          ELSE IF Bug = "hold" /\ a.n > 0 THEN Internal(To("cvt"))
          ELSE \E st \in {0, 12}, i \in ICv :
                 LET v == IF Bug = "vset" THEN C.v + 30000 ELSE C.v  vn == IF st = 0 THEN v ELSE a.V  in == IF st = 0 THEN i ELSE a.cur
                     e == [op |-> "setV", x |-> v, st |-> st, exc |-> 0, V |-> vn, I |-> in] IN
                 Call(SetVOk(m, e), SetVUpd(m, e), [a EXCEPT !.pc = "cvt", !.V = vn, !.cur = in])
CVt == /\ a.pc = "cvt"
       /\ \E exc \in {0, 77}, v \in VCv :
            /\ exc # 0 => v = VLim + 5000
            /\ LET d == Dti  q == Q(a.cur, d)
                   b == [a EXCEPT !.pc = IF C.ndt > 0 /\ (a.n + 1) % C.ndt = 0 THEN "cvs" ELSE "cvv", !.t = a.t + d, !.n = a.n + 1, !.tm = a.tm + d, !.ah = a.ah + q, !.wh = a.wh + MulDiv(q, v, 10000000)] IN
               Step(d, 1, exc, v, a.cur, 0, IF exc # 0 THEN [a EXCEPT !.pc = "end", !.st = StepFail] ELSE b)
CVs == a.pc = "cvs" /\ Store("cvv")
CVv == a.pc = "cvv" /\ Internal(IF a.V > MulDiv(U.VMAX, 101, 100) /\ Bug # "safety" THEN [a EXCEPT !.pc = "end", !.st = 6]
                                ELSE IF Abs(a.cur) < C.il /\ At(a.V) /\ Bug # "ilim" THEN [a EXCEPT !.pc = "cvf", !.st = IF a.t >= a.tl THEN Time ELSE Curr]
                                ELSE IF (Abs(a.cur) < C.il \div 10) /\ Bug # "ilim" THEN [a EXCEPT !.pc = "cvf", !.st = IF a.t >= a.tl THEN Time ELSE Small]
                                ELSE To("cvl"))
CVf == a.pc = "cvf" /\ Store("end")
(* ---------------------------------------------------------------- both: the direction first *)
Z0 == a.pc = "z0" /\ \E v \in {VLim - 300, VLim + 300} : SetI(0, 0, v, [a EXCEPT !.pc = "cc0", !.I = IF (v > C.v) = (Bug # "sign") THEN Abs(C.I) ELSE 0 - Abs(C.I)])
(* ---------------------------------------------------------------- rest *)
R0 == a.pc = "r0" /\ Store("rl")
Rl == /\ a.pc = "rl"
      /\ IF a.t >= a.tl THEN SetI(0, 0, a.V, To("rf"))
         ELSE IF Bug = "idle" THEN Internal(To("rt"))
         ELSE \E st \in {0, 12} : SetI(0, st, a.V, IF st # 0 THEN [a EXCEPT !.pc = "end", !.st = st] ELSE To("rt"))
Rt == a.pc = "rt" /\ \E k \in { k \in 1 .. (IF C.ndt > 0 THEN Min2(3, C.ndt) ELSE 3) : k = 1 \/ k * C.dt <= a.tl - a.t } :
        LET d == IF k = 1 THEN Dti ELSE C.dt IN
        Step(d, k, 0, a.V, a.cur, 0, [a EXCEPT !.pc = "rv", !.t = a.t + d * k, !.tm = IF Bug = "rtime" THEN C.tl ELSE a.tm + d * k, !.idat = a.idat + k])
Rv == a.pc = "rv" /\ IF C.ndt > 0 /\ a.idat >= C.ndt THEN LET e == [op |-> "store"] IN Call(StoreOk(m, e), StoreUpd(m, e), [a EXCEPT !.pc = "rl", !.idat = 0, !.stores = a.stores + 1]) ELSE Internal(To("rl"))
Rf == a.pc = "rf" /\ IF C.ndt > 0 THEN LET e == [op |-> "store"] IN Call(StoreOk(m, e), StoreUpd(m, e), [a EXCEPT !.pc = "end", !.st = Time, !.stores = a.stores + 1]) ELSE Internal([a EXCEPT !.pc = "end", !.st = Time])
(* ---------------------------------------------------------------- the result *)
End == /\ a.pc = "end"
       /\ LET e == [op |-> "end", st |-> a.st, exc |-> 0, tm |-> C.thtm + a.tm + (IF Bug = "first" THEN 0 ELSE a.tm1), ah |-> C.thah + a.ah + a.ah1, wh |-> C.thwh + a.wh + a.wh1,
                    I |-> a.cur, V |-> a.V, same |-> FALSE, cah |-> 0, ctm |-> 0, ret |-> 0, stores |-> a.stores] IN
          Call(EndOk(m, e), m, To("done"))
Next == ok /\ (CC0 \/ CC1 \/ CCr \/ CCl \/ CCt \/ CCs \/ CCv \/ CCf \/ CV0 \/ CV1 \/ CVl \/ CVt \/ CVs \/ CVv \/ CVf \/ Z0 \/ R0 \/ Rl \/ Rt \/ Rv \/ Rf \/ End)
Spec == Init /\ [][Next]_vars
Sound == ok
Progress == (a.pc # "done" /\ ~(a.pc \in {"ccl", "cvl"} /\ a.n >= Steps)) => ENABLED Next
Inv == Sound
==========================================================================
