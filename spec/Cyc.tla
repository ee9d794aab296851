------------------------------- MODULE Cyc -------------------------------
(* The cycler: commands (constant current, constant voltage, both, rest, capacity test) which act on a storage unit only    *)
(* through a few calls: set a current or voltage, advance in time, store a data point. The monitor below follows one        *)
(* command as a sequence of such calls and says which call may come next and with which result the command may end.        *)
(* CycMC.tla checks a model of the cycler on an arbitrary unit against it, CycTrace.tla recorded executions.               *)
(* Units: current 1e-5 A, voltage 1 uV, time 1 ms, throughput 1e-7 Ah and 1 uWh, capacity 1 mAh.                            *)
EXTENDS Num, TLC
CONSTANT Clauses
Chk(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", name>>) /\ FALSE
P(c, name, b) == IF c \in Clauses THEN Chk(name, b) ELSE TRUE

Curr == -6  Volt == -5  Time == -4  Small == -3  BadV == -2  NoVolt == 7  StepFail == 13     \* why a command ended
Bad(st) == st >= 3 /\ st < 99
Forever == 2000000000
ITol(c) == 5 + c.nc                    \* currents of parallel units add up to within this
VTolC(u) == IF u.nc = 1 THEN 5 ELSE 150  \* a voltage that was set, uV
Past(i, v, lim) == (i < 0 /\ v > lim) \/ (i > 0 /\ v < lim)
PastFor(i, v, lim, d) == (i < 0 /\ v > lim + d) \/ (i > 0 /\ v < lim - d)       \* for certain
PastMay(i, v, lim, d) == (i < 0 /\ v > lim - d) \/ (i > 0 /\ v < lim + d)       \* up to rounding
AtV(v, set, d) == Abs(v - set) < 10000 + d \/ Abs(v - set) < set \div 1000 + d   \* voltage tolerance of the CV phase
AtVFor(v, set, d) == Abs(v - set) < 10000 - d \/ Abs(v - set) < set \div 1000 - d

(* c: the command with its arguments; u: the unit *)
Start(c, u) ==
  [c |-> c, u |-> u, ph |-> (CASE c.cmd = "cc" -> "cc" [] c.cmd = "cv" -> "cv" [] c.cmd = "rest" -> "rest" [] c.cmd = "cap" -> "cap" [] OTHER -> "zero"),
   t |-> 0, n |-> 0, ah |-> 0, whlo |-> 0, whhi |-> 0,       \* done so far
   tcv |-> 0, ncv |-> 0,                                     \* at which the CV phase began, time steps in the present phase
   since |-> 0, stored |-> FALSE, early |-> FALSE,           \* data points
   v |-> c.V0, i |-> c.I0, vs |-> 0,                         \* unit after the latest call
   lv |-> c.V0, li |-> c.I0, ib |-> c.I0,                    \* unit after the latest time step, current before a refused one
   want |-> c.I, held |-> FALSE, tried |-> FALSE,                             \* current of the CC phase, voltage in force
   refused |-> 99, failed |-> FALSE, dead |-> FALSE, nset |-> 0, cross |-> FALSE,
   segs |-> <<>>, restored |-> FALSE]

(* ---------------------------------------------------------------- the unit is told to carry a current *)
SetIOk(m, e) ==
  LET c == m.c IN
  CASE m.ph = "cc" -> IF m.refused # 99 THEN P("P20", "a refused current leaves the old one", Near(e.x, m.ib, ITol(m.u), 1000000))
                      ELSE P("P20", "the wanted current", Near(e.x, m.want, 1, 1000000) \/ Near(e.x, m.i, ITol(m.u), 1000000))
    [] m.ph = "rest" -> P("P23", "no current at rest", e.x = 0)
    [] m.ph = "zero" -> P("P22", "the open circuit voltage decides the direction", m.nset > 0 \/ e.x = 0)
                        /\ P("P22", "towards the voltage with the given current", m.nset = 0 \/ m.refused # 99 \/ (Abs(e.x) = Abs(c.I) /\ (IF m.v > c.v + 2 THEN e.x >= 0 ELSE IF m.v < c.v - 2 THEN e.x <= 0 ELSE TRUE)))
    [] m.ph = "cv" -> TRUE
    [] OTHER -> P("P27", "the unit refuses the current", TRUE)
SetIUpd(m, e) ==
  LET second == m.ph = "zero" /\ m.nset > 0
      m1 == [m EXCEPT !.nset = m.nset + 1, !.v = e.V, !.i = e.I, !.ph = IF second THEN "cc" ELSE m.ph, !.want = IF second THEN e.x ELSE m.want] IN
  [m1 EXCEPT !.ib = IF m.refused = 99 THEN m.i ELSE m.ib, !.refused = IF m.ph \in {"cc", "zero", "cap"} /\ m.refused = 99 /\ (Bad(e.st) \/ (m.n = 0 /\ e.st \in 1 .. 6)) THEN e.st ELSE m.refused,
             !.failed = m.failed \/ (m.ph \in {"rest", "cap"} /\ Bad(e.st)),
             !.cross = m.cross \/ (m1.ph = "cc" /\ m.n = 0 /\ PastMay(e.x, e.V, m.c.v, VTolC(m.u)))]
(* ---------------------------------------------------------------- the unit is told to have a voltage *)
SetVOk(m, e) ==
  /\ P("P21", "only the CV phase sets a voltage", m.ph \in {"cv", "zero", "cc"} /\ m.c.cmd \in {"cv", "cccv"})
  /\ P("P21", "the wanted voltage", Near(e.x, m.c.v, 1, 10000000))
  /\ (m.ph = "cc" /\ m.c.cmd = "cccv") =>
        /\ P("P22", "first to the voltage, then hold it", m.refused # 99 \/ m.failed \/ m.v <= 0 \/ m.vs # 0 \/ m.t >= m.c.tl - 2 - m.n \/ (IF m.n = 0 THEN m.cross ELSE PastMay(m.want, m.v, m.c.v, 3)))
        /\ P("P25", "data point at the end of a phase", m.since = 0 \/ m.c.ndt <= 0)
SetVUpd(m, e) ==
  [m EXCEPT !.ph = "cv", !.tcv = IF m.ph = "cv" THEN m.tcv ELSE m.t, !.ncv = IF m.ph = "cv" THEN m.ncv ELSE 0, !.early = IF m.ph = "cv" THEN m.early ELSE FALSE,
            !.held = (e.st = 0 /\ e.exc = 0), !.tried = TRUE, !.v = e.V, !.i = e.I, !.dead = m.dead \/ e.exc # 0, !.failed = IF m.ph = "cv" THEN m.failed ELSE FALSE, !.refused = IF m.ph = "cv" THEN m.refused ELSE 99, !.vs = 0]
(* ---------------------------------------------------------------- a data point *)
StoreOk(m, e) ==
  /\ P("P25", "no data points asked for", m.c.ndt > 0)
StoreUpd(m, e) == [m EXCEPT !.stored = TRUE, !.early = m.early \/ (m.ncv > 0 /\ m.since < m.c.ndt), !.since = 0]
(* ---------------------------------------------------------------- time passes *)
TimeOk(m, e) ==
  LET c == m.c  ms == e.dt * e.k  d == VTolC(m.u) IN
  /\ P("P24", "time runs forward", e.dt >= 0 /\ e.k >= 1)
  /\ c.ndt > 0 => /\ P("P25", "data point at the beginning", m.stored)
                  /\ P("P25", "data point due", m.since < c.ndt)
                  /\ P("P25", "data point too early", ~m.early)
                  /\ P("P25", "data point missed", e.k <= c.ndt)
  /\ CASE m.ph = "cc" ->
            LET cl == IF c.cmd = "cc" THEN "P20" ELSE "P22" IN
            /\ P(cl, "the wanted current flows", Near(e.pI, m.want, ITol(m.u), 1000000))
            /\ P(cl, "not beyond the time limit", c.tl >= Forever \/ m.t + ms <= c.tl + 2 + m.n)
            /\ P(cl, "not beyond the voltage limit", IF m.n = 0 THEN ~PastFor(m.want, e.pV, c.v, d) ELSE ~PastFor(m.want, m.v, c.v, 3))
            /\ P(cl, "the given time step", e.dt = c.dt \/ m.t + ms >= c.tl - 2 - m.n)
            /\ P(cl, "at most two steps at once", e.k <= 2)
            /\ P(cl, "stopped by a refusal or failure", m.refused = 99 /\ ~m.failed /\ (m.n > 0 => m.v > 0))
            /\ P("P26", "a cell is outside its limits", c.diag => m.vs = 0)
       [] m.ph = "cv" ->
            /\ P("P21", "at the wanted voltage", (m.held \/ ~m.tried) => Near(e.pV, c.v, d, 100000))
            /\ P("P21", "not beyond the time limit", c.tl >= Forever \/ m.t + ms <= c.tl + 2 + m.n)
            /\ P("P21", "the current limit has been reached", m.ncv = 0 \/ ~(Abs(m.li) < c.il - 2 /\ AtVFor(m.lv, c.v, 3)))
            /\ P("P21", "the current is too small to go on", m.ncv = 0 \/ Abs(m.li) >= c.il \div 10 - 1)
            /\ P("P21", "beyond the safety limits", m.ncv = 0 \/ (m.lv >= MulDiv(m.u.VMIN, 99, 100) - d /\ m.lv <= MulDiv(m.u.VMAX, 101, 100) + d))
            /\ P("P21", "one step at a time", e.k = 1 /\ (e.dt = c.dt \/ m.t + ms >= c.tl - 2 - m.n))
            /\ P("P21", "stopped by a failure", ~m.failed /\ ~m.dead)
       [] m.ph = "rest" ->
            /\ P("P23", "no current", Abs(e.pI) <= ITol(m.u))
            /\ P("P23", "not beyond the time", m.t + ms <= c.tl + 2 + m.n)
            /\ P("P23", "after a failure", ~m.failed)
            /\ P("P23", "the given time step", e.dt = c.dt \/ m.t + ms >= c.tl - 2 - m.n)
       [] m.ph = "zero" -> P("P22", "no time passes while the direction is decided", FALSE)
       [] OTHER -> TRUE
TimeUpd(m, e) ==
  IF e.exc # 0 THEN [m EXCEPT !.failed = TRUE]
  ELSE LET ms == e.dt * e.k  q == MulDiv2(Abs(e.pI), ms, 360, 100)  d == 20 IN
       [m EXCEPT !.t = m.t + ms, !.n = m.n + 1, !.ncv = m.ncv + 1, !.ah = m.ah + q,
                 !.whlo = m.whlo + MulDiv(q, Min2(e.pV, e.V) - d, 10000000) - 1, !.whhi = m.whhi + MulDiv(q, Max2(e.pV, e.V) + d, 10000000) + 1,
                 !.since = m.since + e.k, !.v = e.V, !.i = e.I, !.lv = e.V, !.li = e.I, !.vs = e.vs, !.held = FALSE, !.tried = FALSE]
(* ---------------------------------------------------------------- capacity test: stretches of constant direction *)
SegUpd(m, e) == [m EXCEPT !.segs = Append(m.segs, e), !.n = m.n + 1, !.v = e.v1, !.t = m.t + e.ms]
(* ---------------------------------------------------------------- the command ends *)
EndOk(m, e) ==
  LET c == m.c  u == m.u  d == VTolC(u)  tm == e.tm - c.thtm  ah == e.ah - c.thah  wh == e.wh - c.thwh  st == e.st  tol == 3 + m.n IN
  /\ (c.cmd # "cap" /\ (e.exc = 0 \/ c.cmd # "cccv")) => /\ P("P24", "time", Near(tm, m.t, tol, 1000000))
                      /\ P("P24", "charge", IF c.cmd = "rest" THEN ah = 0 ELSE m.dead \/ Near(ah, m.ah, tol, 100000))
                      /\ P("P24", "energy", IF c.cmd = "rest" THEN wh = 0 ELSE m.dead \/ m.v <= 0 \/ (wh >= m.whlo - tol - Abs(wh) \div 50000 /\ wh <= m.whhi + tol + Abs(wh) \div 50000))
  /\ (c.ndt > 0 /\ c.cmd # "cap") => P("P25", "data point at the end", m.since = 0 \/ ~(st \in {Curr, Volt, Time, Small}))
  /\ c.ndt <= 0 => P("P25", "no data points asked for", e.stores = 0)
  /\ (c.cmd = "cc") =>
       /\ P("P20", "no exception", e.exc = 0)
       /\ P("P20", "no result means nothing", st # 0)
       /\ st = Time => P("P20", "time limit", Near(m.t, c.tl, tol, 1000000) /\ m.refused = 99)
       /\ st = Volt => P("P20", "voltage limit", IF m.n = 0 THEN m.cross ELSE PastMay(c.I, m.v, c.v, 3))
       /\ (st \in {Time, Volt}) => P("P20", "the current keeps flowing", m.n = 0 \/ Near(e.I, c.I, ITol(u), 1000000))
       /\ ~(st \in {Time, Volt}) =>
             P("P20", "another reason", (st = m.refused) \/ (st = StepFail /\ m.failed) \/ (st = NoVolt /\ m.v <= 0) \/ (c.diag /\ st = m.vs))
       /\ (m.refused # 99 /\ m.nset <= 2 /\ m.n = 0) => P("P20", "a refused current leaves the old one", st = m.refused /\ tm = 0 /\ (c.faulty \/ Near(e.I, c.I0, ITol(u), 1000000)))
       /\ (c.diag /\ m.vs # 0 /\ m.n > 0) => P("P26", "a violation ends the command with its status", st = m.vs)
       /\ (~c.diag /\ m.refused = 99) => P("P26", "violations of cells are ignored", ~(st \in 1 .. 6))
       /\ m.failed => P("P20", "a failed time step is reported", st = StepFail)
  /\ (c.cmd \in {"cv", "cccv"} /\ ~m.dead /\ e.exc = 0) =>
       LET cl == IF c.cmd = "cv" THEN "P21" ELSE "P22" IN
       /\ P(cl, "no result means nothing", st # 0)
       /\ st = Time => P(cl, "time limit", m.t >= c.tl - 2 - m.n)
       /\ st = Curr => P(cl, "current limit and voltage", Abs(m.i) < c.il + 2 /\ AtV(m.v, c.v, d))
       /\ st = Small => P(cl, "a small current", (Abs(m.i) < c.il \div 10 + 2 \/ Abs(m.i) <= 1))
       /\ st = StepFail => P(cl, "a failed time step is reported", m.failed)
       /\ st \in {5, 6} => P(cl, "safety limits", (st = 5 /\ m.v < MulDiv(u.VMIN, 99, 100) + d) \/ (st = 6 /\ m.v > MulDiv(u.VMAX, 101, 100) - d))
       /\ P(cl, "known result", st \in {Curr, Small, Time, StepFail, 5, 6, BadV} \/ (c.cmd = "cccv" /\ m.nset = 1 /\ m.refused # 99))
       /\ c.cmd = "cccv" => P("P22", "impossible voltage", (st = BadV) = (c.v < u.vmin \/ c.v > u.vmax) /\ (st = BadV => m.t = 0 /\ e.same /\ m.nset = 0))
  /\ (c.cmd \in {"cv", "cccv"} /\ e.exc # 0) => P("P21", "no exception", m.v <= 0 \/ m.dead)
  /\ c.cmd = "rest" =>
       /\ e.exc = 0 =>
           IF m.failed /\ m.t < c.tl - 2 - m.n THEN P("P23", "refused current", Bad(st))
           ELSE /\ P("P23", "rest ends at its time", st = Time /\ Near(m.t, c.tl, tol, 1000000))
                /\ P("P23", "no current", m.failed \/ Abs(e.I) <= ITol(u))
       /\ e.exc # 0 => P("P23", "no exception", m.failed)
  /\ c.cmd = "cap" =>
       /\ P("P27", "no exception", e.exc = 0)
       /\ P("P27", "the unit is as it was", e.same)
       /\ P("P27", "no data points", e.stores = 0)
       /\ P("P27", "time", Near(e.ctm, SumSeq([i \in 1 .. Len(m.segs) |-> m.segs[i].ms]), 3, 1000000))
       /\ LET s == m.segs  n == Len(s)  cr == MulDiv(u.cap, 100, 25) IN
          e.ret > 0 =>
            /\ P("P27", "charged, then discharged", n \in 1 .. 2 /\ s[n].lo > 0 /\ (n = 2 => s[1].hi < 0))
            /\ P("P27", "slowly", \A i \in 1 .. n : Near(Abs(s[i].lo), cr, ITol(u), 1000000) /\ Near(Abs(s[i].hi), cr, ITol(u), 1000000))
            /\ P("P27", "between the limits", s[n].v1 < u.vmin + d /\ s[n].vp > u.vmin - d /\ (IF n = 2 THEN s[1].v1 > u.vmax - d /\ s[1].vp < u.vmax + d ELSE TRUE))
            /\ P("P27", "the capacity is the charge taken out", Near(e.ret, s[n].ah, 3, 1000000))
            /\ P("P27", "throughput of the test", Near(e.cah, SumSeq([i \in 1 .. n |-> s[i].ah]), 5, 1000000))
            /\ (u.k \in {"b", "e1", "e2"} /\ (n = 2 \/ s[n].v0 <= u.vmax)) =>                      \* linear open circuit voltage: the capacity between the limits is known
                 P("P27", "the capacity of the cell", Near(e.ret, MulDiv(u.cap * 10000, u.vmax - u.vmin - 2 * MulDiv(u.r, cr, 10000000), u.VMAX - u.VMIN), 0, IF u.k = "b" THEN 1000 ELSE 30))
       /\ e.ret = 0 => P("P27", "a test which fails says so", m.failed \/ m.refused # 99 \/ c.faulty \/ m.v <= 0 \/ Len(m.segs) < 2 \/ (c.diag /\ m.segs[Len(m.segs)].vs # 0))
       /\ c.diag => P("P27", "a cell outside its limits ends the test in diagnostic mode", e.ret = 0 \/ \A i \in 1 .. Len(m.segs) : m.segs[i].vs = 0)
==========================================================================
