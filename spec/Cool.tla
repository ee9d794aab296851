------------------------------- MODULE Cool -------------------------------
(* The thermal side of a pack: cooling systems and how they are regulated (P30), what they account for (P31), the heat       *)
(* balance of all units (P32), and the losses of the power electronics (P33). CoolMC.tla checks a model, CoolTrace.tla       *)
(* recorded executions.                                                                                                     *)
(* Units: temperature 1e-4 K (t0: 1e-6 K, dT: 1e-7 K), flow per cell 1e-11 m3/s, heat transfer 1e-6 W/m2/K, area 1e-6 m2,    *)
(* power of the air conditioning 1e-4 W, other powers 1e-5 W, heat 1e-3 J, operating energy 1e-5 J, time 1e-3 s.             *)
EXTENDS Num, TLC
CONSTANT Clauses
Chk(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", name>>) /\ FALSE
P(c, name, b) == IF c \in Clauses THEN Chk(name, b) ELSE TRUE
Deg(x) == 2730000 + 10000 * x
Full == 50000000                                    \* nominal flow per cell
Env == Deg(15)
M6 == 1000000

(* ---------------------------------------------------------------- regulation (P30) *)
\* the fan at control strategy ctl, with the hottest unit it cools at Tl and the hottest element at Tg
Fan(ctl, f, Tl, Tg) ==
  LET T == IF ctl \in {3, 5} THEN Tg ELSE Tl IN
  CASE ctl = 1 -> Full
    [] ctl \in {2, 3} -> IF T >= Deg(35) THEN Full ELSE IF T <= Deg(25) THEN 0 ELSE f
    [] ctl \in {4, 5} -> IF T - Deg(25) > 20000 THEN MulDiv(Full, T - Deg(25), 100000) ELSE 0
    [] OTHER -> f
\* the air conditioning: never below 20 degrees; c0: the strategy it was designed for, full: its design power
AcRange(ctl, c0, full, q, T, Tg) ==                 \* <<smallest, largest>> power allowed
  LET on == IF c0 \in {3, 5} THEN Deg(30) ELSE Deg(25)
      target == IF c0 = 5 THEN Deg(25) ELSE Deg(20)
      err == (IF ctl = 5 THEN Tg ELSE T) - target
      prop == Min2(MulDiv(full, err, on - target), full) IN
  CASE ctl = 1 -> IF T < Deg(20) THEN <<0, 0>> ELSE <<full, full>>
    [] ctl = 2 -> IF T <= Deg(20) THEN <<0, 0>> ELSE IF T >= on THEN <<full, full>> ELSE <<q, q>>
    [] ctl = 3 -> IF T <= Deg(20) THEN <<0, 0>> ELSE IF Tg >= on THEN <<full, full>> ELSE <<q, q>>
    [] ctl \in {4, 5} -> IF T <= Deg(20) THEN <<0, 0>> ELSE IF err > 20000 THEN <<prop, prop>> ELSE IF err > (on - target) \div 5 THEN <<0, prop>> ELSE <<0, 0>>
    [] OTHER -> <<q, q>>
\* temperatures which are no multiple of the unit: what they are rounded to may lie on the other side of a threshold
Around(T, exact) == IF exact THEN {T} ELSE {T - 1, T, T + 1}
FanOk(k, ctl, f0, f, Tl, Tg, exact) ==
  IF k = "open" THEN f = 0
  ELSE \E d \in Around(0, exact) : Near(f, Fan(ctl, f0, Tl + d, Tg + d), IF exact THEN 30 ELSE 600, 1000000)
AcOk(k, ctl, c0, full, q0, q, T, Tg, exact) ==
  IF Clamped(full) \/ Clamped(q) THEN TRUE
  ELSE IF k # "hvac" THEN q = 0
  ELSE \E d \in Around(0, exact) : LET r == AcRange(ctl, c0, full, q0, T + d, Tg + d) IN q >= r[1] - 3 - (IF exact THEN r[1] \div 100000 ELSE full \div 50000) /\ q <= r[2] + 3 + (IF exact THEN r[2] \div 100000 ELSE full \div 50000)
\* heat transfer at a flow: 12.12 - 1.16 v + 11.6 sqrt(v) at the speed v, none without flow; an open system exchanges perfectly
Speed(f) == MulDiv(f, 4, 10)                        \* 1e-6 m/s, through 25 mm2 per cell
Transfer(k, f) == IF k = "open" THEN 90000000 ELSE IF f = 0 THEN 0
                  ELSE LET v == Speed(f) IN 12120000 - MulDiv(v, 116, 100) + MulDiv(116, SqrtMicro(v), 10)
LookOk(k, e) ==
  /\ P("P30", "heat transfer", Near(e.h, Transfer(k, e.f), 60, 500000))
  /\ P("P30", "no flow through an open system", k = "open" => e.f = 0)

(* ---------------------------------------------------------------- accounts (P31) *)
\* heat capacity of the coolant 1e-2 J/K: 1 m3 of air per cell, more if the air conditioning is designed for more than 7.5 W per cell
HeatCap(k, n, full) == IF k = "hvac" THEN MulDiv2(full, 1231125, 750000, 1) ELSE MulDiv(1231125, n, 10)
Rise(E, cap) == MulDiv(E, M6, cap)         \* 1e-7 K
\* 1e-5 J: kinetic energy of the air, at an efficiency of one half
FanEnergy(n, f, t) == LET x == MulDiv(f, M6, Full)  x3 == MulDiv(MulDiv(x, x, M6), x, M6) IN MulMulDiv(24500 * n, x3, t, M6, 1000)
\* of the air conditioning: 3 times the heat if the container is less than 5 degrees warmer than the environment, else a fan which takes in air from outside
AcEnergy(n, q, T, t) ==
  IF q = 0 \/ t = 0 THEN 0
  ELSE IF T < Env + 50000 THEN MulMulDiv(q, t, 3, 100, 1)
  ELSE LET v == MulMulDiv(q, 1600, M6, 9849 * n, T - Env) IN                    \* 1e-4 m/s
       IF v > 2500000 THEN 2000000000                                             \* faster than air can be moved: no statement
       ELSE IF v > 300000 THEN LET c == MulDiv(MulDiv(v, v, M6), v, 10000) IN MulDiv(MulMulDiv(c, 6125, n, M6, 1), t, 100)
       ELSE LET c == MulDiv(MulDiv(v, v, 10000), v, 10000) IN MulDiv(MulMulDiv(c, 6125, n, M6, 1), t, 10000)
Energies(n, k, f, q, T, t) == { (IF k # "hvac" THEN FanEnergy(n, f, t) ELSE IF Clamped(AcEnergy(n, q, U, t)) THEN 2000000000 ELSE FanEnergy(n, f, t) + AcEnergy(n, q, U, t)) : U \in {T, T - 1, T + 1} }
EnergyOk(e, n, k, f, q, T, t) == Clamped(e.en) \/ \E x \in Energies(n, k, f, q, T, t) : Clamped(x) \/ Near(e.en, x, 60, 20000)
\* nothing is accounted for
Idle(e) == P("P31", "accounts change by themselves", e.ev = 0 /\ e.ab = 0 /\ e.tm = 0 /\ e.en = 0 /\ e.ac = 0)
\* heat e of which hc from the units it cools, in the time t, by a system at T with flow f and air conditioning q
Exchange(k, n, full, f, q, T, e, E, hc, t) ==
  LET acq == IF k = "hvac" THEN MulDiv(q, t, 10000) ELSE 0
      net == E - acq IN
  /\ P("P31", "heat taken from the units", Near(e.ev, hc, 2, 1000000))
  /\ P("P31", "heat taken up by the coolant", Near(e.ab, net, 4, 100000))
  /\ P("P31", "heat removed by the air conditioning", Near(e.ac, acq, 4, 100000))
  /\ P("P31", "time of the cooling system", e.tm = t)
  /\ P("P31", "operating energy", EnergyOk(e, n, k, f, q, T, t))
  /\ P("P31", "new temperature of the coolant", Near(e.dT, Rise(net, HeatCap(k, n, full)), 40 + (20000 \div n), 20000))

(* ---------------------------------------------------------------- one cooling system: state [k, n, c0, full], event by event *)
Built(e) ==
  /\ P("P30", "flow of a new system", e.f = IF e.k = "open" THEN 0 ELSE Full)
  /\ P("P30", "power of the air conditioning", IF e.k = "hvac" THEN Near(e.q, 75000 * e.n + e.Q0, 4, 100000) ELSE e.q = 0)
  /\ P("P30", "strategy", e.ctl = e.c0)
  /\ P("P31", "temperature of a new system", e.T = Env)
Kept(u, e) == P("P30", "flow changes by itself", e.f = u.f /\ e.q = u.q)
Lone(c, u, e) ==
  CASE e.op = "ctrl" -> /\ P("P30", "fan", FanOk(c.k, u.ctl, u.f, e.f, e.a, e.b, TRUE))
                        /\ P("P30", "air conditioning", AcOk(c.k, u.ctl, c.c0, c.q, u.q, e.q, u.T, e.b, u.ex))
                        /\ P("P31", "regulating changes the temperature", e.T = u.T) /\ Idle(e)
    [] e.op = "setT" -> LET ok == e.t >= Deg(0) /\ e.t <= Deg(75) IN
                        /\ P("P31", "temperature out of range", IF ok THEN e.exc = 0 /\ e.T = e.t ELSE e.exc = 99 /\ e.T = u.T) /\ Idle(e) /\ Kept(u, e)
    [] e.op = "dst" -> /\ IF c.k = "hvac" /\ e.e # e.hc THEN P("P31", "heat from elsewhere", e.exc = 10 /\ e.T = u.T) /\ Idle(e)
                          ELSE /\ P("P31", "refused", e.exc = 0)
                               /\ Exchange(c.k, c.n, c.q, u.f, u.q, u.T, e, e.e, e.hc, e.t)
                               /\ P("P31", "sets the temperature", e.T = IF e.set /\ e.sx = 0 THEN e.Tn ELSE u.T)
                               /\ P("P31", "limits of the coolant", e.set => (e.sx = 0) = (e.Tn >= Deg(0) /\ e.Tn <= Deg(75)) \/ Abs(e.Tn - Deg(0)) <= 1 \/ Abs(e.Tn - Deg(75)) <= 1)
                       /\ Kept(u, e)
    [] e.op = "strat" -> P("P30", "strategy", e.ctl = e.s) /\ Kept(u, e) /\ Idle(e)
    [] e.op = "reset" -> Idle(e) /\ Kept(u, e)
    [] OTHER -> Idle(e) /\ Kept(u, e) /\ P("P31", "copy", e.T = u.T /\ e.ctl = u.ctl /\ e.h = u.h)

(* ---------------------------------------------------------------- packs: units in preorder *)
IsCell(x) == x.k \notin {"hvac", "open", "std"}
Top(x) == x.up = 0
Range(s) == { s[i] : i \in 1 .. Len(s) }
IndexOf(s, x) == CHOOSE i \in 1 .. Len(s) : s[i] = x
PackBuilt(e) == \A i \in 1 .. Len(e.u) : LET x == e.u[i] IN IF IsCell(x) THEN TRUE ELSE
  /\ P("P30", "flow of a new system", x.f = IF x.k = "open" THEN 0 ELSE Full)
  /\ P("P33", "air conditioning for the losses of the converter", (Top(x) /\ e.bat) => x.q >= 75000 * x.nc)
\* which temperatures a system is regulated on: after the step for the top of the pack, the others before or after
Regulated(c, x, i) ==
  LET now == FanOk(x.k, x.ctl, x.f0, x.f, x.loc, x.glo, x.lex) /\ AcOk(x.k, x.ctl, c.u[i].ctl, c.u[i].q, x.q0, x.q, x.T, x.glo, x.lex /\ x.ex)
      then == FanOk(x.k, x.ctl, x.f0, x.f, x.loc0, x.glo0, x.lex0) IN
  IF Top(x) THEN now ELSE now \/ then
Same(x) == x.f = x.f0 /\ x.q = x.q0
\* heat flows from element a to element b: 1e-5 W
Flow(h, A, dT6) == MulMulDiv(h, A, dT6, M6, 10000000)
Cell2Cell == 5000000
\* heat exchange of the i-th child of module m with the module, by the fan and (the first and the last one) by contact
HOf(x) == IF Top(x) THEN x.h0 ELSE x.h
WithParent(u, m, j) ==
  LET p == u[m]  x == u[p.ch[j]]  A == Min2(p.A, x.A)  d == p.t0 - x.t0  edges == (IF j = 1 THEN 1 ELSE 0) + (IF j = Len(p.ch) THEN 1 ELSE 0) IN
  Flow(HOf(p), A, d) + edges * Flow(Cell2Cell, A, d)
\* a battery cools its module only by the fan
WithBattery(u) == Flow(u[1].h0, Min2(u[1].A, u[2].A), u[1].t0 - u[2].t0)
Between(u, a, b) == Flow(Cell2Cell, Min2(u[a].A, u[b].A), u[b].t0 - u[a].t0)      \* to a from b
\* from the siblings and the parent, to unit i
Received(bat, u, i) ==
  LET x == u[i] IN
  IF Top(x) THEN 0
  ELSE IF bat /\ i = 2 THEN WithBattery(u)
  ELSE LET p == x.up  ch == u[p].ch  j == IndexOf(ch, i) IN
       WithParent(u, p, j) + (IF j > 1 THEN Between(u, i, ch[j - 1]) ELSE 0) + (IF j < Len(ch) THEN Between(u, i, ch[j + 1]) ELSE 0)
\* given by the children of unit i
FromChildren(bat, u, i) ==
  IF bat /\ i = 1 THEN -WithBattery(u) ELSE SumSeq([j \in 1 .. Len(u[i].ch) |-> -WithParent(u, i, j)])
EnvFlow(x) == Flow(45000000, x.A, Env * 100 - x.t0)       \* a cell without a module, or on its own, is cooled by the environment
CellCap(x) == MulDiv(x.es, 20548575, 100000000)           \* 1e-3 J/K
Heat(p, t) == MulMulDiv(p, t, 1, 100000, 1)               \* of a power 1e-5 W in 1e-3 s: 1e-3 J
CellWarmer(p, t, x) == MulMulDiv(p, t, 100, CellCap(x), 1)
\* the converter (of a battery) heats the container: losses in 1e-1 J
\* beyond the range of the numbers of this specification: 500 kJ in one time step
TooLarge(c, e, i) == LET x == e.u[i] IN Clamped(HeatCap(x.k, x.nc, IF x.k = "hvac" THEN c.u[i].q ELSE 0)) \/ Abs(x.ab) > 500000000 \/ Abs(x.ac) > 500000000 \/ Abs(x.ev) > 500000000 \/ Abs(e.loss) > 5000000
Balance(c, e, i) ==
  LET u == e.u  x == u[i]  t == e.dt  off == e.blk \/ c.tm = 0 IN
  IF IsCell(x) THEN
    /\ P("P32", "heat of the cell", off \/ t = 0 \/ x.k # "k" \/ Near(x.qg, x.qw, 40, 2000))
    /\ P("P32", "temperature of the cell", IF off \/ t = 0 \/ x.k # "k" THEN x.dT = 0
                                           ELSE IF c.tm = 1 \/ Top(x) THEN Near(x.dT, CellWarmer(x.qw + EnvFlow(x), t, x), 60, 2000)
                                           ELSE Near(x.dT, CellWarmer(x.qw + Received(c.bat, u, i), t, x), 60, 2000))
  ELSE IF TooLarge(c, e, i) THEN TRUE
  ELSE IF off \/ t = 0 THEN P("P32", "temperature of the coolant", (c.bat /\ Top(x)) \/ x.dT = 0)
  ELSE IF c.tm = 1 THEN P("P32", "temperature of the coolant", (c.bat /\ Top(x)) \/ x.dT = 0)
  ELSE LET conv == IF c.bat /\ Top(x) THEN e.loss * 100 ELSE 0
           kids == FromChildren(c.bat, u, i)
           lo == Heat(kids + Min2(x.p0, x.p1), t) + conv  hi == Heat(kids + Max2(x.p0, x.p1), t) + conv
           rec == Heat(Received(c.bat, u, i), t)
           acq == MulDiv(x.q0, t, 10000)
           tol == 20 + Abs(kids) \div 2000 + Abs(rec) \div 2000 + conv \div 5000 + t \div 1000
           cap == HeatCap(x.k, x.nc, IF x.k = "hvac" THEN c.u[i].q ELSE 0) IN
       /\ P("P31", "heat taken from the units", x.ev >= lo - tol /\ x.ev <= hi + tol)
       /\ P("P31", "heat taken up by the coolant", Abs(x.ab - (x.ev + rec - acq)) <= tol)
       /\ P("P31", "time of the cooling system", x.tm = t)
       /\ P("P31", "heat removed by the air conditioning", Near(x.ac, acq, 6, 20000))
       /\ P("P31", "operating energy", EnergyOk(x, x.nc, x.k, IF Top(x) THEN x.f0 ELSE x.f, x.q0, RDiv(x.t0, 100), t))
       /\ P("P32", "temperature of the coolant", Near(x.dT, Rise(x.ab, cap), 60 + 20000 \div x.nc, 5000))
       /\ P("P32", "heat balance of the coolant", x.ab >= lo + rec - acq - 2 * tol /\ x.ab <= hi + rec - acq + 2 * tol)
\* over the whole pack: what is produced is stored or removed. Heat 1e-3 J
Stored(c, x, i) == IF IsCell(x) THEN (IF x.k = "k" THEN MulDiv(x.dT, CellCap(x), 10000000) ELSE 0) ELSE MulDiv(x.dT, HeatCap(x.k, x.nc, IF x.k = "hvac" THEN c.u[i].q ELSE 0), M6)
Conserved(c, e) ==
  LET u == e.u  N == Len(u)  t == e.dt
      stored == SumSeq([i \in 1 .. N |-> Stored(c, u[i], i)])
      made == SumSeq([i \in 1 .. N |-> IF u[i].k = "k" THEN Heat(u[i].qw, t) ELSE 0])
      lo == SumSeq([i \in 1 .. N |-> IF IsCell(u[i]) THEN 0 ELSE Heat(Min2(u[i].p0, u[i].p1), t)])
      hi == SumSeq([i \in 1 .. N |-> IF IsCell(u[i]) THEN 0 ELSE Heat(Max2(u[i].p0, u[i].p1), t)])
      out == IF u[1].k = "hvac" THEN MulDiv(u[1].q0, t, 10000) ELSE 0
      conv == e.loss * 100
      moved == SumSeq([i \in 1 .. N |-> IF IsCell(u[i]) THEN Abs(Heat(Received(c.bat, u, i), t)) ELSE 0])
      fine == SumSeq([i \in 1 .. N |-> IF IsCell(u[i]) THEN 1 ELSE HeatCap(u[i].k, u[i].nc, IF u[i].k = "hvac" THEN c.u[i].q ELSE 0) \div 500000])
      tol == 50 + 10 * N + fine + Abs(made) \div 2000 + moved \div 2000 + Abs(conv) \div 5000 + out \div 20000 + N * (t \div 1000) IN
  P("P32", "energy", (\E i \in 1 .. N : IsCell(u[i]) /\ u[i].k # "k") \/ (stored >= made + lo + conv - out - tol /\ stored <= made + hi + conv - out + tol))

(* ---------------------------------------------------------------- converter (P33): losses in 1e-3 W *)
\* drop over a switch at the current i (1e-4 A): 1e-6 V
Drop(i) == IF Abs(i) > 300000 THEN 1000000 + MulDiv2(Abs(i) - 300000, 200, 270, 1) ELSE MulDiv2(Abs(i), 100, 30, 1)
Inverters(Pn) == Max2(1, (Pn + 199999) \div 200000)
Losses(V, I, Pn) ==                                     \* V 1e-4 V, I 1e-4 A, Pn W
  LET n == Inverters(Pn)  i == RDiv(I, n)  d == MulMulDiv(i, V, 1, 15000000, 1)
      D == 1000000 + MulMulDiv(V, 2, 1000000, 15000000, 1)                         \* 1e-6
      dc == MulMulDiv(MulDiv(Abs(i), Drop(i), 1000000), D, 1, 10000000, 1)         \* (1e-4 V*A) * 1e-6 / 1e7 = 1e-3 W
      dcs == 48000 + MulDiv2(Abs(i - 500000), 8, 100, 1)
      ac == MulMulDiv(Abs(d), Drop(d), 3, 10000000, 1)
      acs == 624000 + MulDiv2(Abs(d - 500000), 96, 100, 1)
      lg == MulMulDiv(d, d, 408, 1000000000, 1)                                      \* 3 * 13.6e-3 d^2 : 1e-8 A^2 * 40.8e-3 = .. 1e-3 W
      lb == MulMulDiv(i, i, 136, 1000000000, 1) IN
  n * (dc + dcs + ac + acs + 309259 + lg + lb)
Idling(Pn) == Inverters(Pn) * 900000                    \* switching and the capacitor, whatever the current
Converter(c, e) ==
  LET want == MulMulDiv(Losses(e.V, e.I, e.P), e.dt, 1, 100000, 1) IN                \* 1e-1 J
  IF ~c.bat \/ e.exc # 0 THEN TRUE
  ELSE /\ P("P33", "losses over the time step", Near(e.loss, want, 3, 2000))
       /\ P("P33", "losses cannot be less than those of idling", e.loss >= MulDiv(Idling(e.P), e.dt, 100000) - 1)
       /\ P("P33", "losses since the last time", e.per = e.loss /\ e.again = 0)

(* ---------------------------------------------------------------- pack events *)
Unmoved(u, e) ==                                        \* commands leave cooling and temperatures alone
  \A i \in 1 .. Len(e.u) : P("P32", "temperature changes by itself", e.u[i].T = u.u[i].T) /\ P("P30", "flow changes by itself", e.u[i].f = u.u[i].f)
StepOk(c, e) ==
  IF e.exc # 0 THEN TRUE
  ELSE /\ \A i \in 1 .. Len(e.u) : LET x == e.u[i] IN
           /\ IF IsCell(x) THEN TRUE ELSE P("P30", "regulation within the pack", IF e.blk THEN Same(x) \/ Regulated(c, x, i) ELSE Regulated(c, x, i))
           /\ IF IsCell(x) THEN TRUE ELSE P("P30", "heat transfer within the pack", Near(x.h, Transfer(x.k, x.f), 200, 100000))
           /\ Balance(c, e, i)
       /\ IF c.tm = 2 /\ ~e.blk /\ e.dt > 0 /\ ~IsCell(e.u[1]) /\ ~(\E i \in 1 .. Len(e.u) : IF IsCell(e.u[i]) THEN FALSE ELSE TooLarge(c, e, i)) THEN Conserved(c, e) ELSE TRUE
       /\ Converter(c, e)
Pack(c, u, e) ==
  CASE e.op = "step" -> StepOk(c, e)
    [] e.op = "setTu" -> LET x == e.u[e.w] IN
         /\ P("P32", "set temperature", IF e.exc = 0 THEN x.T = e.t ELSE x.T = u.u[e.w].T)
         /\ P("P32", "temperature of the others", \A i \in 1 .. Len(e.u) : i = e.w \/ e.u[i].T = u.u[i].T)
    [] e.op = "load" -> /\ P("P31", "cooling load", e.l = e.want) /\ P("P31", "cooling load is counted again", \A i \in 1 .. Len(e.left) : e.left[i] = 0) /\ Unmoved(u, e)
    [] e.op = "strats" -> \A i \in 1 .. Len(e.u) : P("P32", "temperature changes by itself", e.u[i].T = u.u[i].T)
    [] OTHER -> Unmoved(u, e)
===========================================================================
