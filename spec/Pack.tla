------------------------------ MODULE Pack ------------------------------
(* Storage units: cells, series strings, parallel blocks and batteries, as a tree. A configuration of a tree is a         *)
(* sequence of unit records in preorder ("snapshot"); the operators below say what a snapshot must look like (laws of     *)
(* the electric circuit, aggregates, limits) and which pairs of snapshots a command may connect.                          *)
(* The same operators are used by PackMC.tla, where an operational model of the pack is checked against them               *)
(* exhaustively, and by PackTrace.tla, where executions recorded from the implementation are.                              *)
(* Units: current 1e-5 A, voltage 1 uV, limits 0.1 mV, resistance 1e-8 Ohm, capacity 1 mAh, charge fraction 1e-9,          *)
(* time 1 ms, throughput 1e-7 Ah and 1 uWh, temperature 1 mK.                                                              *)
EXTENDS Num, FiniteSets, TLC
CONSTANT Clauses

Ecm == {"b", "e1", "e2"}
CellK == Ecm \cup {"k"}
IsCell(u) == u.k \in CellK
IsEcm(u) == u.k \in Ecm
Nodes(s) == 1 .. Len(s)
Kids(s, n) == s[n].ch
RECURSIVE UpTo(_, _)
UpTo(s, n) == IF n = 0 THEN {} ELSE {n} \cup UpTo(s, s[n].up)          \* n and everything above it
Below(s, n) == { m \in Nodes(s) : n \in UpTo(s, m) }                   \* n and everything below it
LeavesOf(s, n) == { m \in Below(s, n) : IsCell(s[m]) }
HasKind(s, n, K) == \E m \in Below(s, n) : s[m].k \in K
KidVals(s, n, F(_)) == [ i \in 1 .. Len(s[n].ch) |-> F(s[s[n].ch[i]]) ]

(* ---------------------------------------------------------------- status *)
Ok == 0  VminV == 1  VmaxV == 2  VMINV == 3  VMAXV == 4  NoVolt == 7  SocBad == 8  StatesBad == 9  Unequal == 12
Bad(st) == st >= 3 /\ st # 99
Margin == 10000      \* 10 mV of slack on the operating limits
VAmb == 3            \* a voltage this close (uV) to a threshold may be classified either way
(* what a voltage v with current i (discharge > 0) means for a unit with these limits *)
VerdictAt(u, v, i) ==
  LET vmin == u.vmin * 100  vmax == u.vmax * 100  lo == u.VMIN * 100  hi == u.VMAX * 100 IN
  IF v <= 0 THEN NoVolt
  ELSE IF v > vmin - Margin /\ v < vmax + Margin THEN Ok
  ELSE IF v < lo /\ i > 0 THEN VMINV
  ELSE IF v > hi /\ i < 0 THEN VMAXV
  ELSE IF v <= vmin - Margin /\ i > 0 THEN VminV
  ELSE IF v >= vmax + Margin /\ i < 0 THEN VmaxV
  ELSE Ok
Verdicts(u, v, i) == { VerdictAt(u, v + d, i) : d \in {-VAmb, 0, VAmb} }

(* ---------------------------------------------------------------- what a snapshot must satisfy *)
OcvEcm(u) == u.VMIN * 100 + MulDiv(u.soc, (u.VMAX - u.VMIN) * 100, 1000000000)
RCdrop(u, c) == SumSeq([ q \in 1 .. Len(u.ir) |-> MulDiv(c.rp[q], u.ir[q], 10000000) ])
CellLaw(u, c) ==                              \* V = OCV(soc) - R I - sum of the RC branches
  IsEcm(u) =>
    IF (u.soc >= -2 /\ u.soc <= 2) \/ (u.soc >= 999999998 /\ u.soc <= 1000000002) THEN u.V = 0 \/ Near(u.V, OcvEcm(u) - MulDiv(c.R, u.I, 10000000) - RCdrop(u, c), 4, 1000000)
    ELSE IF u.soc > 0 /\ u.soc < 1000000000
    THEN /\ Near(u.ocv, OcvEcm(u), 2, 1000000)
         /\ Near(u.V, OcvEcm(u) - MulDiv(c.R, u.I, 10000000) - RCdrop(u, c), 4, 1000000)
    ELSE u.V = 0                               \* no voltage outside the range of the curve

VTol(s, n) == 4 + 2 * Cardinality(Below(s, n))
SeriesSum(s, n, c) == LET k == Kids(s, n) IN SumSeq([ i \in 1 .. Len(k) |-> s[k[i]].V - MulDiv(c.rc[i], s[k[i]].I, 10000000) ])
RECURSIVE PathDrop(_, _, _, _)
TailI(s, k, j) == SumSeq([ q \in 1 .. Len(k) - j + 1 |-> s[k[j + q - 1]].I ])
SeriesLaw(s, n, c) ==                          \* the sum of the units and the drops over the contacts; 0 if a unit has no voltage
  LET k == Kids(s, n)  none == \E i \in 1 .. Len(k) : s[k[i]].V <= 2  some == \A i \in 1 .. Len(k) : s[k[i]].V >= -2 /\ (s[k[i]].V # 0 \/ ~IsCell(s[k[i]])) IN
  (none /\ s[n].V = 0) \/ (some /\ Near(s[n].V, SeriesSum(s, n, c), VTol(s, n), 1000000))
PathDrop(s, k, c, i) == IF i = 0 THEN 0 ELSE PathDrop(s, k, c, i - 1) + MulDiv(c.rc[i], TailI(s, k, i), 10000000)
TermV(s, n, c, i) == LET k == Kids(s, n) IN s[k[i]].V - PathDrop(s, k, c, i)      \* terminal voltage along the path of child i
SumI(s, n) == SumSeq(KidVals(s, n, LAMBDA u : u.I))
RECURSIVE Ladder(_, _, _, _)
Ladder(s, k, c, i) ==                          \* resistance seen from contact i of a parallel block
  IF i = Len(k) THEN c.rc[i] + s[k[i]].r
  ELSE LET t == Ladder(s, k, c, i + 1) IN c.rc[i] + MulDiv(s[k[i]].r, t, s[k[i]].r + t)

VoltageLaw(s, n, c) ==
  LET u == s[n] IN
  CASE u.k = "s" -> SeriesLaw(s, n, c)
    [] u.k = "p" -> Near(u.V, IF u.ch = <<>> THEN 0 ELSE TermV(s, n, c, 1), VTol(s, n), 1000000)
    [] u.k = "B" -> Near(u.V, c.ns * s[u.ch[1]].V, VTol(s, n) * c.ns, 1000000)
    [] OTHER -> Near(u.V, u.fv, 2, 1000000)    \* the voltage of a twin which knows nothing but the states

(* currents: a string carries one current, a block splits it *)
SeriesEqual(s, n) == \A i \in 1 .. Len(s[n].ch) : Near(s[s[n].ch[i]].I, s[n].I, 2, 1000000)
ParallelEqual(s, n, c) ==                       \* all paths give the same terminal voltage
  \A i \in 2 .. Len(s[n].ch) : Near(TermV(s, n, c, i), TermV(s, n, c, 1), 3 + 2 * Len(s[n].ch), 1000000)

Aggregates(s, n, c) ==
  LET u == s[n]  k == Kids(s, n)  m == Len(k)
      sum(F(_)) == SumSeq(KidVals(s, n, F))  mx(F(_)) == MaxSeq(KidVals(s, n, F))  mn(F(_)) == MinSeq(KidVals(s, n, F))
  IN
  (m > 0) =>
  CASE u.k = "s" ->
        /\ u.nc = sum(LAMBDA x : x.nc) /\ Near(u.cap, mn(LAMBDA x : x.cap), 1, 1000000)
        /\ Near(u.vmin, sum(LAMBDA x : x.vmin), m, 1000000) /\ Near(u.vmax, sum(LAMBDA x : x.vmax), m, 1000000)
        /\ Near(u.VMIN, sum(LAMBDA x : x.VMIN), m, 1000000) /\ Near(u.VMAX, sum(LAMBDA x : x.VMAX), m, 1000000)
        /\ Near(u.r, sum(LAMBDA x : x.r) + SumSeq(c.rc), 2 * m, 1000000)
        /\ (\A i \in 1 .. m : s[k[i]].ocv >= 0) => Near(u.ocv, sum(LAMBDA x : x.ocv), 2 * m, 1000000)
        /\ Near(u.I, s[k[1]].I, 1, 1000000)
    [] u.k = "p" ->
        /\ u.nc = sum(LAMBDA x : x.nc) /\ Near(u.cap, sum(LAMBDA x : x.cap), m, 1000000)
        /\ Near(u.vmin, mx(LAMBDA x : x.vmin), 1, 1000000) /\ Near(u.vmax, mn(LAMBDA x : x.vmax), 1, 1000000)
        /\ Near(u.VMIN, mx(LAMBDA x : x.VMIN), 1, 1000000) /\ Near(u.VMAX, mn(LAMBDA x : x.VMAX), 1, 1000000)
        /\ Near(u.r, Ladder(s, k, c, 1), 4 * m, 100000)
        /\ (\A i \in 1 .. m : s[k[i]].ocv >= 0) => Near(u.ocv, RDiv(sum(LAMBDA x : x.ocv), m), 4, 1000000)
        /\ Near(u.I, SumI(s, n), m, 1000000)
    [] u.k = "B" -> TRUE
    [] OTHER -> u.nc = 1 /\ (IsEcm(u) => u.cap = c.cap /\ u.r = c.R)
BatteryScale(s, n, c) ==
  s[n].k = "B" =>
  LET u == s[n]  x == s[s[n].ch[1]] IN
  /\ u.nc = x.nc * c.ns * c.np /\ Near(u.cap, x.cap * c.np, c.np, 1000000) /\ Near(u.I, x.I * c.np, c.np, 1000000)
  /\ Near(u.vmin, x.vmin * c.ns, c.ns, 1000000) /\ Near(u.vmax, x.vmax * c.ns, c.ns, 1000000)
  /\ Near(u.VMIN, x.VMIN * c.ns, c.ns, 1000000) /\ Near(u.VMAX, x.VMAX * c.ns, c.ns, 1000000)
  /\ Near(u.r, MulDiv(x.r, c.ns, c.np), c.ns + 2, 1000000)
  /\ x.ocv >= 0 => Near(u.ocv, x.ocv * c.ns, 2 * c.ns, 1000000)
  /\ Near(u.V, x.V * c.ns, 2 * c.ns, 1000000) /\ Near(u.chkv, u.V, 2 * c.ns, 1000000)
  /\ u.vh = x.vh /\ u.vl = x.vl

Extremes(s, n) ==                               \* highest / lowest cell voltage, hottest place, most severe classification
  LET u == s[n]  m == Len(u.ch) IN
  IF IsCell(u) THEN /\ u.vh = u.V /\ u.vl = u.V /\ u.hot = u.T
  ELSE m > 0 =>
       /\ u.vh = MaxSeq(KidVals(s, n, LAMBDA x : x.vh)) /\ u.vl = MinSeq(KidVals(s, n, LAMBDA x : x.vl))
       /\ u.hot = Max2(u.T, MaxSeq(KidVals(s, n, LAMBDA x : x.hot)))
       /\ u.chk = MaxSeq(KidVals(s, n, LAMBDA x : x.chk))
       /\ Near(u.chkv, u.V, 2, 1000000)
CellVerdict(s, n) == IsCell(s[n]) => s[n].chk \in Verdicts(s[n], s[n].V, s[n].sg) /\ Near(s[n].chkv, s[n].V, 1, 1000000)

Ownership(s) ==
  /\ \A n \in Nodes(s) : s[n].n = n /\ s[n].pok
  /\ \A n \in Nodes(s) : s[n].full = IF s[n].up = 0 THEN s[n].id ELSE s[s[n].up].full \o "_" \o s[n].id
  /\ \A n \in Nodes(s) : \A i \in 1 .. Len(s[n].ch) : s[s[n].ch[i]].up = n
  /\ \A a, b \in Nodes(s) : a # b /\ s[a].up # 0 /\ s[a].up = s[b].up /\ s[a].id # s[b].id => s[a].full # s[b].full

(* ---------------------------------------------------------------- what a command may change *)
Same(a, b) == a.h = b.h /\ a.I = b.I /\ a.V = b.V /\ a.T = b.T
AllSame(s, t) == \A n \in Nodes(s) : Same(s[n], t[n])
(* like AllSame, except that the split of the current inside parallel blocks may be recomputed (equal up to the solver tolerance) *)
NearSame(s, t) ==
  \A n \in Nodes(s) : LET a == s[n]  b == t[n] IN
     /\ Near(b.I, a.I, 3, 1000000) /\ Near(b.V, a.V, 4, 1000000) /\ a.T = b.T
     /\ IsCell(a) => a.soc = b.soc /\ a.tm = b.tm /\ a.ah = b.ah /\ a.wh = b.wh /\ a.ir = b.ir
Frozen(s, t, n) ==                              \* charge, counters, relaxation and temperature of the cells below n stand still
  \A m \in LeavesOf(s, n) : LET a == s[m]  b == t[m] IN
     a.soc = b.soc /\ a.tm = b.tm /\ a.ah = b.ah /\ a.wh = b.wh /\ a.ir = b.ir /\ a.T = b.T
Fixed(s, t) ==                                  \* what no command ever changes
  /\ Len(s) = Len(t)
  /\ \A n \in Nodes(s) : LET a == s[n]  b == t[n] IN
       a.k = b.k /\ a.id = b.id /\ a.ch = b.ch /\ a.up = b.up /\ a.nc = b.nc /\ a.cap = b.cap /\ a.vmin = b.vmin /\ a.vmax = b.vmax
       /\ a.VMIN = b.VMIN /\ a.VMAX = b.VMAX

(* one cell, k time steps of dt ms at its present current *)
Counters(a, b, ms) ==
  /\ Near(b.tm - a.tm, ms, 2, 1000000)
  /\ Clamped(b.ah) \/ Near(b.ah - a.ah, MulDiv2(Abs(a.I), ms, 360, 100), 3 + MulDiv2(1, ms, 360, 100), 200000)
Charge(a, b, ms) ==                             \* the stored charge falls by what is drawn
  LET q == MulMulDiv(a.I, ms, 10000, 3600, a.cap)        \* i*1e-5 A * ms*1e-3 s / 3600 / (cap*1e-3 Ah) * 1e9
  IN Clamped(q) \/ Clamped(a.soc) \/ Clamped(b.soc) \/ Near(b.soc - a.soc, -q, 5 + MulMulDiv(1, ms, 10000, 3600, a.cap), 200000)
Energy(a, b, k, slack) ==                       \* throughput energy is throughput charge times the mean voltage of the k steps, each counted with a voltage it passes through
  (a.V > 0 /\ b.V > 0 /\ ~Clamped(b.ah) /\ ~Clamped(b.wh)) =>
  LET q == b.ah - a.ah  ve == b.V + MulDiv(a.r, b.I - a.I, 10000000)  mid == (a.V + ve) \div 2  half == Abs(a.V - ve) \div (2 * Max2(k, 1))  lo == mid - half - slack  hi == mid + half + slack  w == b.wh - a.wh IN
  /\ w >= MulDiv(q, lo, 10000000) - 3 - Abs(w) \div 10000
  /\ w <= MulDiv(q, hi, 10000000) + 3 + Abs(w) \div 10000
StableDt(u, dt, c) ==                           \* the explicit integration of diffusion or relaxation is stable
  IF u.k = "k" THEN dt <= (IF u.T > 305000 THEN 500 ELSE 2000) ELSE \A q \in 1 .. Len(u.ir) : MulDiv(dt, c.it[q], 1000000) <= 1000000
(* relaxation current of an RC branch, stepwise: x' = x + dt/tau (i - x) *)
RECURSIVE Relax(_, _, _, _)
Relax(x, i, f, k) == IF k = 0 THEN x ELSE Relax(x + MulDiv(f, i - x, 1000000), i, f, k - 1)
Relaxation(a, b, c, dt, k) ==
  (k <= 60 /\ StableDt(a, dt, c)) => \A q \in 1 .. Len(a.ir) :
     Near(b.ir[q], Relax(a.ir[q], a.I, MulDiv(dt, c.it[q], 1000000), k), 2 + k + Abs(a.I) \div 20000, 20000)

(* ---------------------------------------------------------------- the guarantees, by property *)
(* Clauses selects the guarantees under test: a clause of another property is not evaluated *)
Chk(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", name>>) /\ FALSE
On(c) == c \in Clauses
P(c, name, b) == IF On(c) THEN Chk(name, b) ELSE TRUE
Pnodes(s) == { n \in Nodes(s) : s[n].k = "p" }

StateOk(t, c, B) ==        \* every snapshot t of a tree described by c, whose blocks B have been equalised
  /\ P("P15", "ownership", Ownership(t))
  /\ \A n \in Nodes(t) :
      /\ P("P15", "identity", t[n].k = c[n].k /\ t[n].id = c[n].id)
      /\ P("P12", "aggregates", Aggregates(t, n, c[n]))
      /\ P("P17", "battery", BatteryScale(t, n, c[n]))
      /\ P("P04", "voltage law", VoltageLaw(t, n, c[n]))
      /\ P("P02", "verdict of a cell", CellVerdict(t, n))
      /\ P("P14", "extremes", Extremes(t, n))
      /\ IsCell(t[n]) => P("P06", "cell law", CellLaw(t[n], c[n]))
      /\ t[n].k = "s" => P("P10", "series current", SeriesEqual(t, n)) /\ P("P10", "series voltage", SeriesLaw(t, n, c[n]))
      /\ n \in B => P("P11", "equal terminal voltages", ParallelEqual(t, n, c[n]))
      /\ t[n].k = "p" => P("P11", "sum of currents", Near(t[n].I, SumI(t, n), Len(t[n].ch), 1000000))

(* the commands: e carries arguments and result, s and t are the snapshots before and after, c the description *)
CmdSetI(e, s, t, c, b0) ==
  LET n == e.n  bad == Bad(e.st) \/ e.exc # 0  lv == { m \in LeavesOf(s, n) : TRUE } IN
  /\ P("P02", "no exception", e.exc = 0)
  /\ P("P13", "no exception", e.exc = 0)
  /\ P("P03", "setting a current takes no time", IF HasKind(s, n, {"p"}) \/ ~bad THEN Frozen(s, t, 1) ELSE TRUE)
  /\ bad => /\ IsCell(s[n]) => P("P01", "refused current leaves the cell alone", AllSame(s, t))
            /\ ~IsCell(s[n]) => P("P13", "refused current leaves the unit alone",
                 IF ~HasKind(s, n, {"p"}) THEN AllSame(s, t)
                 ELSE IF Pnodes(s) \cap Below(s, n) \subseteq b0 THEN NearSame(s, t)
                 ELSE Near(t[n].I, s[n].I, 3 + Cardinality(lv), 1000000) /\ Frozen(s, t, 1))
  /\ ~bad => /\ IsCell(s[n]) => P("P01", "accepted current is the current", Near(t[n].I, e.x, 1, 1000000))
             /\ ~IsCell(s[n]) => P("P13", "accepted current is the current", Near(t[n].I, e.x, 3 + Cardinality(lv), 1000000))
             /\ s[n].k = "s" => P("P10", "every unit of the string carries it", \A i \in 1 .. Len(s[n].ch) : Near(t[s[n].ch[i]].I, e.x, 3, 1000000))
             /\ s[n].k = "p" => P("P11", "the block carries it", Near(SumI(t, n), e.x, 3 + Len(s[n].ch), 1000000))
             /\ s[n].k = "B" => P("P17", "split over the parallel copies", Near(t[s[n].ch[1]].I, RDiv(e.x, c[n].np), 2 + Cardinality(lv), 1000000))
  /\ e.chk = 0 => /\ P("P02", "no check, no refusal", HasKind(s, n, {"p"}) \/ e.st = 0)
                  /\ P("P11", "no check, only the solver can refuse", HasKind(s, n, {"p"}) => e.st \in {0, Unequal})
  /\ (e.chk = 1 /\ e.pure /\ Len(e.tv) > 0) =>
       LET lvs == e.tv
           V(i) == LET m == CHOOSE q \in lv : Cardinality({ z \in lv : z < q }) = i - 1 IN Verdicts(s[m], lvs[i], e.x)
           vs == [ i \in 1 .. Len(lvs) |-> V(i) ] IN
       IF IsCell(s[n]) THEN P("P02", "status of the cell", e.st \in vs[1])
       ELSE /\ P("P13", "a unit which must refuse makes the string refuse", (\E i \in 1 .. Len(vs) : \A v \in vs[i] : Bad(v)) => bad)
            /\ P("P13", "refused for no reason", (\A i \in 1 .. Len(vs) : \A v \in vs[i] : ~Bad(v)) => ~bad)
            /\ P("P02", "reason of the refusal", bad => \E i \in 1 .. Len(vs) : e.st \in vs[i])

CmdSetV(e, s, t, c) ==
  LET n == e.n  bad == Bad(e.st) \/ e.exc # 0 IN
  /\ IsEcm(s[n]) =>
      /\ P("P02", "status of the cell", IF e.exc # 0 THEN s[n].ocv < 0 ELSE IF e.chk = 0 THEN e.st = 0 ELSE ~bad \/ e.st \in {VMINV, VMAXV, NoVolt})
      /\ bad => P("P01", "refused voltage leaves the cell alone", AllSame(s, t))
      /\ ~bad => P("P06", "the cell has the voltage", (s[n].soc > 0 /\ s[n].soc < 1000000000 /\ e.x > 0 /\ Abs(t[n].I) < 1999999999) => Near(t[n].V, e.x, 4, 1000000))
      /\ P("P03", "setting a voltage takes no time", Frozen(s, t, n))
  /\ ~IsEcm(s[n]) =>
      /\ P("P03", "setting a voltage takes no time", Frozen(s, t, n))
      /\ (e.st = 0 /\ e.exc = 0) => /\ P("P18", "success means the voltage", Near(t[n].V, e.x, 100, 1000000))
      /\ (Bad(e.st) /\ s[n].k # "p") => P("P18", "failure leaves the current", Near(t[n].I, s[n].I, 3 + Cardinality(LeavesOf(s, n)), 1000000))

CmdSetSOC(e, s, t, c) ==
  LET n == e.n  bad == Bad(e.st) \/ e.exc # 0 IN
  /\ bad => P("P01", "refused charge leaves the cell alone", AllSame(s, t))
  /\ (e.x < -1 \/ e.x > 1000000001) => P("P02", "impossible charge refused", e.st = SocBad)
  /\ (e.x > 0 /\ e.x < 1000000000) => P("P02", "status of the cell", IF e.exc # 0 THEN s[n].ocv < 0 ELSE IF e.chk = 0 THEN e.st = 0 ELSE e.st \in Verdicts(s[n], e.tv, s[n].sg))
  /\ ~bad => P("P01", "accepted charge is the charge", Near(t[n].soc, e.x, 1, 1000000) /\ t[n].I = s[n].I)

Shared(s, m) == \E a \in UpTo(s, m) : a # m /\ s[a].k = "p"         \* its current depends on the other branches of a block
Valid(u) == u.soc >= 0 /\ u.soc <= 1000000000 /\ u.T >= 273150 /\ u.T <= 333150 /\ (u.k = "k" => u.V > 0)
CmdStep(e, s, t, c) ==
  LET n == e.n  ms == e.x * e.k  cells == LeavesOf(s, n) IN
  IF e.x < 0 THEN /\ P("P03", "time does not run backwards", e.exc = 1 /\ e.excv = 10 /\ AllSame(s, t))
  ELSE \A m \in Nodes(s) :
       LET a == s[m]  b == t[m] IN
       IF m \in cells
       THEN /\ P("P03", "time and throughput of a cell", Counters(a, b, ms))
            /\ P("P03", "charge of a cell", IsCell(a) => Charge(a, b, ms))
            /\ (IsEcm(a) /\ Valid(a) /\ Valid(b) /\ StableDt(a, e.x, c[m])) =>
                 /\ P("P03", "energy of a cell", Energy(a, b, e.k, 200 + SumSeq([q \in 1 .. Len(a.ir) |-> MulDiv(c[m].rp[q], Abs(a.ir[q] - a.I), 10000000)])))
            /\ (a.k = "k" /\ StableDt(a, e.x, 0) /\ e.x <= 1000 /\ Abs(a.I) <= 500 * a.cap /\ a.V > 2000000 /\ b.V > 2000000) => P("P03", "energy of a cell", Energy(a, b, 1, 20000 + Abs(a.V - b.V)))
            /\ IsEcm(a) => P("P06", "relaxation", Relaxation(a, b, c[m], e.x, e.k))
            /\ ~Shared(s, m) => P("P10", "the current stays", b.I = a.I)
       ELSE IF IsCell(a) THEN P("P03", "cells elsewhere stand still", Same(a, b))
       ELSE /\ (a.k = "p" /\ ~Shared(s, m)) => P("P11", "the total current stays", Near(b.I, a.I, 3 + Len(a.ch), 1000000))
            /\ (a.k = "s" /\ ~Shared(s, m)) => P("P10", "the current of a string stays", Near(b.I, a.I, 3 + Cardinality(Below(s, m)), 1000000))
SpmRegion(s, n, dt, ms) == \A q \in LeavesOf(s, n) : s[q].k = "k" =>
   /\ StableDt(s[q], dt, 0)
   /\ s[q].V > 2800000 /\ s[q].V < 4150000 /\ Abs(s[q].I) < 3 * 100 * s[q].cap /\ Abs(MulMulDiv(s[q].I, ms, 10000, 3600, s[q].cap)) < 30000000
(* the solver of parallel blocks may give up (with an exception) only outside the region in which its iteration contracts *)
SolverRegion(s, n, ms) == \A m \in Below(s, n) : s[m].k = "p" =>
   \A i \in 1 .. Len(s[m].ch) : LET u == s[s[m].ch[i]] IN u.cap >= 10000 /\ u.cap <= 100000 /\ u.V > 1900000
      /\ \A q \in LeavesOf(s, s[m].ch[i]) : (IsEcm(s[q]) => s[q].soc > 50000000 /\ s[q].soc < 950000000) /\ Abs(MulMulDiv(s[q].I, ms, 10000, 3600, s[q].cap)) < 20000000 /\ s[q].V > 2200000 /\ s[q].V < 4250000
CmdSave(e, s, t, c) ==
  /\ P("P05", "saved the states", e.hash = s[e.n].h /\ e.exc = 0 /\ e.pref)
  /\ P("P05", "saving changes nothing", AllSame(s, t))
CmdLoad(e, s, t, c) ==
  LET n == e.n  bad == Bad(e.st) \/ e.exc # 0 IN
  /\ P("P05", "no exception", e.exc = 0)
  /\ bad => P("P05", "refused states leave the unit alone", AllSame(s, t))
  /\ ~bad => /\ P("P05", "one unit's states are consumed", e.left = 1)
             /\ P("P05", "the states are those loaded", (HasKind(s, n, {"k"}) /\ e.idx >= 0) \/ t[n].h = e.hash)
             /\ \A m \in LeavesOf(s, n) : P("P05", "impossible states accepted", t[m].soc >= -1 /\ t[m].soc <= 1000000001 /\ t[m].T >= 273149 /\ t[m].T <= 333151)
             /\ \A m \in Nodes(s) \ (Below(s, n) \cup UpTo(s, n)) : P("P05", "other units", Same(s[m], t[m]))
  /\ (IsCell(s[n]) /\ e.chk = 1 /\ ~bad) => P("P02", "status of loaded states", e.st \in Verdicts(t[n], t[n].V, t[n].sg))
  /\ (e.chk = 0 /\ e.idx < 0 /\ e.okv) => P("P05", "saved states can be loaded", ~bad)
CmdSetT(e, s, t, c) ==
  /\ P("P05", "temperature set", Near(t[e.n].T, e.x, 1, 1000000))
  /\ \A m \in Nodes(s) \ (UpTo(s, e.n) \cup (IF s[e.n].k = "B" THEN {s[e.n].ch[1]} ELSE {})) : P("P05", "temperature of other units", t[m].T = s[m].T)
  /\ \A m \in LeavesOf(s, 1) : P("P03", "temperature moves no charge", s[m].soc = t[m].soc /\ s[m].tm = t[m].tm /\ s[m].ah = t[m].ah /\ s[m].I = t[m].I)

Balanced(e, s, b) ==
  LET sub == Pnodes(s) \cap Below(s, e.n)  anc == Pnodes(s) \cap UpTo(s, e.n) IN
  CASE e.op \in {"setI"} -> IF e.exc = 0 /\ ~Bad(e.st) THEN (b \cup sub) \ (anc \ {e.n}) ELSE b \ (anc \ {e.n})
    [] e.op = "step" -> IF e.exc = 0 THEN (b \cup sub) \ (anc \ {e.n}) ELSE b \ (sub \cup anc)
    [] e.op \in {"setV", "setSOC", "load", "setT"} -> b \ (sub \cup anc)
    [] OTHER -> b


(* a command which concerns one tree only *)
Legal(e, s, t, c, b0) ==          \* b0: the blocks whose currents were equalised before
  CASE e.op = "setI" -> CmdSetI(e, s, t, c, b0)
    [] e.op = "setV" -> CmdSetV(e, s, t, c)
    [] e.op = "setSOC" -> CmdSetSOC(e, s, t, c)
    [] e.op = "setT" -> CmdSetT(e, s, t, c)
    [] e.op = "step" -> CmdStep(e, s, t, c)
    [] e.op = "save" -> CmdSave(e, s, t, c)
    [] e.op = "load" -> CmdLoad(e, s, t, c)
    [] e.op = "steal" -> P("P15", "a unit has one owner", (e.kids > 0 => e.exc = 1 /\ e.excv = 10) /\ ~e.took /\ AllSame(s, t))
    [] e.op = "block" -> P("P15", "switching models changes nothing", AllSame(s, t))
    [] OTHER -> P("P05", "looking changes nothing", AllSame(s, t))

==========================================================================
