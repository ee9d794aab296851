------------------------------- MODULE Age -------------------------------
(* A physics-based (single particle) cell: lithium moves between two electrodes, ageing mechanisms selected by the user take *)
(* lithium away, grow layers and cracks, and consume active material; the voltage is made of the equilibrium potentials at   *)
(* the particle surfaces and the losses. AgeMC.tla checks a model of the cell, AgeTrace.tla recorded executions.             *)
(* Units: charge of lithium 1e-6 C (totals 1e-4 C), fractions and shares 1e-9, increments 1e-8 of the largest in the row,    *)
(* voltage 1 uV, temperature 1e-4 K, resistance 1e-9 Ohm, current 1e-6 A.                                                    *)
EXTENDS Num, TLC
CONSTANT Clauses
Chk(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", name>>) /\ FALSE
P(c, name, b) == IF c \in Clauses THEN Chk(name, b) ELSE TRUE
K9 == 1000000000
\* the ageing states, in this order
Delta == 1  LLI == 2  ThickP == 3  ThickN == 4  Ep == 5  En == 6  Ap == 7  An == 8  Crack == 9  Dp == 10  Dn == 11  Plated == 12
NAge == 15                                     \* 13 .. 15: specific resistances
Sum(s, F(_)) == SumSeq([i \in 1 .. Len(s) |-> F(s[i])])
In(x, s) == \E i \in 1 .. Len(s) : s[i] = x
None(c) == c.sei = <<>> /\ c.cs = <<>> /\ c.lam = <<>> /\ c.pl = 0 /\ c.por = 0

(* ---------------------------------------------------------------- lithium (P07) *)
\* what a time step does to the lithium: charge I t leaves the anode and enters the cathode, side reactions take more from the anode.
\* g: surface of the active material relative to that of its volume (1 unless a mechanism decouples them)
LithiumStep(e) ==
  /\ P("P07", "lithium arriving in the cathode", Near(e.dlp, MulDiv(e.it, e.gp, K9), 3, 100000000))
  /\ P("P07", "lithium leaving the anode", Near(e.dln, -MulDiv(e.it + e.dll, e.gn, K9), 3, 100000000))
  /\ P("P07", "lost lithium comes back", e.dll >= 0)
  /\ P("P07", "side reactions although blocked", e.blk => e.dll = 0)
LithiumTotals(c, u, e) ==
  /\ P("P07", "lithium of the cathode", (In(1, c.lam) \/ In(2, c.lam) \/ In(3, c.lam)) \/ Abs(e.lp - u.lp - RDiv(e.dlp, 100)) <= 2)
  /\ P("P07", "lithium of the anode", (c.por = 1 \/ In(1, c.lam) \/ In(2, c.lam)) \/ Abs(e.ln - u.ln - RDiv(e.dln, 100)) <= 2)
\* without current the concentration evens out: mp and mn measure how uneven it is
Relax(u, e) ==
  LET rest == u.I = 0 /\ e.dt <= 1000 IN
  /\ P("P07", "uneven concentration at rest", (rest => e.mp <= u.mp + 2))
  /\ P("P07", "uneven concentration at rest, anode", (rest /\ e.dll = 0 => e.mn <= u.mn + 2))
  /\ P("P07", "does not even out", (rest /\ e.dt * e.n >= 600000 /\ u.T >= 2830000 => e.mp <= u.mp \div 50 + 2 /\ (e.dll = 0 => e.mn <= u.mn \div 50 + 2)))
\* after a long time with the same current the profile is that of a sphere with a constant flux
Steady(u, e) ==
  LET const == e.dt <= 1000 /\ e.dt * e.n >= 1200000 /\ u.I # 0 /\ u.T >= 2880000 /\ u.T <= 3200000 IN
  P("P07", "steady profile", const /\ e.T = u.T /\ e.dll <= Abs(e.it) \div 10000 => Near(e.sp - e.cp, e.qp, 20000 , 40) /\ Near(e.sn - e.cn, e.qn, 20000, 40))
\* what is known of the concentrations at any time
Profile(e) ==
  /\ P("P07", "even concentration", e.I = 0 => e.dp <= 40 * (IF e.mp > 20000000 THEN 20000000 ELSE e.mp) + 20 /\ e.dn <= 40 * (IF e.mn > 20000000 THEN 20000000 ELSE e.mn) + 20)
  /\ P("P07", "concentration at the surface", Abs(e.sp - e.zp) <= 2 /\ Abs(e.sn - e.zn) <= 2)
Kept(e) == P("P07", "no lithium moves without time", e.dcp = 0 /\ e.dcn = 0)

(* ---------------------------------------------------------------- ageing is one-way (P08) *)
Grow == {Delta, LLI, Crack, Plated}
\* charging can swell the anode when the growth of the film is coupled to its porosity
Dirs(c, k, charging) == IF k \in Grow THEN {0, 1} ELSE IF k \in {En, An} /\ c.por = 1 /\ charging THEN {-1, 0, 1} ELSE IF k \in {ThickP, ThickN, Ep, En, Ap, An, Dn} THEN {-1, 0} ELSE {0}
OneWay(c, e) ==
  /\ P("P08", "wrong direction", \A k \in 1 .. NAge : e.dir[k] \in Dirs(c, k, e.it < 0))
  /\ P("P08", "ageing although blocked", e.blk => \A k \in 1 .. NAge : e.dir[k] = 0)
  /\ P("P08", "ageing without a mechanism", None(c) => \A k \in 1 .. NAge : e.dir[k] = 0)
NoAgeing(e) == P("P08", "aged by a command", ~e.aged)

(* ---------------------------------------------------------------- selection and factors (P09) *)
Row(e, name) == LET i == CHOOSE i \in 1 .. Len(e.who) : e.who[i] = name IN e.row[i + 1]
Sc(x, f) == MulDiv(x, f, 1000000)
\* what the cell should do in state k according to the cells with one mechanism each (z: with none)
Expected(c, e, k) ==
  LET z == Row(e, "0")[k]
      R(p, m) == Row(e, p \o ToString(m))[k] - z
      S(p, s) == Sum(s, LAMBDA m : R(p, m))
      pl == IF c.pl = 1 THEN Row(e, "p1")[k] - z ELSE 0
      sei == S("s", c.sei) IN
  CASE k = LLI -> z + Sc(sei + Len(c.cs) * MulDiv(sei, e.crack, K9) + pl, c.fs)        \* cracks expose more surface to the film
    [] OTHER -> z + Sc(sei + S("c", c.cs) + pl, c.fs) + Sc(S("l", c.lam), c.fl)
\* some mechanisms are limited in speed: then only the bound is known
Limited(e, k) ==
  LET cap == CASE k = Dn -> e.capDn [] k = Ep -> e.capEp [] k = Ap -> e.capAp [] OTHER -> -2000000000 IN
  cap > -2000000000 /\ \E i \in 1 .. Len(e.row) : e.row[i][k] <= cap + Abs(cap) \div 1000 + 2
Tol(c, e, k) == 4 * (Len(e.who) + 2) * Min2(e.eps[k], 20000000) + 20
Matches(c, e, k) == Near(e.row[1][k], Expected(c, e, k), Tol(c, e, k), 1000000)
Selection(c, e) ==
  IF ~c.known THEN P("P09", "unknown mechanism accepted", e.blk \/ e.exc # 0 \/ e.dt = 0)
  ELSE /\ P("P09", "known mechanism refused", e.exc # 106)
       /\ P("P09", "fails although no mechanism does", e.exc = 0 \/ e.texc # 0)
       /\ (e.exc = 0 /\ e.texc = 0) =>
            /\ \A k \in 1 .. NAge : P("P09", "not the sum of the selected mechanisms, state " \o ToString(k), Limited(e, k) \/ Matches(c, e, k))
            /\ P("P09", "ageing acts on other states within the step", e.same)
            \* the states only the selected mechanisms may touch
            /\ P("P09", "film without its mechanism", e.dir[Delta] = 0 \/ c.sei # <<>>)
            /\ P("P09", "lithium lost without a mechanism", e.dir[LLI] = 0 \/ c.sei # <<>> \/ c.pl = 1)
            /\ P("P09", "cracks without their mechanism", (e.dir[Crack] = 0 \/ c.cs # <<>>) /\ (e.dir[Dn] = 0 \/ (c.cs # <<>> /\ c.csd = 1)))
            /\ P("P09", "active material lost without a mechanism", c.lam = <<>> => e.dir[ThickP] = 0 /\ e.dir[ThickN] = 0 /\ e.dir[Ep] = 0 /\ e.dir[Ap] = 0 /\ (c.por = 0 => e.dir[En] = 0 /\ e.dir[An] = 0))
            /\ P("P09", "plating without its mechanism", e.dir[Plated] = 0 \/ c.pl = 1)
Size(e) == e.exc = 0 /\ e.uexc = 0 =>
  /\ P("P09", "cell of another size, concentrations", e.uz <= 20)
  /\ P("P09", "cell of another size, charge", Near(e.us, e.dsoc, 2, 100000000))
Built(c) ==
  /\ P("P09", "variations", c.v1 = c.capf /\ c.v2 = c.resf /\ c.v3 = c.fs /\ c.v4 = c.fl)
  /\ P("P09", "capacity factor", Near(c.cap, Sc(c.C0, c.capf), 2, 100000000))
  /\ P("P09", "resistance factor", Near(Sc(c.R0, c.capf), c.R1 + Sc(c.R2 - c.R1, c.resf - 1000000), 5, 10000000))

(* ---------------------------------------------------------------- voltage (P19) *)
Lin(b, x) == b[2] + MulDiv(b[4] - b[2], x - b[1], b[3] - b[1])      \* straight line through two points
Inside(b, x) == b[1] - 2 <= x /\ x <= b[3] + 2
Eta(T, x) == MulMulDiv(T, 172334, Asinh(x), 10000000, 100000000)  \* kinetic loss 2 R T / F asinh(x)
Equilibrium(e) == Lin(e.cvp, e.zp) - Lin(e.cvn, e.zn) + MulDiv(e.T - 2980000, Lin(e.cve, e.zp), 10000000)
Ohm(e) == e.Rs + e.Rp + e.Rn + e.Rc
VoltageOf(ocv, T, xp, xn, R, I) == ocv - Eta(T, xp) - Eta(T, xn) - MulDiv(I, R, K9)
Voltage(e) ==
  LET in == Inside(e.cvp, e.zp) /\ Inside(e.cvn, e.zn) /\ Inside(e.cve, e.zp) IN
  /\ P("P19", "resistance", Near(e.R, Ohm(e), 4, 10000000))
  /\ (e.ok /\ in /\ ~Clamped(e.xp) /\ ~Clamped(e.xn)) =>
       /\ P("P19", "equilibrium voltage", Near(e.ocv, Equilibrium(e), 4, 10000000))
       /\ P("P19", "voltage", Near(e.V, VoltageOf(Equilibrium(e), e.T, e.xp, e.xn, e.R, e.I), 15, 200000))
       /\ P("P19", "losses against the current", e.I = 0 => Abs(e.V - e.ocv) <= 2)

(* ---------------------------------------------------------------- the events *)
StepOk(c, u, e) ==
  /\ P("P08", "a step of no duration changes the cell", e.dt = 0 => e.h = u.h)
  /\ Selection(c, e)
  /\ (e.exc = 0 /\ c.known) => /\ (~Clamped(e.it) /\ ~Clamped(e.dll) => LithiumStep(e) /\ LithiumTotals(c, u, e))
                               /\ Relax(u, e) /\ Steady(u, e) /\ OneWay(c, e) /\ Size(e)
CommandOk(e) == (e.op \notin {"load", "setC"} => Kept(e)) /\ (e.op # "load" => NoAgeing(e))
LookOk(e) == Profile(e) /\ Voltage(e)
==========================================================================
