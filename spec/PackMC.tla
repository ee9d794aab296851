----------------------------- MODULE PackMC -----------------------------
(* Operational model of the pack: what the implementation does, command by command -- a string passes a current on unit    *)
(* by unit and rolls back when one refuses, a block equalises its branches, states are loaded unit by unit -- checked       *)
(* exhaustively, within the bounds of the constants, against the laws and command contracts of Pack.tla, which are the     *)
(* same ones recorded executions are checked against. Bug names a deliberately wrong model which must be rejected.         *)
EXTENDS Pack
CONSTANTS Kind,      \* "cell", "string", "block", "battery"
          Depth, Bug
VARIABLES q,         \* per cell: charge, current, temperature, time, throughputs
          qm,        \* temperature of the module
          slot,      \* saved states
          bal, ok, n0
vars == <<q, qm, slot, bal, ok, n0>>

NC == IF Kind = "cell" THEN 1 ELSE 2
R == 200000  Capa == 10000  Vlo == 20000  Vhi == 43000
Rc == IF Kind \in {"string", "block", "battery"} THEN <<100000, 50000>> ELSE <<>>
NS == 3  NP == 2
Ocv(soc) == Vlo * 100 + MulDiv(soc, (Vhi - Vlo) * 100, 1000000000)
InCurve(soc) == soc >= 0 /\ soc <= 1000000000
VofI(soc, i) == IF InCurve(soc) THEN Ocv(soc) - MulDiv(IF Bug = "ohm" THEN R + R ELSE R, i, 10000000) ELSE 0
Vof(c) == VofI(c.soc, c.I)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Lim == [vmin |-> 27000, vmax |-> 42000, VMIN |-> Vlo, VMAX |-> Vhi]

(* ---------------------------------------------------------------- observation of a state *)
CellRec(c, n, up, id, full) ==
  LET v == Vof(c) IN
  [ n |-> n, up |-> up, k |-> "b", id |-> id, full |-> full, ch |-> <<>>, nc |-> 1, pok |-> TRUE, I |-> c.I, sg |-> Sgn(c.I), V |-> v,
    ocv |-> IF InCurve(c.soc) THEN Ocv(c.soc) ELSE -1000000, r |-> R, cap |-> Capa,
    vmin |-> 27000, vmax |-> 42000, VMIN |-> Vlo, VMAX |-> Vhi, vh |-> v, vl |-> v, T |-> c.T, hot |-> c.T,
    chk |-> IF Bug = "status" THEN VerdictAt(Lim, v, 1) ELSE VerdictAt(Lim, v, Sgn(c.I)), chkv |-> v, h |-> <<c>>, fv |-> IF Bug = "stale" THEN VofI(c.soc, 0) ELSE v, soc |-> c.soc, tm |-> c.tm, ah |-> c.ah, wh |-> c.wh, ir |-> <<>> ]
Cfg(k, id) == [ k |-> k, id |-> id, rc |-> IF k \in {"s", "p"} THEN Rc ELSE <<>>, rp |-> <<>>, it |-> <<>>, ns |-> IF k = "B" THEN NS ELSE 1,
                np |-> IF k = "B" THEN NP ELSE 1, R |-> R, cap |-> Capa ]
cfg == CASE Kind = "cell" -> <<Cfg("b", "c")>>
         [] Kind = "battery" -> <<Cfg("B", "B"), Cfg("s", "m"), Cfg("b", "c1"), Cfg("b", "c2")>>
         [] OTHER -> <<Cfg(IF Kind = "string" THEN "s" ELSE "p", "m"), Cfg("b", "c1"), Cfg("b", "c2")>>
SumOf(a, b) == a + b
ModRec(s, mT, n, up, pre) ==           \* s: its two cells
  LET a == s[1]  b == s[2]  ser == Kind # "block"
      v == IF ser THEN (IF a.V <= 0 \/ b.V <= 0 THEN 0 ELSE a.V + b.V - MulDiv(Rc[1], a.I, 10000000) - MulDiv(Rc[2], b.I, 10000000))
           ELSE a.V - MulDiv(Rc[1], a.I + b.I, 10000000)
      i == IF ser THEN a.I ELSE a.I + b.I IN
  [ n |-> n, up |-> up, k |-> IF ser THEN "s" ELSE "p", id |-> "m", full |-> pre \o "m", ch |-> <<a.n, b.n>>, nc |-> 2, pok |-> TRUE, I |-> i, sg |-> Sgn(i), V |-> v,
    ocv |-> IF a.ocv < 0 \/ b.ocv < 0 THEN -1000000 ELSE IF ser THEN a.ocv + b.ocv ELSE RDiv(a.ocv + b.ocv, 2),
    r |-> IF ser THEN 2 * R + Rc[1] + Rc[2] ELSE Rc[1] + MulDiv(R, Rc[2] + R, 2 * R + Rc[2]),
    cap |-> IF ser \/ Bug = "cap" THEN Capa ELSE 2 * Capa, vmin |-> IF ser THEN 54000 ELSE 27000, vmax |-> IF ser THEN 84000 ELSE 42000,
    VMIN |-> IF ser THEN 2 * Vlo ELSE Vlo, VMAX |-> IF ser THEN 2 * Vhi ELSE Vhi,
    vh |-> Max2(a.vh, b.vh), vl |-> IF Bug = "low" THEN a.vl ELSE Min2(a.vl, b.vl), T |-> mT, hot |-> Max2(mT, Max2(a.T, b.T)),
    chk |-> IF Bug = "worst" THEN b.chk ELSE Max2(a.chk, b.chk), chkv |-> v, h |-> <<a.h, b.h, mT>> ]
BatRec(m) ==
  [ m EXCEPT !.n = 1, !.up = 0, !.k = "B", !.id = "B", !.full = "B", !.ch = <<2>>, !.nc = 2 * NS * NP, !.I = IF Bug = "np" THEN m.I ELSE m.I * NP, !.V = m.V * NS,
             !.ocv = IF m.ocv < 0 THEN -1000000 ELSE m.ocv * NS, !.r = MulDiv(m.r, NS, NP), !.cap = m.cap * NP,
             !.vmin = m.vmin * NS, !.vmax = m.vmax * NS, !.VMIN = m.VMIN * NS, !.VMAX = m.VMAX * NS, !.chkv = m.V * NS ]
Snap(x, mT) ==
  CASE Kind = "cell" -> <<CellRec(x[1], 1, 0, "c", "c")>>
    [] Kind = "battery" -> LET a == CellRec(x[1], 3, IF Bug = "owner" THEN 1 ELSE 2, "c1", "B_m_c1")  b == CellRec(x[2], 4, 2, "c2", "B_m_c2")  m == ModRec(<<a, b>>, mT, 2, 1, "B_") IN
                           <<BatRec(m), m, a, b>>
    [] OTHER -> LET a == CellRec(x[1], 2, 1, "c1", "m_c1")  b == CellRec(x[2], 3, 1, "c2", "m_c2") IN <<ModRec(<<a, b>>, mT, 1, 0, ""), a, b>>

(* ---------------------------------------------------------------- commands *)
Ev(op) == [ op |-> op, n |-> 1, st |-> 99, exc |-> 0, excv |-> 0 ]
CellSetI(c, i, chk) ==                 \* one cell: <<status, cell>>
  LET t == [c EXCEPT !.I = i]  v == VerdictAt(Lim, Vof(t), Sgn(i)) IN
  IF chk = 0 THEN <<0, t>> ELSE IF Bad(v) THEN <<v, IF Bug = "keep" THEN t ELSE c>> ELSE <<v, t>>
Split(x, i) ==
  LET d == Ocv(x[1].soc) - Ocv(x[2].soc)
      i2 == MulDiv(MulDiv(R, i, 10000000) - d, 10000000, 2 * R + Rc[2]) IN
  <<[x[1] EXCEPT !.I = i - i2], [x[2] EXCEPT !.I = IF Bug = "split" THEN i2 + 3000 ELSE i2]>>
Usable(x) == \A j \in 1 .. NC : InCurve(x[j].soc)
ModSetI(x, i, chk) ==
  IF Kind = "block" THEN
    LET y == Split(x, i)  v == [ j \in 1 .. 2 |-> VerdictAt(Lim, Vof(y[j]), Sgn(y[j].I)) ] IN
    IF chk = 1 /\ (Bad(v[1]) \/ Bad(v[2])) THEN <<IF Bad(v[1]) THEN v[1] ELSE v[2], IF Bug = "keep" THEN y ELSE x>> ELSE <<0, y>>
  ELSE
    LET a == CellSetI(x[1], i, chk) IN
    IF Bad(a[1]) THEN <<a[1], <<a[2], x[2]>>>>
    ELSE LET b == CellSetI(x[2], i, chk) IN
         IF Bad(b[1]) THEN <<b[1], IF Bug = "rollback" THEN <<a[2], b[2]>> ELSE x>> ELSE <<0, <<a[2], b[2]>>>>
SetI(i, chk) ==
  /\ Usable(q)
  /\ LET ii == IF Kind = "battery" THEN RDiv(i, NP) ELSE i
         r == IF Kind = "cell" THEN LET a == CellSetI(q[1], i, chk) IN <<a[1], <<a[2]>>>> ELSE ModSetI(q, ii, chk)
         tv == IF Kind \in {"cell", "string"} THEN [ j \in 1 .. NC |-> VofI(q[j].soc, i) ] ELSE <<>>
         e == [ Ev("setI") EXCEPT !.st = r[1] ] @@ [ x |-> i, chk |-> chk, pure |-> Kind \in {"cell", "string"}, tv |-> tv ] IN
     /\ q' = r[2] /\ UNCHANGED <<qm, slot>>
     /\ bal' = Balanced(e, Snap(q, qm), bal)
     /\ ok' = Legal(e, Snap(q, qm), Snap(q', qm'), cfg, bal)
CellStep(c, ms) ==
  LET dq == MulMulDiv(c.I, ms, 10000, 3600, Capa)  da == MulDiv2(Abs(c.I), ms, 360, 100)
      t == [c EXCEPT !.soc = IF Bug = "charge" THEN c.soc + dq ELSE c.soc - dq, !.tm = c.tm + ms, !.ah = IF Bug = "ah" THEN c.ah + da + da ELSE c.ah + da] IN
  [t EXCEPT !.wh = c.wh + MulDiv(da, Vof(t), 10000000)]
Step(ms) ==
  /\ Usable(q)
  /\ LET y == [ j \in 1 .. NC |-> CellStep(q[j], ms) ]
         z == IF Kind = "block" /\ Usable(y) THEN (IF Bug = "total" THEN Split(y, y[1].I) ELSE Split(y, y[1].I + y[2].I)) ELSE y
         e == Ev("step") @@ [ x |-> ms, k |-> 1 ] IN
     /\ q' = z /\ UNCHANGED <<qm, slot>> /\ Usable(y)
     /\ bal' = Balanced(e, Snap(q, qm), bal)
     /\ ok' = Legal(e, Snap(q, qm), Snap(q', qm'), cfg, bal)
Save ==
  LET e == Ev("save") @@ [ hash |-> Snap(q, qm)[1].h, pref |-> TRUE ] IN
  /\ slot' = <<q, qm>> /\ UNCHANGED <<q, qm, bal>>
  /\ ok' = Legal(e, Snap(q, qm), Snap(q', qm'), cfg, bal)
ValidC(c) == InCurve(c.soc) /\ c.T >= 273150 /\ c.T <= 333150
(* entry m of the vector replaced: charge of cell m *)
Load(m, s, chk) ==
  /\ slot # <<>>
  /\ LET v == IF m = 0 THEN slot[1] ELSE [ slot[1] EXCEPT ![m].soc = s ]
         bad(j) == ~ValidC(v[j]) \/ (chk = 1 /\ Bad(VerdictAt(Lim, Vof(v[j]), Sgn(v[j].I))))
         some == \E j \in 1 .. NC : bad(j)
         first == CHOOSE j \in 1 .. NC : bad(j) /\ \A jj \in 1 .. j - 1 : ~bad(jj)
         st == IF ~some THEN (IF Kind = "cell" /\ chk = 1 THEN VerdictAt(Lim, Vof(v[1]), Sgn(v[1].I)) ELSE 0) ELSE IF ~ValidC(v[first]) THEN StatesBad ELSE VerdictAt(Lim, Vof(v[first]), Sgn(v[first].I))
         part == [ j \in 1 .. NC |-> IF j < first THEN v[j] ELSE q[j] ]
         y == IF some THEN (IF Bug = "partial" THEN part ELSE q) ELSE v
         e == [ Ev("load") EXCEPT !.st = st ] @@ [ chk |-> chk, idx |-> IF m = 0 THEN -1 ELSE 1, left |-> IF some THEN 2 ELSE 1, okv |-> \A j \in 1 .. NC : ValidC(v[j]), hash |-> Snap(v, slot[2])[1].h ] IN
     /\ q' = y /\ qm' = IF some THEN qm ELSE slot[2]
     /\ bal' = Balanced(e, Snap(q, qm), bal) /\ UNCHANGED slot
     /\ ok' = Legal(e, Snap(q, qm), Snap(q', qm'), cfg, bal)
SetSOC(s, chk) ==
  /\ Kind = "cell"
  /\ LET t == [q[1] EXCEPT !.soc = s]  v == VerdictAt(Lim, Vof(t), Sgn(t.I))
         st == IF ~InCurve(s) THEN SocBad ELSE IF chk = 0 THEN 0 ELSE v
         e == [ Ev("setSOC") EXCEPT !.st = st ] @@ [ x |-> s, chk |-> chk, tv |-> Vof(t) ] IN
     /\ q' = (IF Bad(st) THEN q ELSE <<t>>) /\ UNCHANGED <<qm, slot>>
     /\ bal' = bal /\ ok' = Legal(e, Snap(q, qm), Snap(q', qm'), cfg, bal)
SetT(T) ==
  LET e == Ev("setT") @@ [ x |-> T ] IN
  /\ (IF Kind = "cell" THEN q' = <<[q[1] EXCEPT !.T = T]>> /\ qm' = qm ELSE qm' = T /\ q' = q) /\ UNCHANGED slot
  /\ bal' = Balanced(e, Snap(q, qm), bal) /\ ok' = Legal(e, Snap(q, qm), Snap(q', qm'), cfg, bal)

Socs == {50000000, 500000000, 970000000}
Cell0(s) == [ soc |-> s, I |-> 0, T |-> 288000, tm |-> 0, ah |-> 0, wh |-> 0 ]
Init == /\ \E s1, s2 \in Socs : q = [ j \in 1 .. NC |-> Cell0(IF j = 1 THEN s1 ELSE s2) ]
        /\ qm = 288000 /\ slot = <<>> /\ bal = {} /\ ok = TRUE /\ n0 = 0
Next == /\ n0 < Depth /\ n0' = n0 + 1
        /\ \/ \E i \in {0, 500000, -500000, 6000000, -6000000, 26000000}, chk \in {0, 1} : SetI(i, chk)
           \/ \E ms \in {0, 10000, 36000} : Step(ms)
           \/ Save
           \/ \E m \in 0 .. NC, s \in {-100000000, 0, 20000000, 1000000000, 1200000000}, chk \in {0, 1} : (m = 0 => s = 0) /\ Load(m, s, chk)
           \/ \E s \in {-200000000, 0, 300000000, 1000000000}, chk \in {0, 1} : SetSOC(s, chk)
           \/ \E T \in {283000, 300000} : SetT(T)
Spec == Init /\ [][Next]_vars
View == <<q, qm, slot, bal, ok>>
CommandsLegal == ok
LawsHold == StateOk(Snap(q, qm), cfg, bal)
(* what the contracts are for *)
NoChargeFromNothing == \A j \in 1 .. NC : q[j].tm >= 0 /\ q[j].ah >= 0
==========================================================================
