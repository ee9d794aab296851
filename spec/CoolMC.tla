------------------------------- MODULE CoolMC -------------------------------
(* A cooling system with its thermostats and accounts, and packs made of a list of heat exchanging pairs (each amount leaves   *)
(* one element and reaches the other one). Checked exhaustively against Cool.tla, the clauses recorded executions are checked  *)
(* against. Bug names a deliberately wrong machine which must be rejected.                                                     *)
EXTENDS Cool
CONSTANTS Steps, Bug, Small
VARIABLES c, u, n, ok
vars == <<c, u, n, ok>>
(* ------------------------------------------------ thermostats *)
Hot(on, off, T, was, max) == IF T >= on THEN max ELSE IF T <= off THEN 0 ELSE was
FanM(k, ctl, was, l, g) ==
  IF k = "open" THEN 0
  ELSE CASE ctl = 1 -> IF Bug = "stuck" THEN was ELSE Full
         [] ctl = 2 -> Hot(Deg(35), IF Bug = "dead" THEN Deg(35) - 1 ELSE Deg(25), l, was, Full)
         [] ctl = 3 -> Hot(Deg(35), Deg(25), IF Bug = "global" THEN l ELSE g, was, Full)
         [] OTHER -> LET x == (IF ctl = 5 THEN g ELSE l) - Deg(25) IN IF x <= 20000 THEN 0 ELSE (IF Bug = "gain" THEN 400 ELSE 500) * x
AcM(k, ctl, c0, full, was, T, g) ==
  IF k # "hvac" THEN 0
  ELSE IF T < Deg(20) /\ Bug # "acfloor" THEN 0
  ELSE LET on == IF c0 \in {3, 5} THEN Deg(30) ELSE Deg(25)  to == IF c0 = 5 THEN Deg(25) ELSE Deg(20)  x == (IF ctl = 5 THEN g ELSE T) - to IN
       CASE ctl = 1 -> full
         [] ctl = 2 -> Hot(on, Deg(20), T, was, full)
         [] ctl = 3 -> IF T <= Deg(20) THEN 0 ELSE Hot(on, -1, g, was, full)
         [] OTHER -> IF T <= Deg(20) \/ x <= Max2(20000, (on - to) \div 5) THEN 0 ELSE Min2(full, MulDiv(full, x, on - to))
HM(k, f) == IF k = "open" THEN 90000000 ELSE IF f = 0 THEN 0 ELSE LET v == (f * 2) \div 5 IN 12120000 - RDiv(v * 29, 25) + 116 * (SqrtMicro(v) \div 10)
(* ------------------------------------------------ one cooling system *)
Zero == [ev |-> 0, ab |-> 0, tm |-> 0, en |-> 0, ac |-> 0]
Of(x) == [ctl |-> x.ctl, f |-> x.f, q |-> x.q, T |-> x.T, h |-> x.h, ex |-> TRUE]
Show(x) == [x EXCEPT !.h = HM(c.k, x.f)]
Kinds1 == {"std", "hvac", "open"}
Ns == IF Small THEN {1, 9} ELSE {1, 3, 9, 100}
LoneInit == \E k \in Kinds1, m \in Ns, s \in 1 .. 5, Q0 \in {0, 125000} :
  LET full == IF k = "hvac" THEN 75000 * m + Q0 ELSE 0 IN
  /\ (Q0 > 0 => k = "hvac")
  /\ c = [lone |-> TRUE, k |-> k, n |-> m, c0 |-> s, q |-> full, Q0 |-> Q0]
  /\ u = [ctl |-> s, f |-> IF k = "open" THEN 0 ELSE Full, q |-> full, T |-> Env, h |-> HM(k, IF k = "open" THEN 0 ELSE Full), ex |-> TRUE]
  /\ ok = Built([k |-> k, n |-> m, c0 |-> s, ctl |-> s, f |-> u.f, q |-> full, Q0 |-> Q0, T |-> Env])
Ts == IF Small THEN {Deg(20), Deg(26), Deg(35)} ELSE {Deg(18), Deg(20), Deg(22), Deg(25), Deg(26), Deg(28), Deg(30), Deg(35), Deg(40)}
Emit(e) == ok' = (Lone(c, u, e) /\ LookOk(c.k, e)) /\ u' = Of(e)
Ctrl == \E l \in Ts, g \in Ts : l <= g /\
  LET x == [u EXCEPT !.f = FanM(c.k, u.ctl, u.f, l, g), !.q = AcM(c.k, u.ctl, c.c0, c.q, u.q, u.T, g)] IN
  Emit([op |-> "ctrl", a |-> l, b |-> g] @@ (IF Bug = "late" THEN x ELSE Show(x)) @@ Zero)
SetT == \E t \in {Deg(-1), Deg(80), Deg(18), Deg(24), Deg(33)} :
  LET bad == (t < Deg(0) \/ t > Deg(75)) IN
  Emit([op |-> "setT", t |-> t, exc |-> IF bad THEN 99 ELSE 0] @@ Show([u EXCEPT !.T = IF bad /\ Bug # "anyT" THEN @ ELSE t]) @@ Zero)
CapM(x) == LET vol == IF c.k = "hvac" THEN MulDiv2(c.q, 10000, 75000, 1) ELSE 10000 * x IN MulDiv2(vol, 1231125, 100000, 1)
EnM(f, q, T, t) ==
  LET fan == MulDiv2(MulDiv(MulDiv2(f, f, Full, 50), f, Full), 24500 * c.n, 1000000, 1)        \* f in Full: 1e4; 1e-5 W
      v == IF T < Env + 50000 \/ q = 0 THEN 0 ELSE MulMulDiv(q, 1600000, 1000, 9849 * c.n, T - Env)
      wind == MulMulDiv(MulDiv2(v, v, 10000, 1), v, 6125 * c.n, 10000, 1000000)
      ac == IF c.k # "hvac" THEN 0 ELSE IF T < Env + 50000 THEN MulMulDiv(q, t, 3, 100, 1) ELSE MulDiv(wind, t, 10000) IN
  MulDiv(fan, t, 1000) + ac
Dst == \E E \in {0, 20000, -300000, 3000000}, t \in {0, 1000, 60000}, set \in BOOLEAN, h \in {0, 1} :
  LET hc == IF h = 0 THEN E ELSE 10000
      refused == c.k = "hvac" /\ E # hc
      acq == IF c.k = "hvac" /\ Bug # "noac" THEN MulDiv(u.q, t, 10000) ELSE 0
      net == E - acq
      Tn == u.T + RDiv(RDiv(net * 10, CapM(IF Bug = "cap" THEN 1 ELSE c.n)) * 1000, 10)
      dT == MulDiv(net, 1000000, CapM(IF Bug = "cap" THEN 1 ELSE c.n))
      T1 == RDiv(u.T * 10 + RDiv(dT, 100), 10)
      bad == set /\ (T1 < Deg(0) \/ T1 > Deg(75))
      take == set /\ ~bad
      x == [u EXCEPT !.T = IF take /\ ~refused THEN T1 ELSE @]
      z == IF refused THEN Zero ELSE [ev |-> IF Bug = "absorbed" THEN net ELSE hc, ab |-> net, tm |-> IF Bug = "twice" THEN 2 * t ELSE t, en |-> EnM(u.f, u.q, u.T, t), ac |-> IF c.k = "hvac" THEN acq ELSE 0] IN
  /\ (Small => h = 0) /\ Emit([op |-> "dst", e |-> E, hc |-> hc, t |-> t, exc |-> IF refused THEN 10 ELSE 0, set |-> set, sx |-> IF bad THEN 99 ELSE 0, dT |-> IF refused THEN 0 ELSE dT, Tn |-> T1] @@ Show(x) @@ z)
Strat == \E s \in 1 .. 5 : Emit([op |-> "strat", s |-> s] @@ Show([u EXCEPT !.ctl = s, !.f = IF Bug = "strat" /\ s = 4 /\ c.k # "open" THEN 0 ELSE @]) @@ Zero)
Copy == Emit([op |-> "copy"] @@ Show(IF Bug = "copy" THEN [u EXCEPT !.T = Env] ELSE u) @@ Zero)
LoneNext == Ctrl \/ SetT \/ Dst \/ Strat \/ Copy
(* ------------------------------------------------ packs *)
\* shapes: a cell; 2 and 3 cells in a container; two blocks in a container; a battery with two cells
U(k, up, ch, nc) == [k |-> k, up |-> up, ch |-> ch, nc |-> nc]
Shapes == [cell |-> <<U("k", 0, <<>>, 1)>>,
           two |-> <<U("hvac", 0, <<2, 3>>, 2), U("k", 1, <<>>, 1), U("k", 1, <<>>, 1)>>,
           three |-> <<U("hvac", 0, <<2, 3, 4>>, 3), U("k", 1, <<>>, 1), U("k", 1, <<>>, 1), U("k", 1, <<>>, 1)>>,
           blocks |-> <<U("hvac", 0, <<2, 5>>, 3), U("std", 1, <<3, 4>>, 2), U("k", 2, <<>>, 1), U("k", 2, <<>>, 1), U("k", 1, <<>>, 1)>>,
           bat |-> <<U("hvac", 0, <<2>>, 2), U("std", 1, <<3, 4>>, 2), U("k", 2, <<>>, 1), U("k", 2, <<>>, 1)>>]
Es == 620000
PackInit == \E s \in DOMAIN Shapes, ctl \in {1, 2, 4}, tm \in {0, 1, 2} :
  LET sh == Shapes[s]
      unit(i) == sh[i] @@ [ctl |-> IF ctl = 4 /\ sh[i].up # 0 THEN 2 ELSE ctl, q |-> IF sh[i].k = "hvac" THEN 75000 * sh[i].nc + (IF s = "bat" THEN 100000 ELSE 0) ELSE 0,
                           f |-> IF IsCell(sh[i]) THEN 0 ELSE Full, A |-> IF IsCell(sh[i]) THEN 42000 ELSE 300000, es |-> Es] IN
  /\ c = [lone |-> FALSE, bat |-> s = "bat", tm |-> tm, u |-> [i \in 1 .. Len(sh) |-> unit(i)]]
  /\ \E hot \in 1 .. Len(sh), hot2 \in 1 .. Len(sh) : hot <= hot2 /\ u = [i \in 1 .. Len(sh) |-> [T |-> IF i = hot THEN 303000000 ELSE IF i = hot2 THEN 296500000 ELSE 293500000, f |-> c.u[i].f, q |-> c.u[i].q]]   \* 1e-6 K
  /\ ok = PackBuilt([bat |-> c.bat, u |-> c.u])
\* pairs of elements which exchange heat: <<a, b, power from a to b>>, 1e-5 W
Pairs(hOf(_)) ==
  LET N == Len(c.u)
      A(a, b) == Min2(c.u[a].A, c.u[b].A)
      W(h, a, b) == MulMulDiv(h, A(a, b), u[a].T - u[b].T, M6, 10000000)
      kids(m) == [j \in 1 .. Len(c.u[m].ch) |-> LET x == c.u[m].ch[j] IN
                   <<m, x, W(hOf(m), m, x) + (IF c.bat /\ m = 1 THEN 0 ELSE (IF j = 1 THEN 1 ELSE 0) * W(Cell2Cell, m, x) + (IF j = Len(c.u[m].ch) /\ Bug # "edge" THEN 1 ELSE 0) * W(Cell2Cell, m, x)) >>]
      rows(m) == [j \in 1 .. Max2(0, Len(c.u[m].ch) - 1) |-> LET a == c.u[m].ch[j]  b == c.u[m].ch[j + 1] IN <<a, b, W(Cell2Cell, a, b)>>]
      all == [m \in 1 .. N |-> kids(m) \o rows(m)] IN
  IF N = 1 THEN <<>> ELSE all[1] \o (IF N >= 2 THEN all[2] ELSE <<>>) \o (IF N >= 3 THEN all[3] ELSE <<>>)
Gain(ps, i) == SumSeq([k \in 1 .. Len(ps) |-> IF ps[k][2] = i THEN ps[k][3] ELSE IF ps[k][1] = i /\ ~(Bug = "oneway" /\ IsCell(c.u[ps[k][1]])) THEN -ps[k][3] ELSE 0])
FromKids(ps, i) == SumSeq([k \in 1 .. Len(ps) |-> IF ps[k][1] = i /\ c.u[ps[k][2]].up = i THEN -ps[k][3] ELSE 0])
\* the converter at 8 V without current and at 50 A, worked out by hand: 1e-3 W
Cur(l) == IF l = 0 THEN 0 ELSE 500000
Conv(l) == IF l = 0 THEN (IF Bug = "idle" THEN 0 ELSE 88000 + 1104000 + 309259) ELSE 58019 + 48000 + 7 + 1101440 + 309259 + 3 + (IF Bug = "conduct" THEN 0 ELSE 34000)
Step == \E dt \in {0, 1000, 10000}, blk \in BOOLEAN, gen \in {0, 300000}, con \in {0, 20000}, loss \in {0, 4000} :
  LET N == Len(c.u)  off == (blk /\ Bug # "block") \/ c.tm = 0
      lossJ == IF c.bat THEN MulDiv(Conv(loss), dt, 100000) ELSE 0
      unit0(i) == LET s == c.u[i] IN s @@ u[i]
      lmax(i) == LET ch == IF c.bat /\ i = 1 THEN c.u[2].ch ELSE c.u[i].ch IN MaxSeq([j \in 1 .. Len(ch) |-> RDiv(u[ch[j]].T, 100)])
      gmax(i) == MaxSeq([j \in 1 .. N |-> IF i = 1 \/ j = i \/ c.u[j].up = i THEN RDiv(u[j].T, 100) ELSE 0])
      fNow(i) == IF IsCell(c.u[i]) THEN 0 ELSE IF i = 1 \/ c.tm # 2 \/ off \/ dt = 0 THEN u[i].f ELSE FanM(c.u[i].k, c.u[i].ctl, u[i].f, lmax(i), gmax(i))
      hOf(i) == IF IsCell(c.u[i]) THEN 0 ELSE HM(c.u[i].k, fNow(i))
      ps == Pairs(hOf)
      capC == 127401 \* J/K of a cell, 1e-3
      qcell(i) == gen
      acq(i) == IF c.u[i].k = "hvac" THEN MulDiv(u[i].q, dt, 10000) ELSE 0
      hcool(i) == MulDiv(FromKids(ps, i) + (IF Bug = "ohm" THEN 0 ELSE con), dt, 100000) + (IF i = 1 /\ c.bat /\ Bug # "lossfree" THEN lossJ * 100 ELSE 0)
      rec(i) == MulDiv(Gain(ps, i) - FromKids(ps, i), dt, 100000)
      ab(i) == hcool(i) + rec(i) - acq(i)
      dT(i) == IF off \/ dt = 0 THEN 0
               ELSE IF IsCell(c.u[i]) THEN (IF c.tm = 1 \/ N = 1 THEN MulMulDiv(qcell(i) + MulMulDiv(45000000, 42000, Env * 100 - u[i].T, M6, 10000000), dt, 100, capC, 1)
                                            ELSE MulMulDiv(qcell(i) + Gain(ps, i), dt, 100, capC, 1))
               ELSE IF c.tm = 1 THEN (IF c.bat /\ i = 1 THEN 7 ELSE 0)
               ELSE MulDiv(ab(i), 1000000, HeatCap(c.u[i].k, c.u[i].nc, c.u[i].q))
      t1(i) == u[i].T + RDiv(dT(i), 10)
      T1(i) == RDiv(t1(i), 100)
      lnew(i) == LET ch == IF c.bat /\ i = 1 THEN c.u[2].ch ELSE c.u[i].ch IN MaxSeq([j \in 1 .. Len(ch) |-> T1(ch[j])])
      gnew(i) == MaxSeq([j \in 1 .. N |-> IF i = 1 \/ j = i \/ c.u[j].up = i THEN T1(j) ELSE 0])
      f1(i) == IF IsCell(c.u[i]) THEN 0 ELSE IF i = 1 /\ ~blk THEN FanM(c.u[i].k, c.u[i].ctl, u[i].f, lnew(i), gnew(i)) ELSE IF ~blk THEN FanM(c.u[i].k, c.u[i].ctl, u[i].f, lmax(i), gmax(i)) ELSE u[i].f
      q1(i) == IF IsCell(c.u[i]) THEN 0 ELSE IF i = 1 /\ ~blk THEN AcM(c.u[i].k, c.u[i].ctl, c.u[i].ctl, c.u[i].q, u[i].q, T1(i), gnew(i)) ELSE u[i].q
      busy(i) == ~off /\ dt > 0 /\ c.tm = 2
      rowOf(i) == [k |-> c.u[i].k, up |-> c.u[i].up, ch |-> c.u[i].ch, nc |-> c.u[i].nc, A |-> c.u[i].A, es |-> Es, ctl |-> c.u[i].ctl, T |-> T1(i), ex |-> FALSE, lex |-> FALSE, lex0 |-> FALSE,
                   t0 |-> u[i].T, dT |-> dT(i), f |-> f1(i), f0 |-> u[i].f, q |-> q1(i), q0 |-> u[i].q, h |-> IF IsCell(c.u[i]) THEN 0 ELSE HM(c.u[i].k, f1(i)), h0 |-> IF IsCell(c.u[i]) THEN 0 ELSE HM(c.u[i].k, u[i].f),
                   p0 |-> IF IsCell(c.u[i]) THEN 0 ELSE con, p1 |-> IF IsCell(c.u[i]) THEN 0 ELSE con, loc |-> IF IsCell(c.u[i]) THEN 0 ELSE lnew(i), glo |-> IF IsCell(c.u[i]) THEN 0 ELSE gnew(i), loc0 |-> IF IsCell(c.u[i]) THEN 0 ELSE lmax(i), glo0 |-> IF IsCell(c.u[i]) THEN 0 ELSE gmax(i),
                   ev |-> IF busy(i) THEN hcool(i) ELSE 0, ab |-> IF busy(i) THEN ab(i) ELSE 0, tm |-> IF busy(i) THEN dt ELSE 0, ac |-> IF busy(i) THEN acq(i) ELSE 0,
                   en |-> IF busy(i) THEN FanEnergy(c.u[i].nc, fNow(i), dt) + (IF c.u[i].k = "hvac" THEN AcEnergy(c.u[i].nc, u[i].q, RDiv(u[i].T, 100), dt) ELSE 0) ELSE 0,
                   qg |-> gen, qw |-> gen]
      e == [op |-> "step", dt |-> dt, n |-> 1, exc |-> 0, blk |-> blk, V |-> 80000, I |-> Cur(loss), P |-> 1000, loss |-> IF Bug = "halved" THEN lossJ \div 2 ELSE lossJ, per |-> lossJ, again |-> IF Bug = "again" THEN lossJ ELSE 0, u |-> [i \in 1 .. N |-> rowOf(i)]] IN
  /\ (c.bat \/ loss = 0) /\ (Small => (con = 0 <=> gen = 0)) /\ (N > 1 \/ con = 0)
  /\ (c.bat => con = 0 \/ Small)
  /\ ok' = Pack(c, [u |-> u], e)
  /\ u' = [i \in 1 .. N |-> [T |-> t1(i), f |-> f1(i), q |-> q1(i)]]
Next == n < Steps /\ n' = n + 1 /\ UNCHANGED c /\ (IF c.lone THEN LoneNext ELSE Step)
Init == n = 0 /\ (LoneInit \/ PackInit)
Spec == Init /\ [][Next]_vars
Sound == ok
===========================================================================
