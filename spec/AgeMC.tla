------------------------------- MODULE AgeMC -------------------------------
(* A physics-based cell built out of independent mechanisms: every mechanism is a table of rates, the cell adds the rates of *)
(* the selected ones, scales them with the factors of the cell and integrates. Checked exhaustively against Age.tla for      *)
(* every selection out of the tables; the same clauses recorded executions are checked against. Bug names a deliberately     *)
(* wrong cell which must be rejected.                                                                                       *)
EXTENDS Age
CONSTANTS Steps, Bug, Small
VARIABLES c, a, n, ok
vars == <<c, a, n, ok>>
Z == [k \in 1 .. NAge |-> 0]
SeiS(m, por) == CASE m = 1 -> [Z EXCEPT ![Delta] = 4, ![LLI] = 8, ![En] = IF por = 1 THEN -2 ELSE 0, ![An] = IF por = 1 THEN -4 ELSE 0]
                  [] OTHER -> [Z EXCEPT ![Delta] = 10, ![LLI] = 20, ![En] = IF por = 1 THEN -4 ELSE 0, ![An] = IF por = 1 THEN -8 ELSE 0]
CsS(m, csd) == [Z EXCEPT ![Crack] = 6 * m, ![Dn] = IF csd = 1 THEN -2 * m ELSE 0]
LamS(m) == CASE m = 1 -> [Z EXCEPT ![ThickP] = -2, ![ThickN] = -4]
             [] m = 2 -> [Z EXCEPT ![Ep] = -6, ![En] = -8, ![Ap] = -10, ![An] = -12]
             [] OTHER -> [Z EXCEPT ![Ep] = -2, ![Ap] = -4]
PlS == [Z EXCEPT ![LLI] = 30, ![Plated] = 14]
K3(t) == [k \in 1 .. NAge |-> 1000 * t[k]]
SeiT(m, por) == K3(SeiS(m, por))  CsT(m, csd) == K3(CsS(m, csd))  LamT(m) == K3(LamS(m))  PlT == K3(PlS)
Upto2(X) == {<<>>} \cup { <<x>> : x \in X } \cup { <<x, y>> : x \in X, y \in X }
Configs == [sei : Upto2({1, 2}), cs : {<<>>, <<1>>, <<1, 2>>}, lam : {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 3>>, <<3>>}, pl : {0, 1}, por : {0, 1}, csd : {0, 1}, fs : {1000000, 2000000}, fl : {1000000, 500000}, known : BOOLEAN]
Sensible(x) == /\ (Small => x.sei \in {<<>>, <<1>>, <<1, 2>>} /\ x.lam \in {<<>>, <<1>>, <<2, 3>>} /\ (x.fs = 2000000 <=> x.fl = 500000))
               /\ x.sei = <<>> => x.por = 0
               /\ x.cs = <<>> => x.csd = 0
               /\ ~x.known => x.fs = 1000000 /\ x.fl = 1000000
               /\ (Len(x.sei) = 2 /\ Len(x.lam) = 2) => x.fs # x.fl        \* a sample of the larger selections
Names(x) == <<"0">> \o [i \in 1 .. Len(x.sei) |-> "s" \o ToString(x.sei[i])] \o [i \in 1 .. Len(x.cs) |-> "c" \o ToString(x.cs[i])] \o [i \in 1 .. Len(x.lam) |-> "l" \o ToString(x.lam[i])] \o (IF x.pl = 1 THEN <<"p1">> ELSE <<>>)
Rows(x) == <<Z>> \o [i \in 1 .. Len(x.sei) |-> SeiT(x.sei[i], x.por)] \o [i \in 1 .. Len(x.cs) |-> CsT(x.cs[i], x.csd)] \o [i \in 1 .. Len(x.lam) |-> LamT(x.lam[i])] \o (IF x.pl = 1 THEN <<PlT>> ELSE <<>>)
CrackShare == 500000000
Cap(s) == IF Bug = "first" /\ Len(s) > 1 THEN <<s[1]>> ELSE s
\* the rates of the cell, group by group, as the code adds them up
Rate(x, k) ==
  LET sei == Sum(Cap(x.sei), LAMBDA m : SeiT(m, IF Bug = "por" THEN 0 ELSE x.por)[k])
      cs == Sum(x.cs, LAMBDA m : CsT(m, x.csd)[k]) + (IF Bug = "mix" /\ k = ThickN THEN -Len(x.cs) ELSE 0)
      lam == Sum(x.lam, LAMBDA m : LamT(m)[k])
      pl == IF x.pl = 1 THEN PlT[k] ELSE 0
      surf == IF k = LLI /\ Bug # "crackx" THEN Len(x.cs) * (sei \div 2) ELSE 0
      f1 == IF Bug = "factor" /\ k = LLI THEN 1000000 ELSE IF Bug = "swap" THEN x.fl ELSE x.fs
      f2 == IF Bug = "square" THEN Sc(x.fl, x.fl) ELSE IF Bug = "swap" THEN x.fs ELSE x.fl
      r == Sc(sei + surf + cs + pl, f1) + Sc(lam, f2) IN
  IF Bug = "back" /\ k = Delta THEN -r ELSE r
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Currents == {-2000000, 0, 2000000}
Look(x, I, T) ==      \* a cell with straight equilibrium potentials; losses follow the current
  LET xp == I \div 10  xn == I \div 4  zp == 600000000 - I  zn == 600000000 + I
      cvp == <<500000000, 4000000, 700000000, 3800000>>  cvn == <<500000000, 110000, 700000000, 90000>>  cve == <<500000000, 100000, 700000000, -30000>>
      ocv == Lin(cvp, zp) - Lin(cvn, zn) + (IF Bug = "entropy" THEN 0 ELSE MulDiv(T - 2980000, Lin(cve, zp), 10000000))
      R == 3000000
      eta == (IF Bug = "eta" THEN Eta(T, xn) ELSE Eta(T, xp)) + (IF Bug = "isothermal" THEN Eta(2880000, xn) ELSE Eta(T, xn)) IN
  [I |-> I, T |-> T, zp |-> zp, zn |-> zn, xp |-> xp, xn |-> xn, cvp |-> cvp, cvn |-> cvn, cve |-> cve, Rs |-> 500000, Rp |-> 1000000, Rn |-> 1000000, Rc |-> 500000,
   R |-> IF Bug = "film" THEN R - 500000 ELSE R, ok |-> TRUE, ocv |-> ocv, V |-> ocv - eta - MulDiv(I, IF Bug = "drop" THEN R - 1000000 ELSE R, K9),
   sp |-> zp, sn |-> zn, dp |-> 0, dn |-> 0, cp |-> 0, cn |-> 0, qp |-> 0, qn |-> 0]
State(x, I, T, blk) == [I |-> I, T |-> T, blk |-> blk, age |-> Z, lp |-> 0, ln |-> 0, mp |-> 100, mn |-> 100, h |-> "0"]
Init == c \in { x \in Configs : Sensible(x) } /\ n = 0 /\ ok = TRUE /\ \E I \in Currents, T \in {2880000, 3080000}, b \in BOOLEAN : a = State(c, I, T, b)
Dt == {0, 1000}
Step == \E dt \in Dt :
  LET blk == a.blk /\ Bug # "block"
      rate(k) == IF blk \/ dt = 0 THEN 0 ELSE Rate(c, k)
      row == [k \in 1 .. NAge |-> IF dt = 0 THEN 0 ELSE Rate(c, k)]
      it == a.I * (dt \div 1000)
      dll == rate(LLI)
      dlp == IF Bug = "flow" THEN it - Sign(it) * 10 ELSE it
      dln == IF Bug = "leak" THEN -it ELSE -(it + dll)
      exc == IF c.known \/ blk \/ dt = 0 \/ Bug = "unknown" THEN 0 ELSE 106
      mp == IF Bug = "relax" THEN a.mp + 3 ELSE IF a.I = 0 THEN a.mp \div 2 ELSE a.mp + 1
      e == [op |-> "step", dt |-> dt, n |-> 1, blk |-> a.blk, exc |-> exc, texc |-> IF c.known THEN 0 ELSE 106, it |-> it, dll |-> dll, dlp |-> dlp, dln |-> dln, gp |-> K9, gn |-> K9, crack |-> CrackShare,
            dir |-> [k \in 1 .. NAge |-> Sign(rate(k))], who |-> Names(c), row |-> IF dt = 0 THEN [i \in 1 .. Len(Names(c)) + 1 |-> Z] ELSE <<row>> \o Rows(c), eps |-> [k \in 1 .. NAge |-> 0], same |-> TRUE, capDn |-> -2000000000, capEp |-> -2000000000, capAp |-> -2000000000,
            uexc |-> 0, uz |-> 0, us |-> it, dsoc |-> it, lp |-> a.lp + RDiv(dlp, 100), ln |-> a.ln + RDiv(dln, 100), mp |-> mp, mn |-> mp, h |-> IF dt = 0 /\ Bug # "zero" THEN a.h ELSE ToString(n + 1)] @@ Look(c, a.I, a.T) IN
  /\ (c.known \/ a.I = 0) /\ ok' = (StepOk(c, a, e) /\ LookOk(e))
  /\ a' = IF exc # 0 THEN a ELSE [a EXCEPT !.lp = e.lp, !.ln = e.ln, !.mp = e.mp, !.mn = e.mn, !.h = e.h]
Cmd == \E I \in Currents, T \in {2880000, 3080000}, b \in BOOLEAN :
  LET e == [op |-> "setI", aged |-> Bug = "aged" /\ I # a.I, dcp |-> IF Bug = "jump" THEN I - a.I ELSE 0, dcn |-> 0, mp |-> a.mp, mn |-> a.mn] @@ Look(c, I, T) IN
  ok' = (CommandOk(e) /\ LookOk(e)) /\ a' = [a EXCEPT !.I = I, !.T = T, !.blk = b]
Next == ok /\ n < Steps /\ n' = n + 1 /\ UNCHANGED c /\ (Step \/ Cmd)
Spec == Init /\ [][Next]_vars
\* the voltage law itself: without current the equilibrium voltage, falling with the current, the same loss in both directions, asinh is its own mirror
Law(T) == /\ VoltageOf(3700000, T, 0, 0, 3000000, 0) = 3700000
          /\ \A I \in {0, 1000, 30000, 400000, 5000000} : /\ VoltageOf(3700000, T, I * 10, I * 30, 3000000, I) + VoltageOf(3700000, T, -I * 10, -I * 30, 3000000, -I) = 7400000
                                                          /\ \A J \in {0, 1000, 30000, 400000, 5000000} : I < J => VoltageOf(3700000, T, I * 10, I * 30, 3000000, I) >= VoltageOf(3700000, T, J * 10, J * 30, 3000000, J)
                                                          /\ Abs(Asinh(-I) + Asinh(I)) = 0 /\ (I < 100000 => Near(Asinh(I), 10 * I, 20, 10000))
Sound == ok /\ ("P19" \in Clauses => Law(a.T))
==========================================================================
