------------------------------- MODULE Proc -------------------------------
(* Degradation procedures: balancing, check-ups, the usage files, the schedule of the ageing procedures, and the files of   *)
(* cell data. A procedure acts on a storage unit through instructions (carry a current, hold a voltage, stop ageing, write  *)
(* data); the monitor below says which instruction comes next, from which results, and what is in which file at that time.  *)
(* ProcMC.tla checks a model of the procedures against it, ProcTrace.tla recorded executions.                              *)
(* Units: current 1e-5 A, voltage 1 uV (1e-5 V in instructions), time 1 ms, charge 1e-6 Ah, energy 1e-5 Wh; in files 6 digits. *)
EXTENDS Num, TLC, FiniteSets
CONSTANT Clauses
Chk(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", name>>) /\ FALSE
P(c, name, b) == IF c \in Clauses THEN Chk(name, b) ELSE TRUE
Txt(x, y, abs) == IF Clamped(x) \/ Clamped(y) THEN (Clamped(x) /\ Clamped(y)) \/ Near(x, y, abs, 10000) ELSE Near(x, y, abs, 90000)  \* written with six digits
All(n, p(_)) == \A i \in 1 .. n : p(i)

(* ---------------------------------------------------------------- balancing *)
Exact(x) == x.k = "k"                                  \* only single particle cells are balanced
BalOk(e) ==
  LET n == Len(e.u0) IN
  /\ P("P40", "no exception", e.exc = 0)
  /\ P("P40", "the copy is the unit", e.same /\ Len(e.u1) = n)
  /\ P("P40", "degradation runs again afterwards", ~e.blk)
  /\ P("P41", "a check-up only when asked for", e.cu = IF e.chk THEN 1 ELSE 0)
  /\ P("P42", "the first check-up begins the file of throughputs", (e.chk /\ e.Ah = 0) => e.th = 1)
  /\ P("P42", "the state is written", IF e.ut THEN ~e.sfile ELSE e.sf)
  /\ All(n, LAMBDA i : LET a == e.u0[i]  b == e.u1[i] IN
       /\ P("P40", "the same cells", a.id = b.id /\ a.k = b.k)
       /\ P("P40", "nothing was asked for", (e.bal \/ e.chk) \/ a.h = b.h)
       /\ (~e.chk /\ e.bal) =>
            IF ~Exact(a) THEN P("P40", "other cells stay as they are", a.h = b.h)
            ELSE IF e.vb < a.vmin \/ e.vb > a.vmax THEN P("P40", "an impossible voltage changes nothing", b.I = 0 /\ a.soc = b.soc)
            ELSE /\ P("P40", "every cell at the balancing voltage", Abs(b.V - e.vb) <= 3000)
                 /\ P("P40", "no current afterwards", b.I = 0)
                 /\ P("P40", "balancing does not age the cells", a.age = b.age)
                 /\ P("P40", "balancing does not heat the cells", a.T = b.T))
  /\ (e.bal /\ ~e.chk /\ \A i \in 1 .. n : Exact(e.u0[i])) => P("P40", "no current through the unit", e.I1 = 0)
(* ---------------------------------------------------------------- check-ups *)
CuRowOk(w, g, e) ==
  /\ P("P41", "cell", w.id = g.id)
  /\ P("P41", "charge of the unit", Txt(g.Ah, e.Ah, 1))
  /\ P("P41", "cycle number", g.nr = e.nr)
  /\ P("P41", "variation", All(4, LAMBDA i : Txt(g.var[i], w.var[i], 1)))
  /\ P("P41", "throughput of the cell", Txt(g.tm, w.tm, 1) /\ Txt(g.ah, w.ah, 1) /\ Txt(g.wh, w.wh, 1))
  /\ P("P41", "capacity", Txt(g.cap, w.cap, 1))
  /\ P("P41", "states", Len(g.st) = Len(w.st) /\ All(Len(w.st), LAMBDA i : Txt(g.st[i], w.st[i], 1)))
CheckupOk(e) ==
  /\ P("P41", "no exception", e.exc = 0 \/ e.exr # 0)
  /\ e.exc = 0 =>
       /\ P("P41", "the unit is only brought to three quarters of its voltage", e.same)
       /\ P("P41", "one block", e.b1 = e.b0 + 1)
       /\ P("P41", "one row for every cell", Len(e.got) = Len(e.want))
       /\ All(Len(e.want), LAMBDA i : CuRowOk(e.want[i], e.got[i], e))
ModRowOk(w, g) == w.id = g.id /\ w.n = g.n /\ Txt(g.tm, w.tm, 1) /\ Txt(g.ev, w.ev, 1) /\ Txt(g.ab, w.ab, 1)
ModsOk(want, got) == P("P42", "usage of the modules", Len(got) = Len(want) /\ All(Len(want), LAMBDA i : ModRowOk(want[i], got[i])))

(* ---------------------------------------------------------------- the schedule of an ageing procedure *)
(* i: cycle, ph: the instruction that comes next, ah/wh: throughput so far, rows: of the file of throughputs (in memory and  *)
(* written), filed: how many are written, cus: check-ups so far, cool: time since the last row, unk: cannot tell             *)
Pre(c) == IF c.op = "use" THEN "useAge" ELSE "cycleAge"
First(c) == IF c.op = "use" THEN "r1" ELSE "cha"
AfterBal(c, i, ah) == IF i % c.Nc = 0 THEN (IF ah > 0 THEN "w" ELSE "prep") ELSE First(c)
Top(c, i, ah) == IF i >= c.N THEN "fprep" ELSE IF c.bal /\ i % c.Nb = 0 THEN "b1" ELSE AfterBal(c, i, ah)
Begin(c) == [c |-> c, i |-> 0, ph |-> IF c.op = "use" THEN "init" ELSE Top(c, 0, 0), ah |-> 0, wh |-> 0, rows |-> <<>>, filed |-> 0, cus |-> <<>>, cool |-> 0,
             up |-> FALSE, sf |-> IF c.op = "use" THEN -1 ELSE 0, unk |-> Abs(c.Ic) <= 10000 \/ Abs(c.Id) <= 10000, over |-> FALSE]
Slow(c) == RDiv(-c.cap, 25)
\* <<kind, value, text>> of an instruction
Instr(c, ph) ==
  CASE ph = "b1" -> <<"b", 100000, "">> [] ph = "b0" -> <<"b", 0, "">> [] ph \in {"w", "fw"} -> <<"w", 0, Pre(c)>> [] ph \in {"prep", "fprep"} -> <<"I", Slow(c), "">>
    [] ph = "cha" -> <<"I", c.Ic, "">> [] ph = "dis" -> <<"I", c.Id, "">> [] ph = "cv" -> <<"V", RDiv(c.Vmax, 10), "">> [] ph = "cvd" -> <<"V", RDiv(c.Vmin, 10), "">>
    [] ph \in {"r1", "r3", "r5", "r7", "r9"} -> <<"I", 0, "">> [] ph = "u2" -> <<"I", -c.cap, "">> [] ph = "u4" -> <<"I", c.cap, "">> [] ph = "u6" -> <<"I", RDiv(-c.cap, 2), "">>
    [] ph \in {"u8", "init"} -> <<"I", RDiv(c.cap, 2), "">> [] OTHER -> <<"end", 0, "">>
CCs == {"cha", "dis", "u2", "u4", "u6", "u8", "init", "prep", "fprep"}
Limit(c, ph) == IF ph \in {"cha", "u2", "u6"} THEN c.Vmax ELSE IF ph \in {"prep", "fprep"} THEN c.prep ELSE c.Vmin
Sign(ph) == IF ph \in {"cha", "u2", "u6", "prep", "fprep"} THEN 1 ELSE -1
\* Yes, No or Maybe: has the phase come to the limit it is meant to come to
Reached(c, ph, e) ==
  IF ph \in CCs THEN LET d == Sign(ph) * (e.V1 - Limit(c, ph)) IN IF e.n = 0 THEN "maybe" ELSE IF e.vs # 0 \/ d < -3 THEN "no" ELSE IF d > 3 THEN "yes" ELSE "maybe"
  ELSE IF e.n = 0 THEN "maybe" ELSE IF Abs(e.I1) < 9990 THEN (IF Abs(e.V1 - (IF ph = "cv" THEN c.Vmax ELSE c.Vmin)) < 9000 THEN "yes" ELSE "maybe") ELSE IF Abs(e.I1) > 10010 THEN "no" ELSE "maybe"
Hours(ph) == CASE ph = "r3" -> 3600000 [] ph = "r9" -> 18000000 [] OTHER -> 14400000
\* rests which follow one another are one instruction: the last one of a cycle and the first one of the next
Merged(m) == m.ph = "r9" /\ m.i + 1 < m.c.N /\ Top(m.c, m.i + 1, m.ah) = "r1"
Rest(ph) == ph \in {"r1", "r3", "r5", "r7", "r9"}
Counted(ph) == ph \notin {"b1", "b0", "w", "fw", "prep", "fprep", "end"}
PhaseOk(m, e) ==
  LET c == m.c  ins == Instr(c, m.ph)  st == IF m.ph \in {"prep", "fprep"} THEN Len(m.rows) ELSE m.filed IN
  m.unk \/
  /\ P("P43", "the next instruction is " \o ins[1], e.o = ins[1] /\ Near(e.v, ins[2], 2, 1000000) /\ e.s = ins[3])
  /\ P("P42", "the throughput of every phase so far is in the file at a check-up", e.thr = st)
  /\ P("P41", "check-ups when they are due", e.cu = Len(m.cus) + (IF m.up THEN 1 ELSE 0))
  /\ P("P42", "the state is written at the beginning of a cycle", e.sf = IF c.ut THEN -1 ELSE m.sf)
  /\ m.ph = "b0" => P("P40", "every cell at the balancing voltage", ~e.any \/ (e.lo >= c.vb - 3000 /\ e.hi <= c.vb + 3000 /\ e.im <= 10))
  /\ Rest(m.ph) => P("P43", "length of a rest", Near(e.t, Hours(m.ph) + (IF Merged(m) THEN 14400000 ELSE 0), 20, 1000000) \/ e.n = 0)
  /\ m.ph \in {"b1", "b0", "w", "fw", "end"} => P("P43", "no time passes", e.n = 0)
PhaseUpd(m, e) ==
  IF m.unk THEN m ELSE
  LET c == m.c  ph == m.ph  r == Reached(c, ph, e)  count == Counted(ph) /\ ~Rest(ph)
      ah == m.ah + (IF count THEN e.ah ELSE 0)  wh == m.wh + (IF count THEN e.wh ELSE 0)
      cool == m.cool + e.t
      base == [m EXCEPT !.ah = ah, !.wh = wh, !.cool = cool, !.cus = IF m.up THEN Append(m.cus, [ah |-> m.ah, nr |-> IF m.i >= c.N THEN c.N ELSE m.i]) ELSE m.cus,
                        !.up = ph \in {"prep", "fprep"}, !.filed = IF ph \in {"prep", "fprep"} THEN Len(m.rows) ELSE m.filed]
      row == [ah |-> ah, wh |-> wh, t |-> IF ph = "b0" THEN -1 ELSE cool]
      goto(x) == [base EXCEPT !.ph = x]
      store(x) == [base EXCEPT !.ph = x, !.rows = Append(m.rows, row), !.cool = 0]
      final(x) == [x EXCEPT !.ph = "fprep", !.i = c.N]
      next(x) == [x EXCEPT !.i = m.i + 1, !.sf = IF m.i + 1 < c.N THEN m.i + 1 ELSE m.sf, !.ph = Top(c, m.i + 1, ah)]
      lost == [base EXCEPT !.unk = TRUE] IN
  CASE ph = "b1" -> goto("b0")
    [] ph = "b0" -> goto(AfterBal(c, m.i, ah))
    [] ph = "w" -> goto("prep")
    [] ph = "prep" -> goto(First(c))
    [] ph = "fprep" -> goto("fw")
    [] ph = "fw" -> goto("end")
    [] ph = "init" -> [goto(Top(c, 0, ah)) EXCEPT !.sf = 0]
    [] ph = "cha" -> IF r = "maybe" THEN lost ELSE IF r = "no" THEN final(goto("fprep")) ELSE IF e.ah < 12 THEN lost ELSE store(IF c.cv THEN "cv" ELSE "dis")
    [] ph = "cv" -> IF r = "maybe" THEN lost ELSE IF r = "no" THEN final(goto("fprep")) ELSE store("dis")
    [] ph = "dis" -> IF r = "maybe" THEN lost ELSE IF r = "no" THEN final(store("fprep")) ELSE IF c.cv THEN store("cvd") ELSE next(store("x"))
    [] ph = "cvd" -> IF r = "maybe" THEN lost ELSE IF r = "no" THEN final(goto("fprep")) ELSE next(store("x"))
    [] ph = "r1" -> store("u2") [] ph = "u2" -> store("r3") [] ph = "r3" -> store("u4") [] ph = "u4" -> store("r5") [] ph = "r5" -> store("u6") [] ph = "u6" -> store("r7") [] ph = "r7" -> store("u8")
    [] ph = "u8" -> IF r = "maybe" THEN lost ELSE IF r = "no" THEN final(store("fprep")) ELSE store("r9")
    [] ph = "r9" -> IF Merged(m) THEN [base EXCEPT !.ph = "u2", !.i = m.i + 1, !.sf = m.i + 1, !.rows = m.rows \o <<[row EXCEPT !.t = -1], [row EXCEPT !.t = -1]>>, !.cool = 0] ELSE next(store("x"))
    [] OTHER -> [base EXCEPT !.over = TRUE]
RowOk(w, g, p0, i) ==
  /\ P("P42", "columns", g.k = 4)
  /\ P("P42", "charge throughput", Txt(g.ah, w.ah, 3 + 2 * i))
  /\ P("P42", "energy throughput", Clamped(w.wh) \/ Near(g.wh, w.wh, 5 + 2 * i, 20000))
  /\ P("P42", "cooling energy", (p0 = 0 \/ w.t < 0 \/ i = 1 \/ Clamped(w.t)) \/ Near(g.cl, MulDiv(p0, w.t, 36000000), 40, 400))
EndOk(m, e) ==
  LET c == m.c  n == Len(c.u0)  rows == Len(m.rows)  cus == Len(m.cus)  p0 == IF c.k \in {"s", "p"} /\ \A i \in 1 .. n : c.u0[i].k = "b" THEN c.P0 ELSE 0 IN
  /\ P("P43", "no exception", e.exc = 0)
  /\ ModsOk(e.modw, e.mods)
  /\ ~m.unk =>
       /\ P("P43", "the final check-up", m.over)
       /\ P("P42", "the file of throughputs begins with this test", e.hd = 1)
       /\ P("P42", "one row for every phase", Len(e.thr) = rows)
       /\ All(rows, LAMBDA i : RowOk(m.rows[i], e.thr[i], p0, i))
       /\ P("P41", "one row for every cell at every check-up", Len(e.cu) = cus * n)
       /\ All(cus * n, LAMBDA k : LET g == e.cu[k]  b == (k - 1) \div n + 1  x == m.cus[b] IN
            P("P41", "row of a check-up", g.b = b /\ g.id = c.u0[((k - 1) % n) + 1].id /\ g.nr = x.nr /\ Near(g.Ah * 10, x.ah, 30, 50000)))
       /\ P("P50", "the data of every cell are written", \A i \in 1 .. n : (Pre(c) \o "_" \o c.u0[i].id \o "_cellData.csv") \in { e.files[k] : k \in 1 .. Len(e.files) })
  /\ P("P42", "converter losses", (Clamped(e.ct) \/ Clamped(e.cv) \/ \E i \in 1 .. Len(e.thr) : Clamped(e.thr[i].cv)) \/ Near(SumSeq([i \in 1 .. Len(e.thr) |-> e.thr[i].cv]) + e.cv, e.ct, 20 + Len(e.thr), 50000))

(* ---------------------------------------------------------------- files of cell data *)
NoFiles == [x \in {} |-> 0]
Store(d, e) == [d EXCEPT !.pend = Append(d.pend, e.pt), !.ph = Append(d.ph, e.pt[1][5])]
Add(f, pre, pts) == LET old == IF pre \in DOMAIN f THEN f[pre] ELSE [heads |-> 0, pts |-> <<>>] IN (pre :> [heads |-> old.heads + 1, pts |-> old.pts \o pts]) @@ f
Write(d, e) == [d EXCEPT !.f = Add(d.f, e.pre, d.pend), !.pend = <<>>]
CopyWrite(d, e) == [d EXCEPT !.f = Add(d.f, e.pre, d.pend)]
\* the points of one phase of the cycler, by their times: all of it is covered (the cycler may go up to one interval too far, but not two)
PhaseRows(d, e) ==
  (e.exc = 0 /\ e.nd > 0 /\ e.st \in -6 .. -3) =>
    /\ P("P50", "data points at the beginning and the end of a phase", Len(d.ph) >= 1 /\ Near(d.ph[Len(d.ph)] - d.ph[1], e.tm, 2, 1000000))
    /\ P("P50", "no data point is left out", All(Len(d.ph) - 1, LAMBDA i : d.ph[i + 1] - d.ph[i] <= (2 * e.nd - 1) * e.dt + 2))
PointOk(w, g) == All(7, LAMBDA j : Txt(g[j], w[j], 1))
FilesOk(d, e) ==
  /\ P("P50", "one file for every cell and test", Len(e.f) = e.n * Cardinality(DOMAIN d.f))
  /\ All(Len(e.f), LAMBDA k : LET f == e.f[k] IN
       /\ P("P50", "a file of a test", f.leaf >= 1 /\ f.pre \in DOMAIN d.f /\ f.bad = 0)
       /\ LET w == d.f[f.pre] IN
          /\ P("P50", "one heading for every time data were written", f.heads = w.heads)
          /\ P("P50", "every data point once", Len(f.rows) = Len(w.pts))
          /\ P("P50", "data points in order", All(Len(w.pts), LAMBDA i : PointOk(w.pts[i][f.leaf], f.rows[i]))))
===========================================================================
