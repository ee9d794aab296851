------------------------------ MODULE ProcMC ------------------------------
(* A model of the procedures on an arbitrary unit (phases may or may not come to their limit), checked against Proc.tla.    *)
(* Bug names a planted mistake; "none" must hold, every other one must be rejected.                                        *)
EXTENDS Proc
CONSTANTS Bug, N, Size
VARIABLES mode, c, pc, i, ah, wh, mem, file, hd, cu, sf, m, ok, d, buf, idx, disk
vars == <<mode, c, pc, i, ah, wh, mem, file, hd, cu, sf, m, ok, d, buf, idx, disk>>
Sound == ok
Cell == [id |-> "c0", k |-> "k"]
Conf == [op : {"cycle", "use"}, N : {N}, Nc : 1 .. 3, Nb : 1 .. 3, cv : BOOLEAN, bal : BOOLEAN, ut : BOOLEAN]
Full(x) == x @@ [Ic |-> -500000, Id |-> 500000, cap |-> 500000, Vmax |-> 4100000, Vmin |-> 3000000, prep |-> 3900000, vb |-> 3650000, P0 |-> 0, k |-> "s", u0 |-> <<Cell>>]
Idle == d = [f |-> NoFiles, pend |-> <<>>, ph |-> <<>>] /\ buf = <<>> /\ idx = 0 /\ disk = NoFiles
InitAge == mode = "age" /\ \E x \in Conf : (x.op = "use" => ~x.cv) /\ c = Full(x) /\ pc = (IF x.op = "use" THEN "init" ELSE "top") /\ i = 0 /\ ah = 0 /\ wh = 0 /\ mem = <<>> /\ file = <<>> /\ hd = 0 /\ cu = <<>> /\ sf = -1 /\ m = Begin(c) /\ ok = TRUE /\ Idle
InitOther == mode \in {"bal", "rows"} /\ c = 0 /\ pc = "go" /\ i = 0 /\ ah = 0 /\ wh = 0 /\ mem = 0 /\ file = 0 /\ hd = 0 /\ cu = 0 /\ sf = 0 /\ m = 0 /\ ok = TRUE /\ Idle
Init == InitAge \/ InitOther
Rest_(r) == UNCHANGED <<mode, c, d, buf, idx, disk>> /\ r
(* ---------------------------------------------------------------- the ageing procedures *)
\* an instruction and what became of it
Ev(o, v, s, r, lim, sg) ==
  [op |-> "p", o |-> o, v |-> v, s |-> s, any |-> TRUE, lo |-> 3650000, hi |-> 3650000, im |-> 0, cu |-> Len(cu), thr |-> Len(file), sf |-> IF c.ut THEN -1 ELSE sf,
   n |-> IF r = "none" THEN 0 ELSE 10, t |-> IF r = "none" THEN 0 ELSE 20000, ah |-> IF r = "none" THEN 0 ELSE 1000000, wh |-> IF r = "none" THEN 0 ELSE 400000,
   V1 |-> IF o = "V" THEN lim ELSE IF r = "yes" THEN lim + sg * 1000 ELSE lim - sg * 50000, I1 |-> IF o = "V" THEN (IF r = "yes" THEN 9000 ELSE 20000) ELSE v, vs |-> 0]
Emit(e) == (IF PhaseOk(m, e) THEN ok' = TRUE ELSE ok' = FALSE) /\ m' = PhaseUpd(m, e)
Count(r) == IF r = "none" THEN UNCHANGED <<ah, wh>> ELSE ah' = ah + 1000000 /\ wh' = wh + 400000
NoCount == UNCHANGED <<ah, wh>>
StoreRow == mem' = Append(mem, [ah |-> ah', wh |-> wh'])
Keep == UNCHANGED <<mem, file, hd, cu, sf>>
Flush(a) == /\ IF a = 0 THEN file' = mem /\ hd' = 1 ELSE file' = file \o mem /\ UNCHANGED hd
            /\ mem' = IF Bug = "dup" THEN mem ELSE <<>>
Quiet(p) == pc' = p /\ UNCHANGED <<i, ah, wh, mem, file, hd, cu, sf, m, ok>>
Check == i % c.Nc = (IF Bug = "late" /\ c.Nc > 1 THEN 1 ELSE 0)
Balance == c.bal /\ (Bug = "every" \/ i % c.Nb = 0)
Body == IF c.op = "use" THEN "r1" ELSE "cha"
TopA == pc = "top" /\ IF i >= c.N THEN Quiet("end1")
        ELSE /\ sf' = i /\ pc' = (IF Balance THEN "b1" ELSE "chk") /\ UNCHANGED <<i, ah, wh, mem, file, hd, cu, m, ok>>
B1 == pc = "b1" /\ Emit(Ev("b", 100000, "", "none", 0, 0)) /\ pc' = (IF Bug = "blocked" THEN "chk" ELSE "b0") /\ NoCount /\ Keep /\ UNCHANGED i
B0 == pc = "b0" /\ Emit([Ev("b", 0, "", "none", 0, 0) EXCEPT !.hi = IF Bug = "uneven" THEN 3670000 ELSE @]) /\ pc' = "chk" /\ NoCount /\ Keep /\ UNCHANGED i
Chk_ == pc = "chk" /\ IF Check THEN Quiet(IF ah > 0 THEN "w" ELSE "wt") ELSE Quiet(Body)
W == pc = "w" /\ Emit(Ev("w", 0, Pre(c), "none", 0, 0)) /\ pc' = "wt" /\ NoCount /\ Keep /\ UNCHANGED i
Wt == pc = "wt" /\ (IF Bug = "nowrite" THEN UNCHANGED <<file, hd, mem>> ELSE Flush(ah)) /\ pc' = "prep" /\ UNCHANGED <<i, ah, wh, cu, sf, m, ok>>
Block_(nr) == cu' = Append(cu, [nr |-> nr, ah |-> IF Bug = "cuzero" THEN 0 ELSE ah])
Prep(p, q, nr) == pc = p /\ \E r \in {"yes", "none"} : Emit(Ev("I", -20000, "", r, c.prep, 1)) /\ pc' = q /\ Block_(nr) /\ (IF Bug = "prepcount" THEN Count(r) ELSE NoCount) /\ UNCHANGED <<i, mem, file, hd, sf>>
Fail == "end1"
Cha == pc = "cha" /\ \E r \in {"yes", "no"} : Emit(Ev("I", c.Ic, "", r, c.Vmax, 1)) /\ Count(r) /\
         (IF r = "yes" \/ Bug = "goon" THEN StoreRow /\ pc' = (IF c.cv /\ Bug # "nocv" THEN "cv" ELSE "dis") ELSE (IF Bug = "rowfail" THEN StoreRow ELSE UNCHANGED mem) /\ pc' = Fail) /\ UNCHANGED <<i, file, hd, cu, sf>>
CvA(p, lim, q) == pc = p /\ \E r \in {"yes", "no"} : Emit(Ev("V", RDiv(lim, 10), "", r, lim, 1)) /\ Count(r) /\
         (IF r = "yes" THEN (IF Bug = "norow" THEN UNCHANGED mem ELSE StoreRow) /\ pc' = q /\ i' = (IF q = "top" THEN i + 1 ELSE i) ELSE UNCHANGED <<mem, i>> /\ pc' = Fail) /\ UNCHANGED <<file, hd, cu, sf>>
Dis == pc = "dis" /\ \E r \in {"yes", "no"} : Emit(Ev("I", c.Id, "", r, IF Bug = "deep" THEN c.Vmin - 100000 ELSE c.Vmin, -1)) /\ Count(r) /\ (IF Bug = "norow" THEN UNCHANGED mem ELSE StoreRow) /\
         (IF r = "yes" \/ Bug = "goon" THEN pc' = (IF c.cv THEN "cvd" ELSE "top") /\ i' = (IF c.cv THEN i ELSE i + 1) ELSE pc' = Fail /\ UNCHANGED i) /\ UNCHANGED <<file, hd, cu, sf>>
\* realistic use
InitU == pc = "init" /\ \E r \in {"yes", "no", "none"} : Emit(Ev("I", 250000, "", r, c.Vmin, -1)) /\ Count(r) /\ pc' = "top" /\ mem' = <<>> /\ file' = <<>> /\ hd' = (IF Bug = "nohead" THEN 0 ELSE 1) /\ UNCHANGED <<i, cu, sf>>
RestEv(h) == [Ev("I", 0, "", "none", 0, 0) EXCEPT !.n = 10, !.t = h]
RestU(p, h, q) == pc = p /\ Emit(RestEv(IF Bug = "short" /\ p = "r5" THEN h - 60000 ELSE h)) /\ NoCount /\ StoreRow /\ pc' = q /\ UNCHANGED <<i, file, hd, cu, sf>>
CcU(p, cur, lim, sg, q) == pc = p /\ \E r \in {"yes", "no"} : Emit(Ev("I", cur, "", r, lim, sg)) /\ Count(r) /\ StoreRow /\ pc' = q /\ UNCHANGED <<i, file, hd, cu, sf>>
U8 == pc = "u8" /\ \E r \in {"yes", "no"} : Emit(Ev("I", 250000, "", r, c.Vmin, -1)) /\ Count(r) /\ StoreRow /\ pc' = (IF r = "yes" \/ Bug = "goon" THEN "r9" ELSE Fail) /\ UNCHANGED <<i, file, hd, cu, sf>>
\* two rests in a row are seen as one instruction
R9 == pc = "r9" /\ LET j == i + 1  merge == j < c.N /\ ~(c.bal /\ (Bug = "every" \/ j % c.Nb = 0)) /\ j % c.Nc # (IF Bug = "late" /\ c.Nc > 1 THEN 1 ELSE 0) IN
      IF merge THEN Emit(RestEv(18000000 + 14400000)) /\ mem' = mem \o <<[ah |-> ah, wh |-> wh], [ah |-> ah, wh |-> wh]>> /\ sf' = j /\ i' = j /\ pc' = "u2" /\ NoCount /\ UNCHANGED <<file, hd, cu>>
      ELSE Emit(RestEv(18000000)) /\ mem' = Append(mem, [ah |-> ah, wh |-> wh]) /\ i' = j /\ pc' = "top" /\ NoCount /\ UNCHANGED <<file, hd, cu, sf>>
\* the end
End1 == pc = "end1" /\ Flush(ah) /\ pc' = (IF Bug = "nofinal" THEN "fw" ELSE "fprep") /\ UNCHANGED <<i, ah, wh, cu, sf, m, ok>>
Fw == pc = "fw" /\ Emit(Ev("w", 0, Pre(c), "none", 0, 0)) /\ pc' = "end" /\ NoCount /\ Keep /\ UNCHANGED i
End == pc = "end" /\ Emit(Ev("end", 0, "", "none", 0, 0)) /\ pc' = "fin" /\ NoCount /\ Keep /\ UNCHANGED i
Thr == [k \in 1 .. Len(file) |-> [ah |-> file[k].ah, wh |-> file[k].wh, cl |-> 0, cv |-> 0, k |-> 4]]
FinEv == [op |-> "fin", exc |-> 0, thr |-> Thr, hd |-> hd, mods |-> <<>>, modw |-> <<>>, cv |-> 0, ct |-> 0, cl |-> 0, files |-> IF Bug = "nofile" THEN <<>> ELSE <<Pre(c) \o "_c0_cellData.csv">>,
          cu |-> [b \in 1 .. Len(cu) |-> [b |-> b, id |-> "c0", nr |-> cu[b].nr, Ah |-> RDiv(cu[b].ah, 10)]]]
Fin == pc = "fin" /\ (IF EndOk(m, FinEv) THEN ok' = TRUE ELSE ok' = FALSE) /\ pc' = "stop" /\ UNCHANGED <<i, ah, wh, mem, file, hd, cu, sf, m>>
Age == mode = "age" /\ Rest_(TopA \/ B1 \/ B0 \/ Chk_ \/ W \/ Wt \/ Prep("prep", Body, i) \/ Cha \/ CvA("cv", c.Vmax, "dis") \/ Dis \/ CvA("cvd", c.Vmin, "top")
        \/ InitU \/ RestU("r1", 14400000, "u2") \/ CcU("u2", -500000, c.Vmax, 1, "r3") \/ RestU("r3", 3600000, "u4") \/ CcU("u4", 500000, c.Vmin, -1, "r5") \/ RestU("r5", 14400000, "u6")
        \/ CcU("u6", -250000, c.Vmax, 1, "r7") \/ RestU("r7", 14400000, "u8") \/ U8 \/ R9 \/ End1 \/ Prep("fprep", "fw", IF Bug = "oldnr" THEN i ELSE c.N) \/ Fw \/ End \/ Fin)
(* ---------------------------------------------------------------- balancing and a check-up: all small units *)
CellS == [id : {"c0"}, k : {"k", "b"}, V : {3500000, 3900000}, I : {0, 5}, T : {3000000}, soc : {1}, age : {"a"}, h : {"x"}, vmin : {2700000}, vmax : {4200000}]
Balanced(a, vb) == IF a.k # "k" THEN (IF Bug = "all" THEN [a EXCEPT !.V = vb, !.h = "y"] ELSE a) ELSE IF vb > a.vmax THEN (IF Bug = "force" THEN [a EXCEPT !.V = vb, !.soc = 2, !.h = "y"] ELSE [a EXCEPT !.I = 0, !.h = "z"])
                   ELSE [a EXCEPT !.V = IF Bug = "loose" THEN vb + 5000 ELSE vb, !.I = IF Bug = "current" THEN a.I ELSE 0, !.soc = 3, !.h = "y", !.age = IF Bug = "ages" THEN "b" ELSE "a", !.T = IF Bug = "heats" THEN a.T + 100 ELSE a.T]
Row(a, e) == [id |-> a.id, Ah |-> e.Ah, nr |-> e.nr, var |-> <<100000, 100000, 100000, 100000>>, tm |-> 5, ah |-> 6, wh |-> 7, cap |-> 300000, st |-> <<1, 2, 3>>]
BalAct == mode = "bal" /\ pc = "go" /\ pc' = "done" /\ UNCHANGED <<mode, c, i, ah, wh, mem, file, hd, cu, sf, m, d, buf, idx, disk>> /\
  \/ \E a \in CellS, b \in CellS, vb \in {3650000, 4500000}, bal \in BOOLEAN, chk \in BOOLEAN, ut \in BOOLEAN, a0 \in {0, 500} :
       LET u0 == <<a, b>>  u1 == IF bal THEN <<Balanced(a, vb), IF Bug = "firstonly" THEN b ELSE Balanced(b, vb)>> ELSE IF Bug = "uncalled" THEN <<Balanced(a, vb), b>> ELSE u0
           e == [vb |-> vb, bal |-> bal, chk |-> chk, Ah |-> a0, ut |-> ut, nr |-> 1, u0 |-> u0, u1 |-> u1, same |-> TRUE, exc |-> 0, blk |-> (Bug = "stays" /\ bal), sf |-> ~ut /\ Bug # "nostate", sfile |-> ~ut, I1 |-> u1[1].I,
                 cu |-> IF chk /\ Bug # "nocheck" THEN 1 ELSE 0, th |-> IF chk /\ a0 = 0 /\ Bug # "nothead" THEN 1 ELSE 0] IN
       IF BalOk(e) THEN ok' = TRUE ELSE ok' = FALSE
  \/ \E n \in 1 .. Size, a0 \in {0, 1234567} :
       LET e0 == [Ah |-> a0, nr |-> 7, exc |-> 0, exr |-> 0, same |-> Bug # "tested", b0 |-> 1, b1 |-> IF Bug = "rewrite" THEN 1 ELSE 2]
           want == [k \in 1 .. n |-> [Row([id |-> "c0"], e0) EXCEPT !.cap = 300000 + 100 * k]]
           got == [k \in 1 .. (IF Bug = "skip" THEN n - 1 ELSE n) |-> [want[k] EXCEPT !.cap = IF Bug = "firstcap" THEN want[1].cap ELSE @, !.nr = IF Bug = "nr" THEN 8 ELSE @, !.Ah = IF Bug = "ah" THEN 17 ELSE @, !.st = IF Bug = "states" THEN <<1, 2>> ELSE @]]
           e == [want |-> want, got |-> got] @@ e0 IN
       IF CheckupOk(e) THEN ok' = TRUE ELSE ok' = FALSE
  \/ LET w == <<[id |-> "m", n |-> 2, tm |-> 50, ev |-> 60, ab |-> 70], [id |-> "m_s", n |-> 1, tm |-> 51, ev |-> 61, ab |-> 71]>> IN
       IF ModsOk(w, IF Bug = "toponly" THEN SubSeq(w, 1, 1) ELSE IF Bug = "swapped" THEN [w EXCEPT ![1].ev = 70, ![1].ab = 60] ELSE w) THEN ok' = TRUE ELSE ok' = FALSE
(* ---------------------------------------------------------------- data points: a buffer of Size points in every unit, written when full *)
Pt(x) == <<<<x, x, x, x, 100 * idx, x, x>>>>   \* idx: the steps of time so far, one for every data point asked for
ToDisk(pre, pts) == LET old == IF pre \in DOMAIN disk THEN disk[pre] ELSE [heads |-> 0, pts |-> <<>>] IN (pre :> [heads |-> old.heads + 1, pts |-> IF Bug = "truncate" THEN pts ELSE old.pts \o pts]) @@ disk
StoreA == /\ IF Len(buf) >= Size
             THEN d' = (IF Bug = "lost" THEN Write(d, [pre |-> "a"]) ELSE Store(Write(d, [pre |-> "a"]), [pt |-> Pt(i)])) /\ disk' = (IF Bug = "drop" THEN disk ELSE ToDisk("a", buf)) /\ buf' = (IF Bug = "kept" THEN Append(buf, Pt(i)) ELSE IF Bug = "lost" THEN <<>> ELSE <<Pt(i)>>)
             ELSE d' = Store(d, [pt |-> Pt(i)]) /\ buf' = Append(buf, Pt(i)) /\ UNCHANGED disk
          /\ UNCHANGED ok /\ pc' = "go" /\ idx' = idx + 1
PhaseA == (IF idx > 1 => PhaseRows(d, [exc |-> 0, nd |-> 1, dt |-> 100, st |-> -4, tm |-> 100 * (idx - 1)]) THEN UNCHANGED ok ELSE ok' = FALSE) /\ pc' = "go" /\ UNCHANGED <<d, disk, buf>>
WriteA == \E pre \in {"a", "b"} : d' = Write(d, [pre |-> pre]) /\ disk' = ToDisk(IF Bug = "prefix" THEN "a" ELSE pre, buf) /\ buf' = (IF Bug = "kept" THEN buf ELSE <<>>) /\ UNCHANGED ok /\ pc' = "go"
CopyA == d' = CopyWrite(d, [pre |-> "c"]) /\ disk' = ToDisk("c", buf) /\ buf' = (IF Bug = "shared" THEN <<>> ELSE buf) /\ UNCHANGED ok /\ pc' = "go"
Names == {"a", "b", "c"} \cap DOMAIN disk
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SeqOf(s \ {x})
LookA == LET ns == SeqOf(Names)  fs == [k \in 1 .. Len(ns) |-> [pre |-> ns[k], leaf |-> 1, bad |-> 0, heads |-> disk[ns[k]].heads, rows |-> [j \in 1 .. Len(disk[ns[k]].pts) |-> disk[ns[k]].pts[j][1]]]] IN
         (IF FilesOk(d, [n |-> 1, f |-> fs]) THEN UNCHANGED ok ELSE ok' = FALSE) /\ pc' = "go" /\ UNCHANGED <<d, disk, buf>>
Rows == mode = "rows" /\ i < 5 + Size /\ i' = i + 1 /\ UNCHANGED <<mode, c, ah, wh, mem, file, hd, cu, sf, m>> /\ (StoreA \/ ((WriteA \/ CopyA \/ LookA \/ PhaseA) /\ UNCHANGED idx))
Next == Age \/ BalAct \/ Rows
Spec == Init /\ [][Next]_vars
===========================================================================
