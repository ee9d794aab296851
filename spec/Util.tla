------------------------------- MODULE Util -------------------------------
(* Numerical utilities and data files: interpolation (P51), histograms (P52), grids (P53), files of data (P55), open circuit *)
(* voltage curves and what is derived from them (P56). UtilMC.tla checks models of the algorithms, UtilTrace.tla recorded   *)
(* calls. All inputs are integers over a common denominator; results are recorded in 1e-6 (fractions and charge: 1e-8).     *)
EXTENDS Num, TLC, FiniteSets
CONSTANT Clauses
Chk(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", name>>) /\ FALSE
P(c, name, b) == IF c \in Clauses THEN Chk(name, b) ELSE TRUE
NANV == 2000000001
Last(s) == s[Len(s)]
Incr(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]

(* ---------------------------------------------------------------- interpolation (P51) *)
\* the value at q of the line through the points (X, Y), with k units of the result per unit of Y
Interp(X, Y, q, k) ==
  IF q <= X[1] THEN Y[1] * k
  ELSE IF q >= Last(X) THEN Last(Y) * k
  ELSE LET i == CHOOSE i \in 1 .. Len(X) - 1 : X[i] <= q /\ q < X[i + 1] IN Y[i] * k + MulDiv((Y[i + 1] - Y[i]) * k, q - X[i], X[i + 1] - X[i])
Below(X, q, ulp) == q < X[1] \/ (q = X[1] /\ ulp < 0)
Above(X, q, ulp) == q > Last(X) \/ (q = Last(X) /\ ulp > 0)
\* n: is not a number; viaCurve: through the curve object, which only says whether it failed
LinOk(e) ==
  LET curve == e.k \in {"xyv", "xys", "xyf"}
      want == Interp(e.X, e.Y, e.q, 1000)
      bad == e.bound /\ (e.nan \/ Below(e.X, e.q, e.ulp) \/ Above(e.X, e.q, e.ulp)) IN
  /\ P("P51", "a value outside the data is refused exactly when that was asked for", (e.exc # 0) = bad)
  /\ P("P51", "the refusal is the documented one", bad => e.exc = 1)
  /\ P("P51", "the interpolated value lies on the line between the neighbouring data points", ~bad => (IF e.nan THEN e.yt = NANV ELSE Near(e.yt, want, 2, 1000000)))
  /\ IF curve THEN TRUE ELSE
     /\ P("P51", "the variant without exceptions reports the side the value is on", e.st = (IF ~bad THEN 0 ELSE IF ~e.nan /\ Below(e.X, e.q, e.ulp) THEN -1 ELSE 1))
     /\ P("P51", "the variant without exceptions gives the same value", IF ~bad THEN e.y = e.yt ELSE IF e.nan THEN e.y = NANV ELSE e.y = 0)

(* ---------------------------------------------------------------- histograms (P52) *)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
\* the bins (0: below, n+1: from the upper edge) a value v may be counted in, h: the histogram [lo, hi) in n bins, same denominator
BinsFor(h, v) ==
  LET w == h.hi - h.lo  p == (v - h.lo) * h.n  b == p \div w
      main == IF v < h.lo THEN 0 ELSE IF v >= h.hi THEN h.n + 1 ELSE 1 + b
      exact == h.den \in Pow2 /\ h.n \in Pow2 IN
  IF exact \/ p % w # 0 THEN {main} ELSE {main} \cup {Max2(main - 1, 0)}        \* on an edge rounding may count it below
SymBin(h, s) == IF s \in {"-inf", "-huge", "-big"} THEN 0 ELSE h.n + 1
EdgeAt(h, k) == RDiv(h.lo * 1000000, h.den) + MulDiv2(h.hi - h.lo, k * 1000000, h.n, h.den)
EdgesOk(h, ed) == Len(ed) = h.n + 1 /\ \A k \in 1 .. Len(ed) : Abs(ed[k] - EdgeAt(h, k - 1)) <= 3
HistOk(e) ==
  /\ P("P52", "a histogram has its bins and one below and one above its range", e.bins = (IF e.n = 0 THEN 0 ELSE e.n + 2))
  /\ P("P52", "the edges divide the range into equal bins, from its lower to its upper end", e.n > 0 => EdgesOk(e, e.edges))
AddOk(h, e) ==
  /\ P("P52", "every value is counted once", IF h.n = 0 THEN e.ch = <<>> /\ e.tot = 0 ELSE Len(e.ch) = 2 /\ e.ch[2] = 1 /\ e.tot = e.added)
  /\ P("P52", "a value is counted in the bin between whose edges it lies", (h.n > 0 /\ Len(e.ch) = 2) => e.ch[1] \in (IF e.sym # "" THEN {SymBin(h, e.sym)} ELSE BinsFor(h, e.v)))
ShowOk(h, e) ==
  /\ P("P52", "a printed histogram shows all its edges", e.t1 = "Edges:" /\ (h.n > 0 => EdgesOk(h, e.edges)))
  /\ P("P52", "a printed histogram shows all its bins", e.t2 = "Bins:" /\ e.bins = e.now)

(* ---------------------------------------------------------------- grids (P53) *)
U == 1000000
At(a, den) == RDiv(a * U, den)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
GridAt(e, i) == \* the i-th value, from 0
  CASE e.k \in {"linspace", "array", "linspace_fix"} -> IF e.size = 1 THEN At(e.b, e.den) ELSE At(e.a, e.den) + MulDiv2(e.b - e.a, i * U, e.size - 1, e.den)
    [] e.k \in {"linstep_fix"} -> At(e.a, e.den) + MulDiv2(e.b, i * U, 1, e.den)
    [] e.k = "range_fix" -> At(e.a, e.den) + MulDiv2(e.n, i * U, 1, e.den)
    [] OTHER -> MulMulDiv(Pow(e.b, i), e.a, U, Pow(e.den, i), e.den)
Step(e) == IF e.k = "linstep_fix" THEN MulDiv2(e.b, U, 1, e.den) ELSE IF e.k = "range_fix" THEN MulDiv2(e.n, U, 1, e.den) ELSE MulDiv2(e.b - e.a, U, e.size - 1, e.den)
GridOk(e) ==
  /\ P("P53", "a grid has as many points as it was asked for", IF e.k = "range_fix" THEN TRUE ELSE e.size = (IF e.k = "array" THEN 7 ELSE Max2(e.n, 0)))
  /\ P("P53", "a grid is what it says and what going through it gives", Len(e.v) = e.size /\ e.same)
  /\ P("P53", "a grid has the points which were asked for", \A i \in 1 .. Len(e.v) : Clamped(e.v[i]) \/ Near(e.v[i], GridAt(e, i - 1), 3, 1000000))
  /\ P("P53", "the ends of a grid are its first and last point", e.size > 0 => e.front = e.v[1] /\ e.back = Last(e.v))
  /\ P("P53", "a range ends with its last step inside it", e.k = "range_fix" => e.size > 0 /\ (Abs(At(e.b, e.den)) > 900000000 \/ e.back <= At(e.b, e.den) + 3) /\ e.back + MulDiv2(e.n, U, 1, e.den) > At(e.b, e.den) - 3)
  /\ P("P53", "the points next to a point of a grid are its neighbours",
       (e.size > 2 /\ e.k \notin {"linspace", "array"}) =>
         LET m == e.v[e.size \div 2 + 1] IN
         IF e.k = "logstep_fix" THEN (Clamped(m) \/ Clamped(e.nx) \/ (Near(e.nx, MulDiv(m, e.b, e.den), 3 + e.b \div e.den, 100000) /\ (e.b > 0 => Near(e.pv, MulDiv(m, e.den, e.b), 3 + e.den \div e.b, 100000))))
         ELSE IF Abs(m) > 900000000 \/ Abs(Step(e)) > 900000000 THEN TRUE ELSE Near(e.nx, m + Step(e), 3, 1000000) /\ Near(e.pv, m - Step(e), 3, 1000000))
  /\ P("P53", "a grid without extrapolation refuses positions outside it, and only those", e.thr = 2)

(* ---------------------------------------------------------------- files of data (P55) *)
Rows(e, cap) == LET k == IF e.n = 0 THEN Len(e.rows) ELSE Min2(e.n, Len(e.rows)) IN SubSeq(e.rows, 1, Min2(k, cap))
CsvOk(e) ==
  LET cap == IF e.k = "arr" THEN 6 ELSE 100000
      want == CASE e.k \in {"mat32", "mat23", "col4"} -> SubSeq(e.rows, 1, e.d0) [] OTHER -> Rows(e, cap) IN
  IF e.missing THEN P("P55", "a file which is not there is reported", e.exc = 2)
  ELSE
  /\ P("P55", "a file of data can be read", e.exc = 0)
  /\ P("P55", "what was read is what the rows of the file say, in their order", e.exc = 0 => e.got = want)
  /\ P("P55", "as many rows were read as were asked for and are there",
       e.exc = 0 => CASE e.k \in {"vec", "xyv", "span", "again"} -> e.d0 = Len(want) /\ e.d1 = Len(want)
                      [] e.k = "arr" -> e.d0 = 6 /\ e.d1 = 6
                      [] e.k = "ncol" -> e.d0 = Len(want) /\ (want # <<>> => e.d1 = Len(want[1]))
                      [] OTHER -> TRUE)
ModelsOk(e) ==
  /\ P("P55", "as many ageing models can be combined as there is place for, and no more", e.refused = Max2(0, e.n - e.len) /\ e.none = 0 /\ e.after = 0)
  /\ P("P55", "the ageing models which were combined are kept", e.got = [k \in 1 .. Min2(e.n, e.len) |-> 1 + (k % 5)])

(* ---------------------------------------------------------------- open circuit voltage curves (P56) *)
ValidCurve(X, Y, full) == Abs(X[1]) < 10 /\ (full => Abs(Last(X) - 1000000) < 10) /\ Incr(X) /\ \A i \in 1 .. Len(Y) : Y[i] >= 0 /\ Y[i] <= 10000
ValidOk(e) == P("P56", "exactly the curves of the documented form are accepted", e.ok = ValidCurve(e.X, e.Y, e.check))
Milli(c) == [i \in 1 .. Len(c.X) |-> c.X[i] * 1000]
OcvInOk(e) ==
  LET missing == \E k \in 1 .. 3 : e.in[k].X = <<>>
      bad == \E k \in 1 .. 3 : ~ValidCurve(Milli(e.in[k]), e.in[k].Y, k < 3) IN
  /\ P("P56", "curves which are not there or not of the documented form are refused", e.exc = (IF missing THEN 2 ELSE IF bad THEN 10000 ELSE 0))
  /\ P("P56", "the curves which were read are the ones in the files", e.exc = 0 => \A k \in 1 .. 3 : e.got[k].X = e.in[k].X /\ e.got[k].Y = e.in[k].Y)
RmseOk(e) ==
  LET d(i) == LET q == e.X1[i] IN (e.Y1[i] - (IF e.bound /\ (Below(e.X2, q, 0) \/ Above(e.X2, q, 0)) THEN 0 ELSE Interp(e.X2, e.Y2, q, 1)))
      sum == SumSeq([i \in 1 .. Len(e.X1) |-> d(i) * d(i)]) \div Len(e.X1)
      r == e.r \div 1000 IN
  P("P56", "the error of a fit is the root of the mean squared difference of the voltages", Max2(r - 2, 0) * Max2(r - 2, 0) <= sum /\ sum <= (r + 3) * (r + 3))
\* charge of the electrode in steps of the fraction: 1e-8
Frac(s0, ah, Q, sign) == s0 * 100 + sign * MulDiv(ah, 1000, Q)
VNear(X, Y, f1, f2, v) == \* f 1e-8, X 1e-3, Y mV, v uV: between the voltages of two neighbouring states
  LET a == Interp([i \in 1 .. Len(X) |-> X[i] * 100000], Y, f1, 1000)  b == Interp([i \in 1 .. Len(X) |-> X[i] * 100000], Y, f2, 1000) IN
  v >= Min2(a, b) - 30 /\ v <= Max2(a, b) + 30
DisOk(e) ==
  LET n == Len(e.ah)
      one == MulDiv2(e.cap, 50000, 3600, 1)         \* charge in one step of 5 s at a tenth of the capacity, 1e-8 Ah
      back(k) == IF k = 1 THEN 0 ELSE one
      fp(k) == Frac(e.sp, e.ah[k], e.Qp, 1)  fn(k) == Frac(e.sn, e.ah[k], e.Qn, -1)
      fp0(k) == Frac(e.sp, e.ah[k] - back(k), e.Qp, 1)  fn0(k) == Frac(e.sn, e.ah[k] - back(k), e.Qn, -1)
      ended(k) == e.v[k] <= e.ve * 1000 + 2 \/ fp(k) >= 99999900 \/ fn(k) <= 100
      surely(k) == e.v[k] < e.ve * 1000 - 2 \/ fp(k) > 100000100 \/ fn(k) < -100 IN
  /\ P("P56", "a simulated discharge runs", e.exc = 0 /\ n >= 2 /\ Len(e.v) = n /\ Len(e.ax) = n /\ Len(e.cx) = n /\ Len(e.ay) = n /\ Len(e.cy) = n)
  /\ P("P56", "the points of a simulated discharge follow each other at equal charge", e.ah[1] = 0 /\ \A k \in 2 .. n - 1 : Near(e.ah[k], (k - 1) * MulDiv2(e.cap, 5000000, 3600, 1), 3 + k * 2, 1000000))
  /\ P("P56", "no step is longer than the others at the end of a simulated discharge", n >= 2 => e.ah[n] - e.ah[n - 1] <= MulDiv2(e.cap, 5000000, 3600, 1) + 5 + n /\ e.ah[n] > e.ah[n - 1])
  /\ P("P56", "the lithium which leaves the anode arrives in the cathode", \A k \in 1 .. n : Near(e.cx[k], fp(k), 5, 1000000) /\ Near(e.ax[k], fn(k), 5, 1000000))
  /\ P("P56", "the potentials of a simulated discharge are those of the electrode curves", \A k \in 1 .. n : VNear(e.Xp, e.Yp, fp0(k), fp(k), e.cy[k]) /\ VNear(e.Xn, e.Yn, fn0(k), fn(k), e.ay[k]))
  /\ P("P56", "the voltage of a simulated discharge is the difference of the potentials", \A k \in 1 .. n : Abs(e.v[k] - (e.cy[k] - e.ay[k])) <= 2)
  /\ P("P56", "a simulated discharge ends at its end voltage or when an electrode is full or empty", ended(n) /\ \A k \in 2 .. n - 1 : ~surely(k))
  /\ P("P56", "the fractions at full, half and no charge are those of the discharge", e.fp[1] = e.sp * 100 /\ e.fn[1] = e.sn * 100 /\ Near(e.fp[3], fp(n), 5, 1000000) /\ Near(e.fn[3], fn(n), 5, 1000000)
                                                          /\ Abs(2 * e.fp[2] - e.fp[1] - e.fp[3]) <= 2 /\ Abs(2 * e.fn[2] - e.fn[1] - e.fn[3]) <= 2)

One(h, e) ==
  CASE e.op = "lin" -> LinOk(e) [] e.op = "hist" -> HistOk(e) [] e.op = "add" -> AddOk(h, e) [] e.op = "show" -> ShowOk(h, e) [] e.op = "grid" -> GridOk(e)
    [] e.op = "csv" -> CsvOk(e) [] e.op = "models" -> ModelsOk(e) [] e.op = "valid" -> ValidOk(e) [] e.op = "ocvin" -> OcvInOk(e) [] e.op = "rmse" -> RmseOk(e) [] e.op = "dis" -> DisOk(e)
    [] OTHER -> TRUE
=========================================================================
