------------------------------ MODULE UtilMC ------------------------------
(* Models of the algorithms behind the utilities: the search for the interval (with a guess which rounding may place beside    *)
(* the interval), counting in bins, grids, the row by row reader, and the two buckets of lithium of a slow discharge; checked   *)
(* exhaustively for small inputs against Util.tla. Bug names a deliberately wrong algorithm which must be rejected.            *)
EXTENDS Util
CONSTANTS Bug, Size
VARIABLES h, e, n
vars == <<h, e, n>>
Idle == [op |-> "build"]
(* ------------------------------------------------ interpolation *)
Xs == {x \in UNION {[1 .. k -> 0 .. Size] : k \in 1 .. 3} : Incr(x)}
\* x = (q, ulp) in its order with the data points
Lt(q, u, x) == q < x \/ (q = x /\ u < 0)
Gt(q, u, x) == q > x \/ (q = x /\ u > 0)
Lower(X, q, u) == CHOOSE i \in 1 .. Len(X) : ~Gt(q, u, X[i]) /\ \A j \in 1 .. i - 1 : Gt(q, u, X[j])
RECURSIVE Walk(_, _, _, _)
Walk(X, q, u, i) == IF i > 2 /\ Lt(q, u, X[i - 1]) THEN Walk(X, q, u, i - 1) ELSE IF i < Len(X) /\ Gt(q, u, X[i]) THEN Walk(X, q, u, i + 1) ELSE i
Clamp(i, a, b) == Max2(a, Min2(i, b))
Line(X, Y, i, q) == Y[i - 1] * 1000 + MulDiv((Y[i] - Y[i - 1]) * 1000, q - X[i - 1], X[i] - X[i - 1])
Lin(X, Y, q, u, bound, guess) ==
  LET m == Len(X)
      lo == Lt(q, u, X[1])  hi == Gt(q, u, X[m])
      bad == bound /\ Bug # "always" /\ (lo \/ hi)
      i0 == IF guess = 9 THEN Lower(X, q, u) ELSE Clamp(Lower(X, q, u) + guess, 2, m)
      i == IF guess = 9 THEN (IF Bug = "upper" THEN Clamp(i0 + 1, 2, m) ELSE i0) ELSE IF Bug = "nowalk" THEN i0 ELSE Walk(X, q, u, i0)
      v == IF ~Gt(q, u, X[1]) THEN (IF Bug = "extrap" /\ m > 1 THEN Line(X, Y, 2, q) ELSE Y[1] * 1000)
           ELSE IF ~Lt(q, u, X[m]) THEN Y[m] * 1000
           ELSE IF Bug = "nearest" THEN Y[i] * 1000 ELSE Line(X, Y, i, q) IN
  [op |-> "lin", k |-> "vec", X |-> X, Y |-> Y, q |-> q, nan |-> FALSE, ulp |-> u, bound |-> bound, exc |-> IF bad THEN 1 ELSE 0, yt |-> IF bad THEN 0 ELSE v,
   st |-> IF ~bad THEN 0 ELSE IF lo /\ Bug # "side" THEN -1 ELSE 1, y |-> IF bad THEN 0 ELSE v]
LinNext == \E X \in Xs : \E Y \in [1 .. Len(X) -> {0, 5, -3}] : \E q \in -1 .. Size + 1 : \E u \in {-1, 0, 1} : \E b \in BOOLEAN : \E g \in {-1, 0, 1, 9} :
  e' = Lin(X, Y, q, u, b, g)
(* ------------------------------------------------ histograms *)
HistNext ==
  \/ n = 0 /\ \E lo \in -1 .. 1, w \in 1 .. 4, k \in 1 .. 4, d \in {1, 3} :
       /\ h' = [op |-> "hist", lo |-> lo, hi |-> lo + w, n |-> k, den |-> d, bins |-> k + 2, cnt |-> [i \in 0 .. k + 1 |-> 0],
                edges |-> [i \in 1 .. k + 1 |-> RDiv(lo * U, d) + MulDiv2(w, (i - 1) * U, k, d)]]
       /\ e' = h'
  \/ n > 0 /\ \E v \in -3 .. 7 :
       LET w == h.hi - h.lo  p == (v - h.lo) * h.n
           b == IF v < h.lo THEN 0 ELSE IF v >= h.hi THEN (IF Bug = "last" THEN h.n ELSE h.n + 1) ELSE IF Bug = "shift" THEN 1 + (p + w - 1) \div w ELSE 1 + p \div w
           c == [h.cnt EXCEPT ![b] = @ + (IF Bug = "lost" /\ b = 0 THEN 0 ELSE 1)]
           sum == SumSeq([i \in 1 .. h.n + 2 |-> c[i - 1]]) IN
       /\ h' = [h EXCEPT !.cnt = c]
       /\ e' = [op |-> "add", sym |-> "", v |-> v, den |-> h.den, ch |-> IF c = h.cnt THEN <<>> ELSE <<b, 1>>, tot |-> sum, added |-> SumSeq([i \in 1 .. h.n + 2 |-> h.cnt[i - 1]]) + 1]
  \/ n > 0 /\ UNCHANGED h /\ e' = [op |-> "show", t1 |-> "Edges:", t2 |-> "Bins:", edges |-> IF Bug = "edge" THEN SubSeq(h.edges, 1, h.n) ELSE h.edges, bins |-> <<h.n>>, now |-> <<h.n>>]
(* ------------------------------------------------ grids *)
Kinds == {"linspace", "linspace_fix", "linstep_fix", "logstep_fix", "range_fix"}
GridNext == \E k \in Kinds, a \in -2 .. 2, b \in 1 .. 3, m \in 1 .. 4, d \in {1, 2, 3} : (k # "range_fix" \/ b >= a) /\
  LET len == IF k = "range_fix" THEN Max2(b - a, 0) \div m + 1 ELSE m
      div == IF Bug = "short" THEN len ELSE Max2(len - 1, 1)
      val(i) == CASE k \in {"linspace", "linspace_fix"} -> IF len = 1 THEN At(b, d) ELSE At(a, d) + MulDiv2(b - a, i * U, div, d)
                  [] k = "linstep_fix" -> At(a, d) + MulDiv2(b * i, U, d, 1)
                  [] k = "range_fix" -> At(a, d) + MulDiv2(m * i, U, d, 1)
                  [] OTHER -> IF Bug = "ratio" THEN MulDiv2(a * b * i, U, d, 1) ELSE MulMulDiv(Pow(b, i), a, U, Pow(d, i), d)
      v == [i \in 1 .. len |-> val(i - 1)]
      st == CASE k = "linstep_fix" -> MulDiv2(b, U, d, 1) [] k = "range_fix" -> MulDiv2(m, U, d, 1) [] OTHER -> IF len = 1 THEN 0 ELSE MulDiv2(b - a, U, len - 1, d)
      x == v[len \div 2 + 1]
      log == k = "logstep_fix" IN
  e' = [op |-> "grid", k |-> k, a |-> a, b |-> b, n |-> m, den |-> d, size |-> len, v |-> v, same |-> TRUE, front |-> v[1], back |-> IF Bug = "end" THEN v[1] ELSE v[len],
        pv |-> IF Bug = "prev" THEN x + st ELSE IF log THEN MulDiv(x, d, b) ELSE x - st, nx |-> IF log THEN MulDiv(x, b, d) ELSE x + st, thr |-> 2]
(* ------------------------------------------------ a reader of rows *)
Files == UNION {[1 .. k -> {<<1, 2>>, <<-3, 4>>, <<5, 6>>}] : k \in 0 .. 3}
RECURSIVE Read(_, _, _)
Read(rows, want, got) == IF rows = <<>> \/ (want # 0 /\ Len(got) = want + (IF Bug = "more" THEN 1 ELSE 0)) THEN got ELSE Read(Tail(rows), want, Append(got, IF Bug = "swap" THEN <<Head(rows)[2], Head(rows)[1]>> ELSE Head(rows)))
CsvNext == \E k \in {"vec", "span", "ncol"}, f \in Files, m \in 0 .. 4, miss \in BOOLEAN :
  LET g == Read(IF Bug = "first" /\ f # <<>> THEN Tail(f) ELSE f, m, <<>>) IN
  e' = [op |-> "csv", k |-> k, missing |-> miss, n |-> m, rows |-> f, got |-> IF miss THEN <<>> ELSE g, exc |-> IF miss /\ Bug # "silent" THEN 2 ELSE 0, d0 |-> Len(g), d1 |-> IF k = "ncol" THEN 2 ELSE Len(g)]
(* ------------------------------------------------ open circuit voltage: form, error, discharge *)
Curves == {<<x, y>> \in Xs \X UNION {[1 .. k -> {0, 4, 6}] : k \in 1 .. 3} : Len(x) = Len(y)}
ValidNext == \E X \in UNION {[1 .. k -> {0, 4, 300000, 1000000, 999995}] : k \in 1 .. 3} : \E Y \in [1 .. Len(X) -> {-1, 0, 9999, 10001}] : \E f \in BOOLEAN :
  e' = [op |-> "valid", check |-> f, X |-> X, Y |-> Y,
        ok |-> /\ \A i \in 1 .. Len(X) - 1 : IF Bug = "double" THEN X[i] <= X[i + 1] ELSE X[i] < X[i + 1]
               /\ X[1] < 10 /\ (f => Abs(X[Len(X)] - 1000000) < 10) /\ \A i \in 1 .. Len(Y) : (Y[i] >= 0 \/ Bug = "low") /\ Y[i] <= 10000]
RmseNext == \E a \in Curves, b \in Curves, bnd \in BOOLEAN :
  LET v(q) == IF bnd /\ Bug # "clamp" /\ (q < b[1][1] \/ q > b[1][Len(b[1])]) THEN 0 ELSE Interp(b[1], [i \in 1 .. Len(b[2]) |-> b[2][i] * 100], q, 1)
      s == SumSeq([i \in 1 .. Len(a[1]) |-> (a[2][i] * 100 - v(a[1][i])) * (a[2][i] * 100 - v(a[1][i]))]) IN
  e' = [op |-> "rmse", bound |-> bnd, X1 |-> a[1], Y1 |-> [i \in 1 .. Len(a[2]) |-> a[2][i] * 100], X2 |-> b[1], Y2 |-> [i \in 1 .. Len(b[2]) |-> b[2][i] * 100],
        r |-> (IF Bug = "norm" THEN SqrtMicro(s) ELSE SqrtMicro(s \div Len(a[1])))]
\* a discharge whose steps are one hundredth of the stored ones
Kc == [i \in 1 .. 2 |-> <<0, 1000>>[i] * 100000]
DisSim(cap, Qp, Qn, sp, sn, ve, Yp, Yn) ==
  LET one == RDiv(cap * 50000, 3600)
      f(k) == Frac(sp, k * one, Qp, 1)  g(k) == IF Bug = "bucket" THEN sn * 100 ELSE Frac(sn, k * one, Qn, -1)
      vp(k) == Interp(Kc, Yp, f(k), 1000)  vn(k) == Interp(Kc, Yn, g(k), 1000)
      over(k) == k > 0 /\ (vp(k - 1) - vn(k - 1) <= ve * 1000 + (IF Bug = "late" THEN -30000 ELSE 0) \/ f(k) >= 100000000 \/ g(k) <= 0)
      ends == CHOOSE k \in 1 .. 3000 : over(k) /\ \A q \in 1 .. k - 1 : ~over(q)
      pts == [i \in 1 .. (ends + 99) \div 100 + 1 |-> Min2((i - 1) * 100, ends)]
      m == Len(pts)  bk(i) == IF i = 1 THEN 0 ELSE pts[i] - 1 IN
  [op |-> "dis", Xp |-> <<0, 1000>>, Yp |-> Yp, Xn |-> <<0, 1000>>, Yn |-> Yn, cap |-> cap, Qp |-> Qp, Qn |-> Qn, sp |-> sp, sn |-> sn, ve |-> ve, exc |-> 0,
   ah |-> [i \in 1 .. m |-> pts[i] * one], cx |-> [i \in 1 .. m |-> f(pts[i])], ax |-> [i \in 1 .. m |-> g(pts[i])], cy |-> [i \in 1 .. m |-> vp(bk(i))], ay |-> [i \in 1 .. m |-> vn(bk(i))],
   v |-> [i \in 1 .. m |-> IF Bug = "sum" THEN vp(bk(i)) + vn(bk(i)) ELSE vp(bk(i)) - vn(bk(i))], fp |-> <<sp * 100, (sp * 100 + f(ends)) \div 2, f(ends)>>, fn |-> <<sn * 100, (IF Bug = "half" THEN sn * 50 ELSE (sn * 100 + g(ends)) \div 2), g(ends)>>]
DisNext == \E Qp \in {7200, 10800}, Qn \in {7200, 9000}, sp \in {850000, 900000}, sn \in {150000, 250000}, ve \in {2100, 2450} : e' = DisSim(7200, Qp, Qn, sp, sn, ve, <<4300, 3000>>, <<900, 100>>)
Next == /\ n < (IF Clauses = {"P52"} THEN 3 ELSE 1) /\ n' = n + 1
        /\ CASE Clauses = {"P51"} -> LinNext /\ UNCHANGED h
             [] Clauses = {"P52"} -> HistNext
             [] Clauses = {"P53"} -> GridNext /\ UNCHANGED h
             [] Clauses = {"P55"} -> CsvNext /\ UNCHANGED h
             [] OTHER -> (ValidNext \/ RmseNext \/ DisNext) /\ UNCHANGED h
Init == h = Idle /\ e = Idle /\ n = 0
Spec == Init /\ [][Next]_vars
Sound == One(h, e)
===========================================================================
