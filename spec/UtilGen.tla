----------------------------- MODULE UtilGen -----------------------------
(* Calls of the utilities: the environment of UtilTrace. A history belongs to one class (lin, hist, grid, csv, ocv, dis).    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Classes
VARIABLES hist, cl, g
vars == <<hist, cl, g>>
R(X) == RandomElement(X)
S == " "
T(x) == ToString(x)
Last(s) == s[Len(s)]
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN T(s[1]) ELSE T(Head(s)) \o "," \o Join(Tail(s))
RECURSIVE Up(_, _, _)
Up(s, n, steps) == IF n <= 0 THEN s ELSE LET d == R(steps) IN Up(Append(s, Last(s) + d), n - 1, steps)
RECURSIVE Some(_, _, _)
Some(s, n, vals) == IF n <= 0 THEN s ELSE LET d == R(vals) IN Some(Append(s, d), n - 1, vals)
RECURSIVE Same(_, _, _)
Same(s, n, d) == IF n <= 0 THEN s ELSE Same(Append(s, Last(s) + d), n - 1, d)
Init == hist = <<>> /\ cl = "" /\ g = <<>>
(* ------------------------------------------------ interpolation *)
Vals == {-5000, -1000, -7, 0, 1, 13, 500, 999, 2500, 5000}
Grid(kind) ==
  LET way == IF kind \in {"fd", "xyf"} THEN "even" ELSE R({"any", "any", "even", "drift", "short"})
      den == R({1, 1, 2, 3, 7, 8, 10, 1000})
      a == R({0, 0, 1, -3, -40, 100, 17})
      st == R({1, 2, 3, 7, 10, 100})
      x == CASE way = "even" -> LET n == R({0, 1, 2, 3, 4, 9, 20, 60}) IN Same(<<a>>, n, st)
             [] way = "drift" -> LET n == R({30, 60, 100, 120}) up == R({{100000, 100900}, 99100 .. 100000, 100000 .. 100900, {100000, 99200}}) IN Up(<<a, a + 100000>>, n, up)
             [] way = "short" -> LET n == R({0, 0, 1, 2}) IN Up(<<a>>, n, 1 .. 6)
             [] OTHER -> LET n == R(1 .. 12) IN Up(<<a>>, n, 1 .. 9)
      y == Some(<<R(Vals)>>, Len(x) - 1, Vals) IN
  [k |-> kind, den |-> den, X |-> x, Y |-> y, even |-> way \in {"even", "drift"}]
LinCall(d) ==
  LET m == Len(d.X)  i == R(1 .. m)
      w == R({"at", "at", "up", "down", "in", "in", "below", "above", "far", "nan", "lo", "hi"})
      open == d.k \in {"fd", "xyf"} /\ d.den \notin {1, 2, 8}        \* its last point is not exactly the last number
      q0 == CASE w \in {"at", "up", "down"} -> d.X[i] [] w = "in" -> IF i = m THEN d.X[m] ELSE d.X[i] + R(0 .. d.X[i + 1] - d.X[i]) [] w = "below" -> d.X[1] - R(1 .. 5) [] w = "above" -> Last(d.X) + R(1 .. 5)
               [] w = "lo" -> d.X[1] [] w = "hi" -> Last(d.X) [] OTHER -> R({-1000000, 1000000})
      q == IF open /\ q0 = Last(d.X) THEN d.X[1] ELSE q0
      u == CASE w = "up" -> R({1, 2}) [] w = "down" -> R({-1, -2}) [] w \in {"lo", "hi"} -> R({-1, 0, 1}) [] OTHER -> 0
      inner == IF open \/ d.k \in {"fd", "xyf"} THEN (IF q = d.X[1] THEN u ELSE 0) ELSE u IN
  "lin " \o d.k \o S \o T(d.den) \o S \o Join(d.X) \o S \o Join(d.Y) \o S \o (IF w = "nan" THEN "nan" ELSE T(q)) \o S \o T(inner) \o S \o R({"0", "1"}) \o S \o (IF d.even THEN R({"0", "1", "1"}) ELSE "0")
(* ------------------------------------------------ histograms *)
NewHist(z_) == LET lo == R({0, -5, 10, 273, -100, 3}) w == R({1, 2, 7, 10, 43, 100, 1000}) n == R({1, 2, 3, 5, 7, 10, 64, 100}) d == R({1, 2, 3, 10, 7, 1000}) IN [lo |-> lo, hi |-> lo + w, n |-> IF R(1 .. 12) = 1 THEN 0 ELSE n, den |-> d]
HistCall(h) == "hist " \o T(h.lo) \o S \o T(h.hi) \o S \o T(h.n) \o S \o T(h.den)
AddCall(h) == LET v == R((h.lo - 3) .. (h.hi + 3)) w == R({h.lo, h.hi, h.lo - 1, h.hi - 1, h.hi + 1, -2000, 5000}) s == R({"inf", "-inf", "huge", "-huge", "big", "-big"}) k == R(1 .. 8) IN
              "add " \o (IF k = 1 THEN s ELSE IF k <= 4 THEN T(w) ELSE T(v)) \o S \o T(h.den)
(* ------------------------------------------------ grids *)
GridCall(z_) == LET k == R({"linspace", "array", "linspace_fix", "linspace_fix", "linstep_fix", "logstep_fix", "range_fix"}) a == R({0, 1, -3, 5, 10, -100, 273}) b == R({1, 2, 7, 10, 100, 313, -4}) n == R({1, 2, 3, 4, 5, 7, 10, 33}) den == R({1, 2, 3, 10, 1000}) IN
            "grid " \o k \o S \o (CASE k = "logstep_fix" -> LET x == R({1, 2, -3, 10}) r == R({1, 2, 3, 10, 13, 5}) m == R(1 .. 8) d == R({1, 2}) IN T(x) \o S \o T(r) \o S \o T(m) \o S \o T(d)
                              [] k = "range_fix" -> LET w == R({0, 1, 5, 10, 99, 100}) m == R({1, 2, 3, 7, 10, 200}) d == R({1, 2, 3, 10}) IN T(a) \o S \o T(a + w) \o S \o T(m) \o S \o T(d)
                              [] OTHER -> T(a) \o S \o T(b) \o S \o T(n) \o S \o T(den))
(* ------------------------------------------------ files of data *)
Nums == {0, 1, -1, 1000, 2500, -300, 123456, 999999, 500, 3}
RECURSIVE Table(_, _)
Row(c) == LET a == R(Nums) b == R(Nums) d == R(Nums) e == R(Nums) IN T(a) \o (IF c > 1 THEN "," \o T(b) ELSE "") \o (IF c > 2 THEN "," \o T(d) ELSE "") \o (IF c > 3 THEN "," \o T(e) ELSE "")
Table(r, c) == IF r = 1 THEN Row(c) ELSE Row(c) \o ";" \o Table(r - 1, c)
Loaders == <<"vec", "vec", "xyv", "arr", "span", "span", "mat32", "mat23", "col4", "ncol", "ncol", "models">>
CsvCall(k) ==
  LET c == CASE k = "mat23" -> 3 [] k = "col4" -> 1 [] k = "ncol" -> R(1 .. 4) [] OTHER -> 2
      r == CASE k = "mat32" -> R(3 .. 5) [] k = "mat23" -> R(2 .. 4) [] k = "col4" -> R(4 .. 6) [] OTHER -> R({0, 1, 2, 3, 5, 6, 7, 9, 20})
      n == IF k \in {"mat32", "mat23", "col4"} THEN 0 ELSE R({0, 0, 1, 2, 5, 6, 8, 30})
      file == IF R(1 .. 15) = 1 THEN "missing" ELSE IF r = 0 THEN "-" ELSE Table(r, c) IN
  IF k = "models" THEN <<"models " \o T(R(0 .. 20))>>
  ELSE <<"csv " \o k \o S \o R({"0", "0", "1"}) \o S \o R({"0", "0", "1"}) \o S \o R({"nl", "nl", "none", "empty"}) \o S \o R({"0", "1", "2"}) \o S \o T(n) \o S \o file>>
       \o (IF k = "span" /\ file # "missing" THEN <<"csv again 0 0 nl 0 " \o T(R({0, 1, 2, 5, 8, 30})) \o " -">> ELSE <<>>)
(* ------------------------------------------------ open circuit voltage curves *)
GoodX(n) == LET s == Up(<<0>>, n, 30 .. 200) IN IF Last(s) >= 1000 THEN SelectSeq(s, LAMBDA x : x < 1000) \o <<1000>> ELSE Append(s, 1000)
Volt(n) == Some(<<R({0, 1000, 4000, 10000})>>, n - 1, {0, 10, 1000, 3333, 4000, 9999, 10000})
ValidCall(z_) == LET m == R(2 .. 8)
                 x0 == GoodX(m)
                 x == [i \in 1 .. Len(x0) |-> x0[i] * 1000]
                 e == R(1 .. 8)  i == R(1 .. Len(x))  v == Volt(Len(x))
                 y == IF e = 1 THEN [v EXCEPT ![i] = R({-1, 10001, -500})] ELSE v
                 z == CASE e = 2 -> [x EXCEPT ![1] = R({-8, -12, 8, 12, 4000})] [] e = 3 -> [x EXCEPT ![Len(x)] = R({1000008, 1000012, 999992, 999985, 990001})]
                        [] e = 4 /\ i > 1 -> [x EXCEPT ![i] = x[i - 1]] [] e = 5 /\ i > 1 -> [x EXCEPT ![i] = x[i - 1] - R({1, 5})] [] OTHER -> x IN
             "valid " \o R({"0", "1"}) \o S \o Join(z) \o S \o Join(y)
CurveText(full) == LET x == GoodX(R(1 .. 5)) e == R(1 .. 14)
                       z == IF e = 1 THEN [x EXCEPT ![1] = R({1, 20})] ELSE IF e = 2 \/ ~full THEN [x EXCEPT ![Len(x)] = R({1001, 1500, 2700})] ELSE IF e = 3 /\ Len(x) > 2 THEN [x EXCEPT ![2] = x[3]] ELSE x
                       v == Volt(Len(x))
                       y == IF e = 4 THEN [v EXCEPT ![Len(x)] = R({-1, 10500})] ELSE v IN
                   IF e = 5 THEN "- -" ELSE Join(z) \o S \o Join(y)
OcvInCall(z_) == LET a == CurveText(TRUE) b == CurveText(TRUE) c == CurveText(FALSE) IN "ocvin " \o a \o S \o b \o S \o c
RmseCall(z_) == LET x1 == Up(<<R({0, 0, -50, 300})>>, R(0 .. 9), 10 .. 300) x2 == Up(<<0>>, R(0 .. 9), 10 .. 300)
                y1 == Some(<<3000>>, Len(x1) - 1, 2500 .. 4300) y2 == Some(<<3100>>, Len(x2) - 1, {2500, 3000, 3600, 4200, 4300}) IN
            "rmse " \o R({"0", "1"}) \o S \o Join(x1) \o S \o Join(y1) \o S \o Join(x2) \o S \o Join(y2)
(* ------------------------------------------------ a slow discharge *)
RECURSIVE Falling(_, _, _)
Falling(s, n, steps) == IF n <= 0 THEN s ELSE LET d == R(steps) IN Falling(Append(s, Last(s) - d), n - 1, steps)
DisCall(z_) == LET xp == GoodX(R(1 .. 6)) xn == GoodX(R(1 .. 6)) yp == Falling(<<R({4300, 4500, 4200})>>, Len(xp) - 1, 50 .. 350) yn == Falling(<<R({1200, 900})>>, Len(xn) - 1, 10 .. 150)
               cap == R({2700, 5000, 1000}) qp == R({11, 12, 13, 15, 20}) qn == R({11, 12, 13, 15, 20}) IN
           "dis " \o Join(xp) \o S \o Join(yp) \o S \o Join(xn) \o S \o Join(yn) \o S \o T(cap) \o S \o T((cap \div 10) * qp) \o S \o T((cap \div 10) * qn) \o S \o T(R({200000, 350000, 500000, 700000, 950000})) \o S \o T(R({999000, 800000, 600000, 300000, 50000})) \o S \o T(R({2700, 3000, 2000, 3300}))
(* ------------------------------------------------ *)
LinKinds == <<"vec", "vec", "span", "part", "fd", "xyv", "xyv", "xys", "xyf">>
Begin == \E c \in {R(Classes)} : cl' = c /\ hist' = <<"build">> /\ (CASE c = "hist" -> g' = NewHist(hist) [] c = "lin" -> \E k \in {LinKinds[R(1 .. Len(LinKinds))]} : \E d \in {Grid(k)} : g' = d [] OTHER -> g' = g)
Step ==
  CASE cl = "lin" -> IF R(1 .. 6) = 1 THEN (\E k \in {LinKinds[R(1 .. Len(LinKinds))]} : \E d \in {Grid(k)} : g' = d /\ hist' = Append(hist, LinCall(d))) ELSE g' = g /\ hist' = Append(hist, LinCall(g))
    [] cl = "hist" -> \E r \in {R(1 .. 9)} : IF Len(hist) = 1 THEN g' = g /\ hist' = Append(hist, HistCall(g))
                      ELSE IF r = 1 THEN g' = g /\ hist' = Append(hist, "show") ELSE g' = g /\ hist' = Append(hist, AddCall(g))
    [] cl = "grid" -> g' = g /\ hist' = Append(hist, GridCall(hist))
    [] cl = "csv" -> \E k \in {Loaders[R(1 .. Len(Loaders))]} : g' = g /\ hist' = hist \o CsvCall(k)
    [] cl = "ocv" -> \E k \in {R(1 .. 4)} : g' = g /\ hist' = Append(hist, CASE k = 1 -> OcvInCall(hist) [] k = 2 -> RmseCall(hist) [] OTHER -> ValidCall(hist))
    [] OTHER -> g' = g /\ hist' = Append(hist, DisCall(hist))
Next == Len(hist) < Depth /\ IF hist = <<>> THEN Begin ELSE UNCHANGED cl /\ Step
Spec == Init /\ [][Next]_vars
Show == Len(hist) >= Depth => PrintT("SCHEDULE " \o ToJson(hist))
==========================================================================
