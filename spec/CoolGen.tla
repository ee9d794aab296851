----------------------------- MODULE CoolGen -----------------------------
(* Histories of cooling systems and packs: the environment of CoolTrace.                                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Classes
VARIABLES hist, cl
vars == <<hist, cl>>
R(X) == RandomElement(X)
S == " "
Init == hist = <<>> /\ cl = "lone"
\* ------------------------------------------------ one cooling system
Temps == {"14", "19.99", "20", "20.01", "21.9", "22", "22.1", "24.9", "25", "25.1", "26", "26.9", "27", "27.1", "29.9", "30", "30.1", "31", "34.9", "35", "35.1", "38", "45"}
LoneBuild == hist' = <<"cool " \o R({"std", "std", "hvac", "hvac", "hvac", "open"}) \o S \o R({"1", "3", "9", "100"}) \o S \o R({"1", "2", "3", "4", "5"}) \o S \o R({"0", "0", "12.5", "3000"})>>
Lone(k) == CASE k = "c" -> LET a == R(Temps) b == R(Temps) IN Append(hist, "ctrl " \o a \o S \o b)
             [] k = "t" -> LET a == R(Temps) IN hist \o <<"setT " \o a, "ctrl " \o R(Temps) \o S \o R(Temps)>>
             [] k = "x" -> LET a == R({"-0.5", "75.5", "75", "0", "90", "60"}) IN Append(hist, "setT " \o a)
             [] k = "d" -> LET a == R({"0", "20", "500", "-300", "3000", "20000"}) b == R({"0", "1", "10", "60", "0.5"}) x == R({"1", "1", "0"}) IN Append(hist, "dst " \o a \o S \o b \o S \o x)
             [] k = "D" -> LET a == R({"0", "20", "500", "-300"}) b == R({"1", "10"}) h == R({"10", "0", "500"}) IN Append(hist, "dst " \o a \o S \o b \o " 1 " \o h)
             [] k = "s" -> LET a == R({"1", "2", "3", "4", "5"}) IN Append(hist, "strat " \o a)
             [] k = "r" -> Append(hist, "reset") [] OTHER -> Append(hist, "copy")
LoneKinds == <<"c", "c", "c", "c", "t", "t", "t", "x", "d", "d", "d", "D", "s", "r", "p">>
\* ------------------------------------------------ packs
Ctl(z_) == R({"1", "2", "3", "4", "5"})
O(cool) == ";cool=" \o cool \o ";ctl=" \o Ctl(cool)
Rc(n) == IF R(1 .. 2) = 1 THEN "" ELSE ";rc=" \o (IF n = 2 THEN R({"0.001,0.002", "0.0005,0.0005"}) ELSE R({"0.001,0.0005,0.002", "0.0003,0,0.001"}))
K(z_) == R({"k", "k", "k:1.1", "k:0.9:1.3", "k:1:1.5"})
L == IF cl = "ecm" THEN R({"b:16:0.5", "e1:16:0.5"}) ELSE K(cl)
Mid(z_) == R({"cool", "cool", "open"})
Row(m, n, cool) == m \o "(" \o L \o "," \o L \o (IF n = 3 THEN "," \o L ELSE "") \o Rc(n) \o O(cool) \o ")"
Kind2(z_) == R({"s", "p"})
Mods(top) == CASE R(1 .. 4) = 1 -> Row(Kind2(top), R(2 .. 3), top)
              [] R(1 .. 3) = 1 -> "s(" \o Row("s", 2, Mid(top)) \o "," \o Row("s", 3, Mid(top)) \o Rc(2) \o O(top) \o ")"
              [] R(1 .. 2) = 1 -> Kind2(top) \o "(" \o Row("s", 2, Mid(top)) \o "," \o Row("s", 2, Mid(top)) \o O(top) \o ")"
              [] OTHER -> "s(" \o Row("p", 3, Mid(top)) \o "," \o L \o "," \o Row("p", 2, Mid(top)) \o O(top) \o ")"
Pack == CASE R(1 .. 8) = 1 /\ cl # "bat" -> L
          [] cl = "bat" \/ R(1 .. 3) = 1 -> "B(" \o Mods(R({"cool", "open"})) \o R({"", "", ";ns=20;np=3", ";ns=15", ";np=40"}) \o ")"
          [] OTHER -> Mods("HVAC")
PackBuild == hist' = <<"build " \o Pack, "setI " \o R({"0", "5", "-5", "16"})>>
HotTs == {"15", "18", "20", "21", "22", "23", "24", "25", "26", "27", "28", "30", "31", "33", "34", "35", "36", "40", "45"}
Pk(k) == CASE k = "i" -> LET a == R({"0", "3", "-3", "16", "-16", "30", "-30", "90"} \cup (IF cl = "bat" THEN {"0.4C", "-0.4C", "1C", "-1C", "1.9C", "-1.9C", "31", "-31"} ELSE {})) IN Append(hist, "setI " \o a)
           [] k = "t" -> LET a == R(0 .. 9) t == R(HotTs) IN Append(hist, "setTu " \o ToString(a) \o S \o t)
           [] k = "T" -> LET a == R(0 .. 9) b == R(0 .. 9) t == R(HotTs) v == R(HotTs) IN hist \o <<"setTu " \o ToString(a) \o S \o t, "setTu " \o ToString(b) \o S \o v, "step 1 1">>
           [] k = "b" -> LET a == R({"0", "1", "0"}) IN Append(hist, "block " \o a)
           [] k = "s" -> LET a == R(0 .. 3) b == R(1 .. 5) IN Append(hist, "strats " \o ToString(a) \o S \o ToString(b))
           [] k = "h" -> LET a == R(0 .. 3) b == R({"10", "300"}) IN Append(hist, "heat " \o ToString(a) \o S \o b \o " 5")
           [] k = "l" -> Append(hist, "load") [] k = "c" -> Append(hist, "copyp")
           [] OTHER -> LET x == R({"1 1", "1 10", "2 5", "1 20", "0.5 6", "2 15", "0 3", "1 3"}) IN Append(hist, "step " \o x)
PackKinds == <<"i", "t", "t", "T", "T", "b", "s", "h", "l", "c", "x", "x", "x", "x", "x", "x">>
Next == Len(hist) < Depth /\ IF hist = <<>> THEN \E x \in {R(Classes)} : cl' = x /\ (IF x = "lone" THEN LoneBuild ELSE hist' = <<"?">>)
  ELSE UNCHANGED cl /\ (IF cl = "lone" THEN \E k \in {LoneKinds[R(1 .. Len(LoneKinds))]} : hist' = Lone(k)
                        ELSE IF hist[1] = "?" THEN PackBuild ELSE \E k \in {PackKinds[R(1 .. Len(PackKinds))]} : hist' = Pk(k))
Spec == Init /\ [][Next]_vars
Show == Len(hist) >= Depth => PrintT("SCHEDULE " \o ToJson(hist))
==========================================================================
