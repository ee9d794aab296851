----------------------------- MODULE AgeGen -----------------------------
(* Lives of a physics-based cell: the environment of AgeTrace.                                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Classes
VARIABLES hist, big
vars == <<hist, big>>
R(X) == RandomElement(X)
S == " "
\* none, one, two or three models out of m
One(m) == ToString(R(1 .. m))
Sel(m) == CASE R(1 .. 8) = 1 -> "0" [] R(1 .. 2) = 1 -> One(m) [] R(1 .. 4) = 1 -> One(m) \o "+" \o One(m) \o "+" \o One(m) [] OTHER -> One(m) \o "+" \o One(m)
Deg(cl) == CASE cl = "none" -> "0-0_0-0_0_0"
             [] cl = "bad" -> R({"7-0_0-0_0_0", "0-0_9-0_0_0", "0-0_0-0_6_0", "0-0_0-0_0_3", "1-4_0-0_0_0", "0-0_1-3_0_0", "2+8-0_0-0_0_0"})
             [] cl = "lith" -> Sel(4) \o "-0_" \o R({"0", Sel(5), Sel(5)}) \o "-" \o R({"0", "1"}) \o "_0_" \o R({"0", "1"})
             [] OTHER -> Sel(4) \o "-" \o R({"0", "1"}) \o "_" \o R({"0", Sel(5), Sel(5)}) \o "-" \o R({"0", "1"}) \o "_" \o R({"0", Sel(4), Sel(4)}) \o "_" \o R({"0", "1"})
Init == hist = <<>> /\ big = FALSE
Build == \E cl \in {R(Classes)} : hist' = <<"build " \o R({"1", "1.1", "0.9"}) \o S \o R({"1", "1.3", "0.8"}) \o S \o R({"1", "1.5", "0.4", "2.5"}) \o S \o R({"1", "2", "0.3"}) \o S \o Deg(cl) \o R({"", "", " in"})>> /\ big' = (cl = "lith")
C == {"0", "1", "-1", "0.5", "-0.5", "0.1", "-0.1", "2", "-2", "0.98", "-1.05"}
Short == {"1 5", "1 10", "0.5 8", "0.25 20", "1 1", "2 5", "1.5 6", "0 3", "1 25"}
Step == LET x == R(Short) IN hist' = Append(hist, "step " \o x)
Long == hist' = hist \o <<"setI 0", "step 1 700", "step 1 5">>
SteadyState == big /\ LET i == R({"0.05", "-0.05", "0.08", "-0.08"}) IN hist' = hist \o <<"setIf " \o i, "step 1 1300", "step 0.5 10">>
SetI == LET x == R(C) IN hist' = Append(hist, "setI " \o x)
SetIf == LET x == R(C \cup {"3", "-3"}) IN hist' = Append(hist, "setIf " \o x)
SetT == LET x == R({"10", "20", "25", "40", "55"}) IN hist' = Append(hist, "setT " \o x)
SetV == LET x == R({"0.03", "-0.03", "0.1", "-0.15"}) IN hist' = Append(hist, "setV " \o x)
Block == LET x == R({"0", "1", "0"}) IN hist' = Append(hist, "block " \o x)
SetC == LET x == R({"0.5 0.75", "0.9 0.15", "0.6 0.6", "0.8 0.3"}) IN hist' = Append(hist, "setC " \o x)
Keep == LET x == R({"save", "load"}) IN hist' = Append(hist, x)
Kinds == <<"s", "s", "s", "s", "s", "s", "i", "i", "f", "l", "y", "t", "v", "b", "c", "k", "k">>
Next == Len(hist) < Depth /\ IF hist = <<>> THEN Build ELSE UNCHANGED big /\ \E k \in {Kinds[R(1 .. Len(Kinds))]} :
  CASE k = "s" -> Step [] k = "i" -> SetI [] k = "f" -> SetIf [] k = "l" -> Long [] k = "y" -> IF big THEN SteadyState ELSE Step [] k = "t" -> SetT [] k = "v" -> SetV [] k = "b" -> Block [] k = "c" -> SetC [] OTHER -> Keep
Spec == Init /\ [][Next]_vars
Show == Len(hist) >= Depth => PrintT("SCHEDULE " \o ToJson(hist))
==========================================================================
