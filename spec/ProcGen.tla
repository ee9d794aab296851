----------------------------- MODULE ProcGen -----------------------------
(* Schedules of procedures: the environment of ProcTrace. One unit, its preparation, and what is done with it.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Classes
VARIABLES hist, kind, left
vars == <<hist, kind, left>>
S == " "
R(X) == RandomElement(X)
\* ageing, spread and several kinds of cells
Spm(z_) == R({ "K", "K:0.9:1.2", "K:1.05:0.9:1.5:1", "K:1:1:1:1:1-0_0-0_1_0", "K:0.95:1.1:2:1:2-1_0-0_0_0", "K:1:1.1:1:1:0-0_1-0_0_1", "K:1.02:1:1:1:3-0_2-1_2_0" })
Lin(z_) == R({ "b:5:0.5", "b:6:0.6", "b:5:0.3", "e1:5:0.5", "e2:6:0.45", "b:8:0.55" })
One(z_) == R({ "b:5:", "b:6:", "b:5.5:", "e1:5:", "e2:6:" }) \o "0.5"
Rc2(z_) == R({ "", ";rc=0.001,0.002", ";rc=0.0002,0.0003" })
BalTree(z_) == CASE R(1 .. 9) = 1 -> Spm(0)
               [] R(1 .. 6) = 1 -> "s(" \o Spm(0) \o "," \o Spm(1) \o "," \o Spm(2) \o R({"", ";rc=0.001,0.002,0.001"}) \o ")"
               [] R(1 .. 5) = 1 -> "s(" \o Spm(0) \o "," \o Lin(0) \o Rc2(0) \o ")"
               [] R(1 .. 4) = 1 -> "s(s(" \o Spm(0) \o "," \o Spm(1) \o Rc2(0) \o ")," \o Spm(2) \o Rc2(1) \o ")"
               [] R(1 .. 3) = 1 -> "p(" \o Spm(0) \o "," \o Spm(1) \o Rc2(0) \o ")"
               [] R(1 .. 2) = 1 -> "B(s(" \o Spm(0) \o "," \o Spm(1) \o Rc2(0) \o ");ns=2;np=3)"
               [] OTHER -> "s(" \o Spm(0) \o "," \o Spm(1) \o Rc2(0) \o ")"
AnyTree(z_) == IF R(1 .. 2) = 1 THEN BalTree(0) ELSE IF R(1 .. 3) = 1 THEN "s(" \o One(0) \o "," \o One(1) \o "," \o One(2) \o ")" ELSE IF R(1 .. 2) = 1 THEN Lin(0) ELSE "B(s(" \o One(0) \o "," \o One(1) \o Rc2(0) \o ");ns=2;np=1)"
CycTree(z_) == CASE R(1 .. 8) = 1 -> R({ "s(s(s(b:5:0.5,b:5:0.5)),b:5:0.5)", "s(s(s(b:5:0.5)),s(b:5.5:0.5))", "s(s(p(b:2.5:0.5,b:2.5:0.5)),b:5:0.5)" })
               [] R(1 .. 7) = 1 -> One(0)
               [] R(1 .. 6) = 1 -> "s(" \o One(0) \o "," \o One(1) \o Rc2(0) \o ")"
               [] R(1 .. 5) = 1 -> "s(b:5:0.5,b:5:0.5" \o Rc2(0) \o ")"
               [] R(1 .. 4) = 1 -> "p(" \o One(0) \o "," \o One(1) \o R({"", ";rc=0.0002,0.0003"}) \o ")"
               [] R(1 .. 3) = 1 -> "B(s(b:5:0.5,b:5:0.5" \o Rc2(0) \o ");ns=1;np=" \o R({"1", "2"}) \o ")"
               [] R(1 .. 2) = 1 -> "s(" \o Spm(0) \o "," \o Spm(1) \o Rc2(0) \o ")"
               [] OTHER -> "s(s(b:5:0.5,b:6:0.5)," \o One(0) \o ")"
Vb(z_) == R({"3.65", "3.5", "3.8", "3.9", "3.3", "3.65", "3.6"})
B(z_) == R({"0", "1"})
Prep(z_) == R({ "soc " \o R({"0", "1", "2"}) \o S \o R({"300", "-300", "600", "-900", "60", "1200"}), "setI " \o R({"0.1", "-0.1", "0"}), "run " \o R({"1", "2"}) \o S \o R({"5", "60"}) })
Cycle(z_) == "cycle " \o R({"1", "2", "3", "4", "5", "7"}) \o S \o R({"1", "2", "3", "5"}) \o S \o R({"1", "2", "3", "4"}) \o S \o B(0) \o S \o R({"1", "0.5", "2", "0.9"}) \o S \o R({"1", "0.6", "2.1"}) \o S
             \o R({"0.1", "0.15", "0.2", "0", "0.1"}) \o S \o R({"0.9", "0.85", "0.8", "1", "0.9"})
Do(c) == CASE c = "bal" -> <<Prep(0), Prep(1), Prep(2), "bal " \o R({"4.5", "2.1", "3.65", "3.65", Vb(0), Vb(1), Vb(2), Vb(3)}) \o S \o R({"0", "1", "1", "1"} \cup {"1"}) \o S \o R({"0"}) \o S \o R({"0", "2.5"}) \o S \o R({"0", "4", "12"}) \o S \o B(1)>>
           [] c = "chk" -> <<Prep(0), Prep(1), IF R(1 .. 2) = 1 THEN "bal " \o Vb(0) \o S \o B(0) \o " 1 " \o R({"0", "1.25", "1234.5678"}) \o S \o R({"0", "7", "1000"}) \o S \o B(1) ELSE "checkup " \o R({"0", "3.5", "12345.678"}) \o S \o R({"0", "3", "250"}), "mods">>
           [] c = "cyc" -> <<Prep(0), "soc " \o R({"0", "1"}) \o S \o R({"0", "60", "-60"}), Cycle(0) \o " 0 " \o B(1) \o S \o Vb(0) \o S \o B(2)>>
           [] c = "use" -> <<"use 0 " \o B(0) \o S \o Vb(0) \o S \o B(1)>>
           [] c = "one5" -> <<"cyc15 0 " \o B(0) \o S \o Vb(0) \o S \o B(1) \o S \o B(2)>>
           [] c = "rows" -> [k \in 1 .. 1 |-> LET x == R(1 .. 12) IN
                CASE x \in {1, 2, 3} -> "cyc cc " \o R({"1", "-1", "0.3", "-0.5", "2"}) \o S \o R({"60", "333.3", "20", "0"}) \o S \o R({"1", "2", "5"}) \o S \o R({"1", "2", "3", "7", "25", "0"}) \o S \o R({"a", "b", "test_1"})
                  [] x \in {4, 5} -> "cyc rest 1 " \o R({"60", "600", "33"}) \o S \o R({"1", "10"}) \o S \o R({"1", "3", "0", "20"}) \o S \o R({"a", "b", "test_1"})
                  [] x = 6 -> "cyc cv " \o R({"0", "0.005", "-0.005"}) \o S \o R({"30", "99"}) \o S \o R({"1", "3"}) \o S \o R({"1", "4", "0"}) \o S \o R({"a", "b", "test_1"})
                  [] x \in {7, 8} -> "store"
                  [] x = 9 -> "write " \o R({"a", "b", "test_1"})
                  [] x = 10 -> "copyw " \o R({"a", "c"})
                  [] x = 11 -> Prep(0)
                  [] OTHER -> "files"]
           [] OTHER -> <<Cycle(0) \o S \o R({"50", "400", "1000"}) \o S \o B(1) \o S \o Vb(0) \o S \o B(2), "files">>
Tree(c) == CASE c \in {"bal", "chk"} -> IF c = "bal" THEN BalTree(0) ELSE AnyTree(0) [] c \in {"use", "one5"} -> R({"b:5:0.5", "s(b:5:0.5,b:5:0.5)", "s(b:5:0.5,b:5:0.52;rc=0.001,0.002)", "e1:5:0.5", "p(b:4:0.5,b:5:0.5)", "B(s(b:5:0.5,b:5:0.5;rc=0.001,0.001))"}) [] OTHER -> CycTree(0)
Init == hist = <<>> /\ kind = "" /\ left = 0
Start == hist = <<>> /\ \E c \in {R(Classes)} : kind' = c /\ left' = (IF c \in {"bal", "chk", "use", "one5", "cyc", "cycrows"} THEN R(1 .. 2) ELSE Depth)
         /\ \E d \in {Tree(c)} : hist' = <<"build " \o d \o IF c \in {"bal", "chk"} THEN " plain" ELSE "">> \o (IF c \in {"rows", "cycrows"} THEN <<"rows 1">> ELSE <<>>)
Act == hist # <<>> /\ left > 0 /\ left' = left - 1 /\ UNCHANGED kind /\ hist' = hist \o Do(kind) \o (IF left = 1 /\ kind = "rows" THEN <<"write a", "files">> ELSE <<>>)
Next == Start \/ Act
Spec == Init /\ [][Next]_vars
Show == (hist # <<>> /\ left = 0) => PrintT("SCHEDULE " \o ToJson(hist))
==========================================================================
