----------------------------- MODULE CycGen -----------------------------
(* Schedules of cycler commands: the environment of CycTrace.                                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Classes
VARIABLES hist, tree, kind
vars == <<hist, tree, kind>>
Trees ==
  { [c |-> "cell", d |-> "b:16:0.5"], [c |-> "cell", d |-> "b:20:0.9"], [c |-> "cell", d |-> "b:25:0.1"], [c |-> "cell", d |-> "e1:16:0.4"], [c |-> "cell", d |-> "e2:30:0.7"],
    [c |-> "spm", d |-> "k"], [c |-> "spm", d |-> "k:0.9:1.2"],
    [c |-> "string", d |-> "s(b:16:0.5,b:18:0.55)"], [c |-> "string", d |-> "s(b:20:0.9,e1:20:0.93,b:22:0.4,e2:20:0.2;rc=0.001,0.002,0.003,0.004)"],
    [c |-> "string", d |-> "s(s(b:20:0.7,e1:21:0.5;rc=0.001,0.002),b:22:0.8;rc=0.003,0.004)"],
    [c |-> "block", d |-> "p(b:16:0.5,b:20:0.51;rc=0.0002,0.0003)"], [c |-> "block", d |-> "p(e1:20:0.7,b:16:0.71;rc=0.0002,0.0004)"],
    [c |-> "block", d |-> "s(p(b:16:0.5,b:20:0.51),p(b:18:0.6,b:18:0.6);rc=0.001,0.001)"],
    [c |-> "battery", d |-> "B(s(b:16:0.5,b:20:0.9;rc=0.001,0.001;cool=cool);ns=2;np=3)"],
    [c |-> "spms", d |-> "s(k:1.05:0.9,k:0.95:1.1;rc=0.001,0.002)"],
    [c |-> "cap", d |-> "b:16:0.5"], [c |-> "cap", d |-> "b:25:0.1"], [c |-> "cap", d |-> "e1:16:0.4"], [c |-> "cap", d |-> "e2:30:0.7"], [c |-> "cap", d |-> "k"], [c |-> "cap", d |-> "k:0.9:1.2"],
    [c |-> "cap", d |-> "s(b:16:0.5,b:18:0.55)"], [c |-> "cap", d |-> "p(b:16:0.5,b:20:0.51;rc=0.0002,0.0003)"], [c |-> "cap", d |-> "s(b:16:0.5,e1:16:0.5;rc=0.001,0.002)"] }
Pool == { x \in Trees : x.c \in Classes }
Spm == tree.c \in {"spm", "spms"}
Dt == IF Spm THEN {"1", "2", "0.7"} ELSE {"5", "10", "7.5", "20", "3.3", "0.9"}
Tl == IF Spm THEN {"0", "1", "35.5", "100", "240"} ELSE {"0", "3", "99.5", "333", "1000", "2400"}
TlI == Tl \cup (IF Spm THEN {} ELSE {"-1"})
Nd == {"0", "0", "1", "2", "3", "7", "25"}
C == IF Spm THEN {"1", "-1", "3", "-3", "0.2", "-0.2", "0"} ELSE {"1", "-1", "3", "-3", "0.5", "-0.5", "0.05", "-0.05", "0", "12", "-12"}
Vs == {"m", "M", "l", "L", "-40", "40", "-250", "250", "-4", "4", "900", "-900"}
VC == {"m", "M", "m", "M", "l", "L", "-40", "40", "-200", "200", "4", "-900", "900"}
Il == {"0.01", "0.05", "0.2", "1"}
Kinds == IF tree.c = "cap" THEN {"cap", "cap", "soc", "setI", "diag", "fault"} ELSE {"rest", "cc", "cc", "cccv", "cv", "diag", "setI", "fault", "soc"} \cup (IF tree.c = "block" THEN {} ELSE {"cc2"})
Init == \E x \in Pool : tree = x /\ hist = <<"build " \o x.d>> /\ kind = "none"
Pick == kind = "none" /\ Len(hist) < Depth /\ kind' \in Kinds /\ UNCHANGED <<hist, tree>>
Emit(c) == hist' = hist \o c /\ kind' = "none" /\ UNCHANGED tree
S == " "
R(X) == RandomElement(X)          \* one of many combinations, without enumerating them
Rest == kind = "rest" /\ Emit(<<"rest " \o R(Tl) \o S \o R(Dt) \o S \o R(Nd)>>)
CCi(i) == Emit(<<"cc " \o i \o S \o R(Vs) \o S \o R(IF i \in {"0", "0.05", "-0.05"} THEN Tl ELSE TlI) \o S \o R(Dt) \o S \o R(Nd)>>)
CCa == kind \in {"cc", "cc2"} /\ \E i \in C : CCi(i)
CVc == kind = "cv" /\ \E v \in VC : Emit(<<"cv " \o v \o S \o R(Il) \o S \o R(Tl) \o S \o R(Dt) \o S \o R(Nd)>>)
CCCV == kind = "cccv" /\ \E v \in VC \cup {"l", "L"} : Emit(<<"cccv " \o R({"1", "3", "-0.5"}) \o S \o v \o S \o R(Il) \o S \o R(Tl) \o S \o R(Dt) \o S \o R(Nd)>>)
Diag == kind = "diag" /\ \E x \in {"0", "1"} : Emit(<<"diag " \o x>>)
SetI == kind = "setI" /\ \E x \in {"0", "1", "-1", "4", "-4"} : Emit(<<"setI " \o x>>)
Soc == kind = "soc" /\ \E x \in IF tree.c = "cap" THEN {"0.05", "0.35", "0.5", "0.9", "0.96"} ELSE {"0.32", "0.4", "0.6", "0.85", "0.93", "0.955"} : Emit(<<"soc " \o x>>)
Fault == kind = "fault" /\ \E x \in IF tree.c = "cap" THEN {"step 1", "step 400", "step 60000", "setI 1 12", "setI 2 3", "setI 300 7"} ELSE {"step 1", "step 2", "step 5", "setI 1 12", "setI 2 3", "setI 3 7", "setI 4 4"} : Emit(<<"fault " \o x>>)
Cap == kind = "cap" /\ Emit(<<"cap">>)
Done == kind = "none" /\ Len(hist) >= Depth /\ kind' = "done" /\ UNCHANGED <<hist, tree>>
Next == Pick \/ Rest \/ CCa \/ CVc \/ CCCV \/ Diag \/ SetI \/ Soc \/ Fault \/ Cap \/ Done
Spec == Init /\ [][Next]_vars
Show == kind = "done" => PrintT("SCHEDULE " \o ToJson(hist))
==========================================================================
