---------------------------- MODULE PackGen ----------------------------
(* Schedules of commands for a tree of storage units: the environment of PackMC/PackTrace. Run with TLC -simulate, every  *)
(* finished behaviour is printed as JSON and replayed on the implementation.                                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Classes          \* Classes: which kinds of trees
VARIABLES hist, tree, kind, nsaved, ncopy
vars == <<hist, tree, kind, nsaved, ncopy>>
(* kids: units which may be commanded directly without making an enclosing string inconsistent *)
Trees ==
  { [c |-> "cell", d |-> "b:2:0.5", t |-> {1}], [c |-> "cell", d |-> "b:16:0.97", t |-> {1}], [c |-> "cell", d |-> "e1:5:0.4", t |-> {1}],
    [c |-> "cell", d |-> "e2:16:0.6", t |-> {1}], [c |-> "cell", d |-> "e1p:3:0.1:0.004:0.01:0.02", t |-> {1}],
    [c |-> "cell", d |-> "e2p:8:0.8:0.003:0.01:0.005:0.02:0.001", t |-> {1}], [c |-> "cell", d |-> "b:10:0.03", t |-> {1}],
    [c |-> "spm", d |-> "k", t |-> {1}], [c |-> "spm", d |-> "k:0.9:1.2", t |-> {1}],
    [c |-> "spm", d |-> "s(k:1.05:0.9,k:0.95:1.1;rc=0.001,0.002)", t |-> {1}], [c |-> "spm", d |-> "p(k:1.05:0.9,k:0.95:1.1,k;rc=0.0001,0.0002,0.0003)", t |-> {1}],
    [c |-> "spm", d |-> "s(p(k,k:0.9),p(k:1.1,k);rc=0.0005,0.0005)", t |-> {1}],
    [c |-> "string", d |-> "s(b:2:0.5,b:3:0.55)", t |-> {1}], [c |-> "string", d |-> "s(b:10:0.9,e1:12:0.93,b:16:0.4,e2:9:0.2;rc=0.001,0.002,0.003,0.004)", t |-> {1}],
    [c |-> "string", d |-> "s(e1:10:0.05,b:11:0.06,b:12:0.07;rc=0.01,0,0.005)", t |-> {1}], [c |-> "string", d |-> "s(b:10:0.7)", t |-> {1}],
    [c |-> "string", d |-> "s(s(b:10:0.7,e1:11:0.5;rc=0.001,0.002),s(b:12:0.98,b:13:0.95,b:9:0.9);rc=0.003,0.004)", t |-> {1}],
    [c |-> "string", d |-> "s(b:10:0.5,b:10:0.5,b:10:0.5,b:10:0.5,b:10:0.5,b:10:0.95)", t |-> {1}],
    [c |-> "block", d |-> "p(b:16:0.5,b:16:0.5)", t |-> {1}], [c |-> "block", d |-> "p(b:16:0.5,e1:20:0.53,b:12:0.48;rc=0.001,0.002,0.0005)", t |-> {1}],
    [c |-> "block", d |-> "p(e1:20:0.95,b:16:0.96;rc=0.0002,0.0004)", t |-> {1}], [c |-> "block", d |-> "p(b:30:0.06,b:16:0.07,b:20:0.065,b:25:0.06;rc=0.0001,0.0002,0.0003,0.0004)", t |-> {1}],
    [c |-> "block", d |-> "p(b:16:0.7)", t |-> {1}], [c |-> "block", d |-> "p(p(b:16:0.5,b:20:0.51),p(b:16:0.52,b:16:0.5;rc=0.0005,0.0002);rc=0.0003,0.0002)", t |-> {1}],
    [c |-> "nested", d |-> "s(p(b:16:0.5,b:20:0.52;rc=0.001,0.001),p(b:16:0.9,e1:16:0.91);rc=0.002,0.001)", t |-> {1}],
    [c |-> "nested", d |-> "p(s(b:16:0.5,b:18:0.52),s(b:16:0.51,e1:16:0.51;rc=0.001,0.0005);rc=0.0005,0.0005)", t |-> {1}],
    [c |-> "nested", d |-> "s(p(b:16:0.9,b:17:0.9),b:16:0.95,s(b:20:0.5,p(b:16:0.4,b:16:0.42)))", t |-> {1}],
    [c |-> "nested", d |-> "s(p(b:40:0.04,b:36:0.05),p(b:40:0.06,b:50:0.05),b:70:0.5;rc=0.0001,0.0002,0.0001)", t |-> {1}],
    [c |-> "wide", d |-> "s(b:10:0.5,b:11:0.52,b:12:0.54,b:10:0.56,b:11:0.58,b:12:0.6,b:10:0.62,b:11:0.64,b:12:0.66,b:10:0.68,b:11:0.7,b:12:0.72,b:10:0.3,b:11:0.32,b:12:0.34,b:10:0.36,b:11:0.38,b:12:0.4)", t |-> {1}],
    [c |-> "wide", d |-> "p(b:16:0.5,b:16:0.501,b:18:0.502,b:18:0.503,b:16:0.504,b:16:0.505,b:18:0.506,b:18:0.507,b:16:0.5,b:16:0.501,b:18:0.502)", t |-> {1}],
    [c |-> "wide", d |-> "s(p(e1:16:0.5,b:17:0.5),b:30:0.4,b:31:0.4,b:32:0.4,b:33:0.4,b:34:0.4,b:35:0.4,b:36:0.4,s(b:30:0.5,b:31:0.5),e2:40:0.3)", t |-> {1}],
    [c |-> "battery", d |-> "B(s(b:16:0.5,b:20:0.9;rc=0.001,0.001;cool=cool);ns=2;np=3)", t |-> {1}],
    [c |-> "battery", d |-> "B(p(b:16:0.5,b:20:0.51;rc=0.0005,0.0002;cool=open);ns=3;np=2)", t |-> {1}],
    [c |-> "battery", d |-> "B(s(p(b:16:0.95,b:20:0.95),e1:40:0.9;cool=open);ns=4;np=1)", t |-> {1}] }
Pool == { x \in Trees : x.c \in Classes }
ToS(S) == S
I0 == {"0", "0.05", "-0.05", "0.4", "-0.4", "2", "-2", "7.5", "-7.5", "16", "-16", "30", "-30", "60", "-60", "150", "-150", "1000", "-1000"}
Lim == {"m", "M", "l", "L"}
Off == {"-30", "-12", "-9.9", "-1.5", "-0.1", "0.1", "1.5", "9.9", "12", "30"}
Dt == IF tree.c = "spm" THEN {"0.01", "0.5", "1", "2", "5"} ELSE {"0.01", "0.5", "1", "2", "5", "10", "60"}
Kst == {"1", "2", "3", "7", "20"}
Chk == {"0", "1"}
N == { ToString(x) : x \in tree.t }
Kinds == CASE tree.c = "cell" -> {"setI", "aim", "step", "step", "setV", "setSOC", "save", "load", "loadx", "copy", "setT", "far"}
           [] tree.c = "spm" -> {"setI", "aim", "step", "setV", "save", "load", "loadx", "copy", "setT", "steal", "block"}
           [] tree.c \in {"string", "nested"} -> {"setI", "aim", "step", "save", "load", "loadx", "copy", "steal", "setV"}
           [] OTHER -> {"setI", "aim", "step", "save", "load", "loadx", "copy", "steal", "setV"}
Init == \E x \in Pool : tree = x /\ hist = <<"build " \o x.d>> /\ kind = "none" /\ nsaved = 0 /\ ncopy = 0
Pick == kind = "none" /\ Len(hist) < Depth /\ kind' \in Kinds /\ UNCHANGED <<hist, tree, nsaved, ncopy>>
Emit(c) == hist' = hist \o c /\ kind' = "none" /\ UNCHANGED tree
SetI == kind = "setI" /\ \E n \in N, i \in I0, c \in Chk : Emit(<<"setI " \o n \o " " \o i \o " " \o c>>) /\ UNCHANGED <<nsaved, ncopy>>
Aim == kind = "aim" /\ \E n \in N, t \in Lim, o \in Off, c \in {"1", "1", "0"} : Emit(<<"aimI " \o n \o " " \o t \o " " \o o \o " " \o c>>) /\ UNCHANGED <<nsaved, ncopy>>
Step == kind = "step" /\ \E n \in N, d \in Dt, k \in Kst : Emit(<<"step " \o n \o " " \o d \o " " \o k>>) /\ UNCHANGED <<nsaved, ncopy>>
Far == kind = "far" /\ \E n \in N, d \in {"-1", "-0.001", "0", "300"}, k \in {"0", "1", "2"} : Emit(<<"step " \o n \o " " \o d \o " " \o k>>) /\ UNCHANGED <<nsaved, ncopy>>
SetV == kind = "setV" /\ \E n \in N, o \in {"-150", "-40", "-7", "0", "7", "40", "150", "900", "-1300"}, c \in Chk : Emit(<<"aimV " \o n \o " " \o o \o " " \o c>>) /\ UNCHANGED <<nsaved, ncopy>>
SetSOC == kind = "setSOC" /\ \E n \in N, x \in {"0", "0.001", "0.1", "0.33", "0.5", "0.9", "0.999", "1", "-0.2", "1.2", "1.0001"}, c \in Chk : Emit(<<"setSOC " \o n \o " " \o x \o " " \o c>>) /\ UNCHANGED <<nsaved, ncopy>>
SetT == kind = "setT" /\ \E n \in N, x \in {"278.15", "288", "298.15", "310.5", "330"} : Emit(<<"setT " \o n \o " " \o x>>) /\ UNCHANGED <<nsaved, ncopy>>
Save == kind = "save" /\ \E n \in N, s \in {"1", "2"} : Emit(<<"save " \o n \o " " \o s>>) /\ nsaved' = nsaved + 1 /\ UNCHANGED ncopy
Load == kind = "load" /\ \E n \in N, s \in {"1", "2"}, c \in Chk : Emit(<<"load " \o n \o " " \o s \o " " \o c>>) /\ UNCHANGED <<nsaved, ncopy>>
(* one entry of the saved vector overwritten: temperature, charge, current of a cell, possible and impossible values *)
Entry == IF tree.c = "spm" THEN {<<"2", "100">>, <<"2", "400">>, <<"2", "300">>, <<"3", "-1">>, <<"4", "-1">>, <<"14", "-1">>, <<"11", "-1">>, <<"7", "0.9">>}
         ELSE {<<"0", "250">>, <<"0", "340">>, <<"0", "300">>, <<"0", "273.15">>, <<"1", "-0.5">>, <<"1", "1.5">>, <<"1", "0.3">>, <<"1", "0">>, <<"1", "1">>, <<"1", "0.99">>} \cup (IF tree.c = "cell" THEN {<<"2", "5">>, <<"2", "-300">>, <<"2", "300">>, <<"3", "2">>} ELSE {})
Leaf == IF tree.c = "cell" THEN {"0"} ELSE {"0", "1", "2", "5"}
Loadx == kind = "loadx" /\ \E n \in N, s \in {"1", "2"}, c \in Chk, x \in Entry, lf \in Leaf : Emit(<<"loadx " \o n \o " " \o s \o " " \o c \o " " \o lf \o "." \o x[1] \o " " \o x[2]>>) /\ UNCHANGED <<nsaved, ncopy>>
Copy == kind = "copy" /\ \E u \in {"use 0", "use 1", "use 2", "nop", "drop 0", "drop 1"}, s \in {"copy 1", "copy 2"} : Emit(IF ncopy = 0 THEN <<s, u>> ELSE <<u, s, "nop">>) /\ ncopy' = ncopy + 1 /\ UNCHANGED nsaved
Steal == kind = "steal" /\ \E n \in N : Emit(<<"steal " \o n>>) /\ UNCHANGED <<nsaved, ncopy>>
Block == kind = "block" /\ \E x \in {"0", "1"} : Emit(<<"block " \o x>>) /\ UNCHANGED <<nsaved, ncopy>>
Next0 == Pick \/ SetI \/ Aim \/ Step \/ Far \/ SetV \/ SetSOC \/ SetT \/ Save \/ Load \/ Loadx \/ Copy \/ Steal \/ Block 
Done == kind = "none" /\ Len(hist) >= Depth /\ kind' = "done" /\ UNCHANGED <<hist, tree, nsaved, ncopy>>
Next == Next0 \/ Done
Spec == Init /\ [][Next]_vars
Show == kind = "done" => PrintT("SCHEDULE " \o ToJson(hist))
==========================================================================
