---------------------------- MODULE PackTrace ----------------------------
(* Is a recorded execution of the implementation a behaviour of the pack? One recorded event per command; the next       *)
(* snapshot must be one the command may lead to (Pack.tla). Several trees (copies of each other) may exist side by side.   *)
EXTENDS Pack, Json
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l,       \* events consumed
          cfg,     \* per unit: what the description of the tree asked for
          last,    \* tree -> event with its latest snapshot
          fp,      \* tree -> fingerprint of its latest snapshot
          bal,     \* tree -> parallel blocks whose currents have been equalised
          dead     \* the execution left what the specification describes (solver gave up with an exception)
vars == <<l, cfg, last, fp, bal, dead>>
FpOf(e) == [ x \in { e.all[i].s : i \in 1 .. Len(e.all) } |-> (CHOOSE i \in 1 .. Len(e.all) : e.all[i].s = x) ]
FpSet(e) == LET F == FpOf(e) IN [ x \in DOMAIN F |-> e.all[F[x]].h ]

Build(e) ==
  /\ cfg' = e.cfg /\ dead' = FALSE
  /\ last' = [x \in {0} |-> l + 1] /\ fp' = FpSet(e) /\ bal' = [x \in {0} |-> {}]
  /\ P("P15", "size of the tree", Len(e.sn) = Len(e.cfg))
  /\ StateOk(e.sn, e.cfg, {})
  /\ \A n \in Nodes(e.sn) : P("P15", "children", Len(e.cfg[n].rc) > 0 => Len(e.sn[n].ch) = Len(e.cfg[n].rc))

Command(e) ==
  LET now == e.slotno
      s == Trace[last[now]].sn  t == e.sn  b == Balanced(e, s, bal[now])  f == FpSet(e) IN
  /\ P("P15", "fixed attributes", Fixed(s, t))
  /\ Len(s) = Len(t)
  /\ P("P15", "other trees untouched", \A x \in DOMAIN fp : x # now /\ ~(e.op \in {"copy", "drop"} /\ x = e.slot) => (x \in DOMAIN f /\ f[x] = fp[x]))
  /\ dead' = ((e.op = "step" /\ e.x >= 0 /\ e.exc # 0) \/ (e.op = "load" /\ Bad(e.st) /\ \E m \in Nodes(s) : IsCell(s[m]) /\ ~Valid(s[m])))
  /\ IF dead' THEN /\ e.op = "step" => P("P11", "the solver gives up where it should not", e.exc = 1 /\ (IF e.excv = 100000 THEN ~SolverRegion(s, e.n, e.x * e.k) ELSE e.excv = 101 /\ ~SpmRegion(s, e.n, e.x, e.x * e.k)))
                   /\ UNCHANGED <<last, fp, bal>>
     ELSE
      /\ StateOk(t, cfg, b)
      /\ CASE e.op = "copy" -> P("P15", "copying changes nothing", AllSame(s, t) /\ e.exc = 0) /\ P("P15", "the copy is equal", e.slot \in DOMAIN f /\ f[e.slot] = f[now])
           [] e.op = "use" -> P("P15", "a tree is what it was", AllSame(s, t) /\ f[now] = fp[now])
           [] e.op = "drop" -> P("P15", "destroying another tree changes nothing", AllSame(s, t))
           [] OTHER -> Legal(e, s, t, cfg, bal[now])
      /\ last' = IF e.op = "copy" THEN [x \in DOMAIN last \cup {e.slot} |-> IF x \in {e.slot, now} THEN l + 1 ELSE last[x]]
                 ELSE [last EXCEPT ![now] = l + 1]
      /\ bal' = IF e.op = "copy" THEN [x \in DOMAIN bal \cup {e.slot} |-> IF x = e.slot THEN b ELSE bal[x]] ELSE [bal EXCEPT ![now] = b]
      /\ fp' = f
  /\ UNCHANGED cfg

Init == l = 0 /\ cfg = <<>> /\ last = <<>> /\ fp = <<>> /\ bal = <<>> /\ dead = TRUE
Next ==
  /\ l < Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l + 1] IN
     IF e.op = "build" THEN Build(e)
     ELSE IF dead THEN UNCHANGED <<cfg, last, fp, bal, dead>>
     ELSE /\ Command(e)
          /\ "h1" \in DOMAIN e => P("P16", "threads change nothing", e.tst = e.st /\ e.texc = e.exc /\ (e.h1 = e.h2 \/ dead'))
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
