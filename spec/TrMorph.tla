------------------------------ MODULE TrMorph ------------------------------
(* Conformance of mor.updateMorphology.                                     *)
EXTENDS Tr, Morph
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l

Fields == {"y0", "y1", "y2", "y3", "y4", "z0", "z1", "z2", "z3", "rz", "e"}
SameState(a, b) == /\ \A f \in Fields : VEq(a[f], b[f])
                   /\ Eq(a.ew, b.ew) /\ Eq(a.ee, b.ee)
Differs(a, b) == {f \in Fields : ~VEq(a[f], b[f])} \cup (IF Eq(a.ew, b.ew) THEN {} ELSE {"ew"}) \cup (IF Eq(a.ee, b.ee) THEN {} ELSE {"ee"})
Lost(m) == AnyNaN(m.y0) \/ AnyNaN(m.y3) \/ AnyNaN(m.y4)

M(e) == e.s
Verdict(e) ==
  LET m == e.s  P == e.p
      a == TLCEval(Advance(m, e.i, P, e.t))
  IN [a |-> a, r |-> TLCEval(Resolve(m, a.m, e.i, P))]

\* what this event is for: its family decides the property its clauses belong to
Clause(e, v) ==
  LET raised == "exc" \in DOMAIN e
      lost == \E x \in v.r.m : Lost(x)
  IN [ state |-> IF raised THEN lost ELSE ~lost /\ \E x \in v.r.m : SameState(e.out.m, x),
       dt |-> raised \/ Near(e.out.dt, v.a.dt, 1/1000000000, 1/1000000),
       breach |-> raised \/ e.out.breach = v.r.breach,
       pure |-> raised \/ e.mut = << >> ]

ClausesOf(e, c) ==
  CASE e.fam = "rates" -> [sediment_rates_State |-> c.state, sediment_rates_Breach |-> c.breach, sediment_rates_Pure |-> c.pure]
    [] e.fam = "adapt" -> [adaptive_step_Length |-> c.dt, adaptive_step_Applied |-> c.state]
    [] e.fam = "mouth" -> [outlet_migration_State |-> c.state, outlet_migration_Breach |-> c.breach]
    [] e.fam = "conflict" -> [conflict_resolution_State |-> c.state, conflict_resolution_Breach |-> c.breach]
    [] e.fam = "breach" -> [barrier_breach_Happens |-> c.breach, barrier_breach_State |-> c.state]
    [] OTHER -> << >>       \* a step of a whole simulation: see About

\* a step that is not as specified, whatever it is for: what the difference is about
Conflicts == {"cliff", "filled", "holdfirst", "lagoonend", "seaend", "holdlast", "intolagoon", "intosea", "mend"}
About(e, v, c) ==
  LET raised == "exc" \in DOMAIN e
      d == IF raised THEN {} ELSE UNION {Differs(e.out.m, x) : x \in v.r.m}
      b == ~c.breach \/ (~c.state /\ v.r.breach)
      k == ~c.state /\ ~v.r.breach /\ v.r.tags \cap Conflicts # {}
      o == ~c.state /\ ~b /\ (d \cap {"e", "ew", "ee"} # {} \/ v.r.tags \cap {"extend", "edge"} # {})
  IN (IF c.dt THEN {} ELSE {"adaptive_step_Length"}) \cup (IF b THEN {"barrier_breach_Step"} ELSE {})
     \cup (IF k THEN {"conflict_resolution_Step"} ELSE {}) \cup (IF o THEN {"outlet_migration_Step"} ELSE {})
     \cup (IF c.state \/ b \/ k \/ o THEN {} ELSE {"sediment_rates_Step"})

Cover(e, v) == Tag(e, e.fam \o (IF e.i.closed THEN " closed " ELSE " open ") \o v.r.why \o (IF v.r.onchan THEN " on channel" ELSE ""))
               /\ \A t \in v.r.tags : Tag(e, t)


----------------------------------------------------------------------------
(* Histories: what every state on the way has to satisfy.                   *)
\* (a mouth driven against the cliff leaves no room for its channel, which is filled in the next step)
Squeezed(m, i) == m.y3[i] <= m.y4[i] + RT /\ m.y2[i] - m.y3[i] < 1/1000
Ordered(m) == \A i \in Dom(m.x) : IF IsNaN(m.y1[i]) THEN m.y0[i] > m.y3[i]
                            ELSE m.y0[i] > m.y1[i] /\ (m.y1[i] >= m.y2[i] - RT \/ Squeezed(m, i)) /\ m.y2[i] > m.y3[i]
Whole(m) == \A i \in Dom(m.x) : /\ IsNaN(m.y1[i]) = IsNaN(m.y2[i]) /\ IsNaN(m.y1[i]) = IsNaN(m.z1[i]) /\ IsNaN(m.y1[i]) = IsNaN(m.z2[i])
                                /\ IsFin(m.y0[i]) /\ IsFin(m.y3[i]) /\ IsFin(m.y4[i]) /\ IsFin(m.z0[i]) /\ IsFin(m.z3[i])
Inside(m) == IsNaN(m.e[1]) \/ (m.x[1] <= m.e[1] /\ m.e[1] <= m.x[Size(m.x)-2])
Crosses(m, closed) == closed \/ ((\A j \in 0..1 : IsFin(m.e[j])) /\ LET o == OutletIx(m.x, m.e) IN Size(o) > 0 /\ \A k \in Dom(o) : ~IsNaN(m.y1[o[k]]))
Mouth(m, P) == m.y3[X0(m)] - m.y4[X0(m)] >= P.MinOutletWidth
HistoryClauses(e) ==
  LET S == e.out.m  D == 1..Len(S) IN
  [ profile_order_Order |-> \A k \in D : Ordered(S[k]),
    profile_order_Whole |-> \A k \in D : Whole(S[k]),
    profile_order_MouthInside |-> \A k \in D : Inside(S[k]),
    profile_order_ChannelCrosses |-> \A k \in D : Crosses(S[k], e.out.closed[k-1]),
    profile_order_RiverMouth |-> \A k \in D : Mouth(S[k], e.p),
    profile_order_GoesOn |-> e.out.stop = "",
    adaptive_step_Bounds |-> \A k \in Dom(e.out.dt) : e.out.dt[k] >= e.t.lo - RT /\ e.out.dt[k] <= e.t.hi + RT ]
\* some of the steps (those in which something happened), held against the specification one by one
StepFails(e, k) ==
  LET x == e.out.steps[k]  y == [s |-> x.s, i |-> x.i, p |-> e.p, t |-> e.t, out |-> x.out, mut |-> << >>] IN
  IF ~MorphPre(y.s, y.i, y.p) THEN {}
  ELSE LET v == TLCEval(Verdict(y))  c == TLCEval(Clause(y, v)) IN About(y, v, c)
HistoryTags(e) ==
  /\ (Len(e.out.steps) = 0 \/ Tag(e, "history with steps judged"))
  /\ Tag(e, IF \E k \in Dom(e.out.breach) : e.out.breach[k] THEN "history with breach" ELSE "history")
  /\ (\E k \in Dom(e.out.closed) : e.out.closed[k]) => Tag(e, "history with closure")
  /\ (Len(e.out.m) > 0 /\ \E k \in 2..Len(e.out.m) : LET a == e.out.m[k-1] b == e.out.m[k] IN
        ~IsNaN(a.e[1]) /\ ~IsNaN(b.e[1]) /\ OutletIx(a.x, a.e) # OutletIx(b.x, b.e)) => Tag(e, "history with migration across transects")

----------------------------------------------------------------------------
(* Left and right are alike.                                                *)
Flip(g) == V([i \in Dom(g) |-> g[Size(g)-1-i]])
Neg(g) == V([i \in Dom(g) |-> 0 - g[i]])
Turn(f, n) == V([k \in Dom(f) |-> n-1-f[k]])
TR == 1/1000000
TEq(f, g) == VNear(f, g, TR, TR)
MirrorGeo(a, b) == /\ \A f \in {"y0", "y1", "y2", "y3", "y4", "z0", "z1", "z2", "z3"} : TEq(Flip(a[f]), b[f])
                   /\ TEq(Neg(a.e), b.e) /\ Near(a.ew, b.ew, TR, TR) /\ Near(a.ee, b.ee, TR, TR) /\ TEq(a.rz, b.rz)
MirrorClauses(e) ==
  LET a == e.out.a  b == e.out.b  n == Size(e.s.x) IN
  CASE e.what = "assemble" ->
       [ mirror_symmetry_Layout |-> a.closed = b.closed /\ TEq(Turn(a.on, n), b.on) /\ TEq(a.fl, b.fl) /\ (a.closed \/ TEq(Turn(a.oix, n), b.oix)),
         mirror_symmetry_Channel |-> \A f \in {"dx", "z", "b", "la", "ll", "h", "v"} : TEq(a[f], b[f]) ]
    [] e.what = "morph" ->
       [ mirror_symmetry_Morphology |-> a.breach = b.breach /\ (a.breach \/ MirrorGeo(a.m, b.m)), mirror_symmetry_Step |-> Near(a.dt, b.dt, TR, TR) ]
    [] e.what = "coast" ->
       [ mirror_symmetry_Waves |-> TEq(Neg(Flip(a.lst)), b.lst) /\ REq(a.runup, b.runup),
         mirror_symmetry_Overtopping |-> TEq(Flip(a.cst), b.cst) /\ TEq(Flip(a.ow), b.ow) ]

Judge(e) ==
  IF e.op = "history"
  THEN IF "exc" \in DOMAIN e THEN Report(e, {"profile_order_GoesOn"}, e.msg)
       ELSE Report(e, FalseIn(HistoryClauses(e)) \cup UNION {StepFails(e, k) : k \in 1..Len(e.out.steps)}, [stop |-> e.out.stop, n |-> Len(e.out.m)]) /\ HistoryTags(e)
  ELSE IF e.op = "mirror"
  THEN IF "exc" \in DOMAIN e THEN Report(e, {"mirror_symmetry_Completes"}, e.msg)
       ELSE IF e.out.a.ok # e.out.b.ok THEN Report(e, {"mirror_symmetry_Fails"}, << >>)
       ELSE IF ~e.out.a.ok THEN Tag(e, "neither side possible")
       ELSE Report(e, FalseIn(MirrorClauses(e)), << >>)
            /\ Tag(e, e.what \o (IF e.what # "coast" THEN (IF e.s.e[0] > 0 THEN " right" ELSE " left") \o (IF LToR(e.s.e) THEN " LtoR" ELSE " RtoL") ELSE ""))
  ELSE
  IF ~MorphPre(e.s, e.i, e.p) THEN Tag(e, "outside the domain")
  ELSE LET v == TLCEval(Verdict(e))  c == TLCEval(Clause(e, v)) IN
       /\ Report(e, FalseIn(ClausesOf(e, c)) \cup About(e, v, c), IF "exc" \in DOMAIN e THEN <<"exc">> ELSE [d |-> {Differs(e.out.m, x) : x \in v.r.m}, t |-> v.r.tags, w |-> v.r.why])
       /\ Cover(e, v)

Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ Judge(Trace[l+1])
Spec == Init /\ [][Next]_l
=============================================================================
