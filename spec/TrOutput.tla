------------------------------ MODULE TrOutput -------------------------------
(* Conformance of out.py, of what core.main and the command line do to files *)
(* that exist, and of hot starts.  Files are compared by fingerprints of     *)
(* their header and of every record; new headers and records are compared    *)
(* in full, in single precision.                                             *)
EXTENDS Tr, Output
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l
FRT == 3/10000000
FAT == 1/1000000000
FNear(a, b) == Near(a, b, FRT, FAT)
FEq(f, g) == VNear(f, g, FRT, FAT)
\* fields of got that differ from want, or are missing
Differ(got, want) == {v \in DOMAIN want : IF v \notin DOMAIN got THEN TRUE ELSE IF v = "time" THEN ~VNear(got[v], want[v], 0, 1/100000) ELSE ~FEq(got[v], want[v])}
Same(a, b) == a.there = b.there /\ a.head = b.head /\ a.recs = b.recs
IsAppend(a, b) == b.there /\ b.head = a.head /\ Size(b.recs) = Size(a.recs) + 1 /\ \A i \in Dom(a.recs) : b.recs[i] = a.recs[i]
Stored == {"Kcoef", "RhoSed", "RhoSea", "RhoRiv", "VoidRatio", "Gravity", "GammaRatio", "WaveDataDepth", "ClosureDepth", "BeachSlope", "RiverSlope", "GrainSize", "CritShieldsStress",
  "UpstreamLength", "RiverWidth", "RoughnessManning", "WidthDepthRatio", "BackshoreElev", "MaxOutletElev", "OT_coef", "OT_exp", "BeachTopElev", "SpitWidth", "TargetBarHeight",
  "TargetBarWidth", "MinOutletWidth", "OutletSedSpreadDist", "OutletBankEroFac", "BarrierPermeability", "ShorelineErosionRate"}
Kept(kind, r) == IF kind = "full" THEN Snapshot(r) ELSE Series(r)
Units(u) == \A v \in DOMAIN u : Unit(v) = "" \/ u[v] = Unit(v)
HeaderFails(kind, h, want) ==
  (IF h.name = want.name THEN {} ELSE {"name"}) \cup (IF Units(h.units) THEN {} ELSE {"units"})
  \cup (IF kind = "ts" THEN {} ELSE Differ(h.coords, Header(want))
        \cup (IF FNear(h.attrs.ModelOriginX, want.origin[0]) /\ FNear(h.attrs.ModelOriginY, want.origin[1]) /\ FNear(h.attrs.ModelOrientation, (want.norm * 180) / Pi) THEN {} ELSE {"origin"})
        \cup {p \in Stored : p \notin DOMAIN h.attrs \/ ~FNear(h.attrs[p], want.phys[p])})

\* ------------------------------------------------- sequences of operations
Others(o, b, a) == \A f \in DOMAIN b : f = o.f \/ Same(b[f], a[f])
ReadFails(r, x) == LET want == TLCEval(ReadBack(r.rec, x)) IN
  Differ(r.got, want)
  \cup (IF r.closed = (r.rec.outlet_closed[0] # 0) THEN {} ELSE {"closed"})
  \cup (IF r.oix = ChannelIx(x, r.rec.outlet_end_x, r.closed) THEN {} ELSE {"channel"})
Step(e, k) ==
  LET o == e.ops[k]  b == IF k = 1 THEN e.out.first ELSE e.out.obs[k-1].files  r == e.out.obs[k]  a == r.files IN
  CASE o.op = "new" ->
         LET rep == Replaces(b[o.f].there, o.ow, o.ans) IN
         [ output_file_protection_Ask |-> r.asked = Flag(Asks(b[o.f].there, o.ow)),
           output_file_protection_Keep |-> rep \/ (r.raised # "" /\ Same(b[o.f], a[o.f])),
           output_file_protection_Replace |-> ~rep \/ (r.raised = "" /\ a[o.f].there /\ Size(a[o.f].recs) = 0),
           output_file_protection_Others |-> Others(o, b, a),
           snapshot_fidelity_Header |-> ~rep \/ r.raised # "" \/ HeaderFails(e.kinds[o.f], r.hdr, o.h) = {} ]
    [] o.op = "write" ->
         [ snapshot_fidelity_Written |-> r.raised = "",
           snapshot_fidelity_Record |-> r.raised # "" \/ Differ(r.rec, TLCEval(Kept(e.kinds[o.f], o.r))) = {},
           output_file_protection_Append |-> r.raised # "" \/ IsAppend(b[o.f], a[o.f]),
           output_file_protection_Others |-> Others(o, b, a) ]
    [] o.op = "read" ->
         [ snapshot_fidelity_Read |-> r.raised = "" /\ (e.kinds[o.f] = "ts" \/ \A j \in 1..Len(r.reads) : ReadFails(r.reads[j], r.x) = {}),
           hot_start_Nearest |-> r.raised # "" \/ e.kinds[o.f] = "ts" \/ \A j \in 1..Len(r.near) : r.near[j].n = 1 /\ r.near[j].ix \in Nearest(r.times, r.near[j].t)
                                                                        /\ RAbs(r.times[r.near[j].ix] - r.near[j].at) < 1/1000,
           output_file_protection_Others |-> \A f \in DOMAIN b : Same(b[f], a[f]) ]
    [] OTHER -> [ output_file_protection_Others |-> \A f \in DOMAIN b : Same(b[f], a[f]) ]
SeqFails(e) == UNION {FalseIn(Step(e, k)) : k \in 1..Len(e.ops)}
Why(e) == [k \in 1..Len(e.ops) |-> LET o == e.ops[k]  r == e.out.obs[k] IN
  CASE o.op = "new" -> IF "hdr" \in DOMAIN r THEN HeaderFails(e.kinds[o.f], r.hdr, o.h) ELSE {r.raised}
    [] o.op = "write" -> IF "rec" \in DOMAIN r THEN Differ(r.rec, Kept(e.kinds[o.f], o.r)) ELSE {r.raised}
    [] o.op = "read" -> IF "reads" \in DOMAIN r THEN UNION {ReadFails(r.reads[j], r.x) : j \in 1..Len(r.reads)} ELSE {r.raised}
    [] OTHER -> {}]

\* ------------------------------------- simulations and files that are there
\* answers are used in the order of the questions
MainClauses(e) ==
  LET o == e.out
      ask1 == Asks(e.pre.out # "", e.ow)
      rep1 == Replaces(e.pre.out # "", e.ow, e.answers[0])
      ask2 == rep1 /\ Asks(e.pre.ts # "", e.ow)
      rep2 == rep1 /\ Replaces(e.pre.ts # "", e.ow, IF ask1 THEN e.answers[1] ELSE e.answers[0])
      dies == e.end # "runs"
  IN [ output_file_protection_Ask |-> o.asked = -1 \/ o.asked = Flag(ask1) + Flag(ask2),
       output_file_protection_Keep |-> (rep1 \/ o.kept.out) /\ (rep2 \/ o.kept.ts),
       output_file_protection_Stop |-> (rep1 /\ rep2) \/ (o.failed /\ Len(o.wr) <= 1 /\ o.ts = << >>),
       output_file_protection_Replace |-> ~(rep1 /\ rep2) \/ (o.failed = dies /\ Len(o.recs) >= 1 /\ Len(o.tsrecs) >= 1 /\ ~o.kept.out /\ ~o.kept.ts),
       output_file_protection_Durable |-> ~(rep1 /\ rep2) \/ o.asked = -1 \/ (Len(o.recs) = Len(o.wr) /\ Len(o.tsrecs) = Len(o.ts)),
       snapshot_fidelity_Record |-> ~(rep1 /\ rep2) \/ ((\A k \in 1..Len(o.wr) : k > Len(o.recs) \/ Differ(o.recs[k], TLCEval(Snapshot(o.wr[k]))) = {})
                                                     /\ (\A k \in 1..Len(o.ts) : k > Len(o.tsrecs) \/ Differ(o.tsrecs[k], TLCEval(Series(o.ts[k]))) = {})) ]

\* ----------------------------------------------------------------- hot start
HotClauses(e) ==
  LET o == e.out  recs == o.recs  ts == V([k \in 0..(Len(recs)-1) |-> recs[k+1].time[0]])  ks == Nearest(ts, e.at)
      fits(k) == LET r == recs[k+1] IN
        /\ FEq(o.x, o.filex) /\ FEq(o.y0, r.shoreline_y) /\ FEq(o.y1, r.outlet_bank1_y) /\ FEq(o.y2, r.outlet_bank2_y) /\ FEq(o.y3, r.lagoon_y) /\ FEq(o.y4, r.cliff_y)
        /\ FEq(o.z0, r.barrier_crest_z) /\ FEq(o.z1, r.outlet_bed_z) /\ FEq(o.z2, r.inner_barrier_crest_z) /\ FEq(o.z3, r.lagoon_bed_z)
        /\ FEq(o.rz, r.river_bed_z) /\ FEq(o.rwl, r.river_wl) /\ FEq(o.rv, r.river_vel) /\ FEq(o.lwl, r.lagoon_wl) /\ FEq(o.lvl, r.lagoon_vel)
        /\ VNear(o.od, V([i \in Dom(o.od) |-> r.outlet_wl[i] - r.outlet_bed_z[i]]), FRT, 1/100000) /\ FEq(o.ov, r.outlet_vel)
        /\ FEq(o.e, r.outlet_end_x) /\ FNear(o.ew, r.outlet_end_width[0]) /\ FNear(o.ee, r.outlet_end_z[0])
        /\ Size(o.oed) = 2 /\ Near(o.oed[0], r.outlet_end_wl[0] - r.outlet_end_z[0], FRT, 1/100000) /\ FNear(o.oed[1], r.dummy_xs_dep[0])
        /\ Size(o.oev) = 2 /\ FNear(o.oev[0], r.outlet_end_vel[0]) /\ FNear(o.oev[1], r.dummy_xs_vel[0])
        /\ o.closed = (r.outlet_closed[0] # 0)
        /\ Near(o.start, IF e.continue THEN r.time[0] ELSE e.start, 0, 1/1000)
  IN [ hot_start_State |-> \E k \in ks : fits(k),
       hot_start_Frame |-> FEq(o.origin, e.h.origin) /\ FNear(o.norm, e.h.norm) ]
\* a simulation that goes on from a record of another one: what its first step starts from, and with
Close(f, g) == VNear(f, g, 1/100000, 1/100000)
GoOnClauses(e) ==
  LET a == e.out.a  b == e.out.b IN
  [ hot_start_Continues |-> /\ Near(a.t, b.t, 0, 1/1000) /\ Near(a.dt, b.dt, 0, 1/1000) /\ a.closed = b.closed
                            /\ \A v \in {"X", "Y", "Z", "rz", "e", "rd", "rv"} : Close(a[v], b[v])
                            /\ Near(a.ee, b.ee, 1/100000, 1/100000) /\ Near(a.ew, b.ew, 1/100000, 1/100000)
                            /\ a.oix = b.oix /\ a.on = b.on /\ Close(a.h, b.h) /\ Close(a.v, b.v),
    hot_start_Forcing |-> Close(a.q, b.q) /\ Close(a.ds, b.ds) /\ Close(a.w, b.w) ]
Clauses(e) == CASE e.op = "outseq" -> [none |-> TRUE] [] e.op \in {"outmain", "outcli"} -> MainClauses(e) [] e.op = "hotload" -> HotClauses(e) [] OTHER -> GoOnClauses(e)
Fails(e) == IF e.op = "outseq" THEN SeqFails(e) ELSE FalseIn(Clauses(e))
Slug(e) == CASE e.op = "outseq" -> {"snapshot_fidelity_Completes", "output_file_protection_Completes"} [] e.op \in {"outmain", "outcli"} -> {"output_file_protection_Completes"}
             [] OTHER -> {"hot_start_Completes"}
Judge(e) ==
  IF "exc" \in DOMAIN e THEN Report(e, Slug(e), e.msg)
  ELSE IF "skip" \in DOMAIN e.out THEN Tag(e, e.op \o ": " \o e.out.skip)
  ELSE LET f == Fails(e) IN
       /\ Report(e, f, IF f = {} THEN 0 ELSE IF e.op = "outseq" THEN Why(e) ELSE e.op)
       /\ Tag(e, e.op) /\ (e.op = "outmain" => Tag(e, "outmain: " \o e.end)) /\ (e.op = "hotload" /\ e.out.closed => Tag(e, "hot start closed"))
       /\ (e.op = "goon" => Tag(e, IF e.out.a.closed THEN "goon: closed" ELSE IF Size(e.out.a.oix) > 0 THEN "goon: outlet channel" ELSE "goon: no channel") /\ (e.out.breach => Tag(e, "goon: from a breach")) /\ (e.out.turned => Tag(e, "goon: from the end of a closure")))
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l+1])
Spec == Init /\ [][Next]_l
=============================================================================
