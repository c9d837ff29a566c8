-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* One step of a simulation: which stage works on what.                    *)
(*                                                                         *)
(* The state st carried from step to step:                                 *)
(*   t plan          time, planned step                                    *)
(*   Y Z e ew ee rz  landforms                                             *)
(*   rd rv sto       depth and velocity in the river; hydraulics stored at *)
(*                   the transects and the outlet end                      *)
(*   closed          status of the outlet                                  *)
(*   onext tnext     times the next records are due                        *)
(* A step r as it was recorded: a is what a stage was given, r what it gave*)
(***************************************************************************)
EXTENDS Clock
Stored == {"lwl", "lvl", "od", "ov", "oed", "oev"}
ChannelKeys == {"dx", "z", "b", "la", "ll"}
RTol == 1/1000000000
Same(a, b) == VNear(a, b, RTol, RTol)
Is(a, b) == Near(a, b, RTol, RTol)
Last1(s) == s[Len(s)]
NanMean(f) == LET S == {k \in Dom(f) : ~IsNaN(f[k])} IN SumOver(S, LAMBDA k : f[k]) / Cardinality(S)
\* levels of the lagoon bed (the last of four columns of Z)
Bed(Z) == V([i \in 0..((Size(Z) \div 4) - 1) |-> Z[(4 * i) + 3]])
Where(f, v) == {k \in Dom(f) : REq(f[k], v)}
River(h, fl) == Pick(h, Asc(Where(fl, 0)))
RiverReaches(q, fl) == Pick(q, Asc({k \in Dom(q) : REq(fl[k], 0)}))
Bdy(s, name, tt) == AtTimes(s.t, s[name], tt)
WavesAt(cfg, t) == [n \in {"power", "period", "length", "dir", "hs"} |-> Between(cfg.waves.t, cfg.waves[n], t)]

Geometry(st, a) == Same(a.Y, st.Y) /\ Same(a.Z, st.Z) /\ Same(a.e, st.e) /\ Is(a.ew, st.ew) /\ Is(a.ee, st.ee) /\ Same(a.rz, st.rz)

\* the hydraulics that come out of a step: unsteady, or else steady
Hyd(r) == IF r.uns.raised THEN (IF Len(r.std) > 0 THEN r.std[1].r ELSE r.uns.r) ELSE r.uns.r
Took(st, r, cfg) == Cut(r.mor.r.dt, st.t, cfg.end)
NewTime(st, r, cfg) == st.t + Took(st, r, cfg)

StepClauses(st, r, cfg) ==
  LET c == r.asm.r  hy == Hyd(r)  d == Cut(st.plan, st.t, cfg.end)
      tt == TLCEval(HydTimes(st.t, d, cfg.hyd))
      w == TLCEval(WavesAt(cfg, st.t))
      sea == Bdy(cfg.sea, "v", tt)  flow == Bdy(cfg.flow, "v", tt)
      t2 == NewTime(st, r, cfg)
      a == r.asm.a  m == r.mor.a
  IN [ step_dataflow_Channel |-> Geometry(st, a) /\ Same(a.rd, st.rd) /\ Same(a.rv, st.rv) /\ (\A k \in Stored : Same(a[k], st.sto[k])) /\ a.closed = st.closed /\ Is(a.dx, cfg.dx),
       step_dataflow_Hydraulics |-> LET u == r.uns.a IN (\A k \in ChannelKeys : Same(u[k], c[k])) /\ Same(u.h, c.h) /\ Same(u.v, c.v) /\ u.closed = c.closed,
       sim_clock_Boundaries |-> Is(r.uns.a.dt, cfg.hyd) /\ Same(r.uns.a.q, flow) /\ Same(r.uns.a.ds, sea),
       step_dataflow_Fallback |-> IF r.uns.raised
            THEN Len(r.std) = 1 /\ (LET s == r.std[1].a IN Same(s.dx, c.dx) /\ Same(s.z, c.z) /\ Same(s.b, c.b) /\ Is(s.n, cfg.n) /\ Is(s.q, Last(flow)) /\ Is(s.ds, Last(sea)))
            ELSE Len(r.std) = 0,
       step_dataflow_Stored |-> LET s == r.sto.a IN Same(s.h, hy.h) /\ Same(s.v, hy.v) /\ Same(s.on, c.on) /\ Same(s.oix, c.oix) /\ Same(s.fl, c.fl) /\ s.closed = c.closed /\ Same(s.z3, Bed(st.Z)),
       step_dataflow_Bedload |-> LET s == r.bed.a IN Same(s.z, c.z) /\ Same(s.b, c.b) /\ Same(s.h, hy.h) /\ Same(s.v, hy.v) /\ Same(s.dx, c.dx) /\ Is(s.psi, cfg.psi),
       step_dataflow_Waves |-> LET s == r.lst.a IN Same(s.Y, st.Y) /\ Is(s.dx, cfg.dx) /\ Is(s.power, w.power) /\ Is(s.period, w.period) /\ Is(s.length, w.length) /\ Is(s.dir, w.dir),
       step_dataflow_Runup |-> LET s == r.run.a IN Is(s.period, w.period) /\ Is(s.hs, w.hs) /\ Is(s.slope, cfg.slope),
       step_dataflow_Overtopping |-> LET s == r.ot.a IN Is(s.runup, r.run.r) /\ Is(s.sea, Last(sea)) /\ Same(s.Y, st.Y) /\ Same(s.Z, st.Z),
       step_dataflow_Morphology |-> Geometry(st, m) /\ Same(m.X, cfg.x) /\ Same(m.on, c.on) /\ Same(m.oix, c.oix) /\ Same(m.lwl, r.sto.r.lwl) /\ Same(m.od, r.sto.r.od)
            /\ Same(m.b, c.b) /\ Same(m.h, hy.h) /\ Same(m.dx, c.dx) /\ Same(m.fl, c.fl) /\ m.closed = c.closed
            /\ Same(m.lst, r.lst.r) /\ Same(m.qs, r.bed.r) /\ Same(m.cst, r.ot.r.cst) /\ Same(m.ow, r.ot.r.ow),
       sim_clock_Step |-> Is(m.dt, d) /\ t2 > st.t,
       output_schedule_Snapshots |-> IF Due(t2, st.onext) THEN Len(r.wr) = 1 /\ Is(r.wr[1].t, t2) ELSE Len(r.wr) = 0,
       output_schedule_Series |-> IF Due(t2, st.tnext) THEN Len(r.ts) = 1 /\ Is(r.ts[1].t, t2) ELSE Len(r.ts) = 0,
       output_schedule_Plots |-> r.plots = (IF cfg.plot > 0 /\ Due(t2, st.pnext) THEN 1 ELSE 0),
       step_dataflow_Snapshot |-> Len(r.wr) # 1 \/
            (LET o == r.wr[1]  g == r.mor.r  b == IF Len(r.stb) > 0 THEN Last1(r.stb) ELSE [a |-> << >>, r |-> << >>] IN
             Geometry([g EXCEPT !.dt = 0], o) /\ Is(o.sea, Last(sea)) /\ Is(o.flow, Last(flow)) /\ Is(o.hs, w.hs) /\ Is(o.dir, w.dir)
             /\ (\A k \in Stored : Same(o[k], r.sto.r[k])) /\ Len(r.stb) > 0 /\ Same(o.lbed, b.r.lag) /\ Same(o.obed, b.r.out) /\ Is(o.oebed, b.r.end)
             /\ Same(b.a.qs, r.bed.r) /\ b.a.n = Size(cfg.x) /\ Same(b.a.on, c.on) /\ Same(b.a.oix, c.oix) /\ Same(b.a.fl, c.fl) /\ b.a.closed = c.closed
             /\ Same(o.lst, r.lst.r) /\ Same(o.cst, r.ot.r.cst) /\ Same(o.ow, r.ot.r.ow)
             /\ Same(o.rd, River(hy.h, c.fl)) /\ Same(o.rv, River(hy.v, c.fl)) /\ Same(o.rbed, RiverReaches(r.bed.r, c.fl)) /\ o.closed = (c.closed /\ ~r.mor.r.breach)),
       step_dataflow_Series |-> Len(r.ts) # 1 \/
            (LET o == r.ts[1] IN Is(o.sea, Last(sea)) /\ Is(o.flow, Last(flow)) /\ Is(o.hs, w.hs) /\ Is(o.dir, w.dir) /\ Is(o.wl, NanMean(r.sto.r.lwl))
             /\ Is(o.outflow, Last(hy.h) * Last(hy.v) * Last(c.b)) /\ Is(o.sedin, r.bed.r[0]) /\ Same(o.e, r.mor.r.e) /\ o.closed = (c.closed /\ ~r.mor.r.breach) /\ Is(o.dt, Took(st, r, cfg))) ]

\* the start: a channel from the state the model is loaded with, steady flow in it unless it comes with its own,
\* and the first records
Loaded(cfg) == cfg.ini
Cold(ini) == \A k \in Dom(ini.lvl) : REq(ini.lvl[k], 0)
StartHyd(r, cfg) == IF Cold(Loaded(cfg)) /\ Len(r.std) > 0 THEN r.std[1].r ELSE r.asm.r
StartStored(r, cfg) == IF Cold(Loaded(cfg)) /\ Len(r.sto) > 0 THEN r.sto[1].r ELSE [k \in Stored |-> Loaded(cfg)[k]]
ZeroF(f) == \A k \in Dom(f) : REq(f[k], 0)
StartClauses(r, cfg) ==
  LET i == Loaded(cfg)  c == r.asm.r  a == r.asm.a  hy == StartHyd(r, cfg)  so == StartStored(r, cfg)
      w == TLCEval(WavesAt(cfg, 0))
      sea == Between(cfg.sea.t, cfg.sea.v, 0)  flow == Between(cfg.flow.t, cfg.flow.v, 0)
  IN [ step_dataflow_StartChannel |-> Geometry(i, a) /\ Same(a.rd, V([k \in Dom(i.rwl) |-> i.rwl[k] - i.rz[k]])) /\ Same(a.rv, i.rv) /\ (\A k \in Stored : Same(a[k], i[k])) /\ a.closed = i.closed,
       step_dataflow_StartFlow |-> IF Cold(i)
            THEN Len(r.std) = 1 /\ (LET s == r.std[1].a IN Same(s.dx, c.dx) /\ Same(s.z, c.z) /\ Same(s.b, c.b) /\ Is(s.n, cfg.n) /\ Is(s.q, flow) /\ Is(s.ds, sea))
                 /\ Len(r.sto) = 1 /\ (LET s == r.sto[1].a IN Same(s.h, hy.h) /\ Same(s.v, hy.v) /\ Same(s.on, c.on) /\ Same(s.oix, c.oix) /\ Same(s.fl, c.fl) /\ s.closed = c.closed /\ Same(s.z3, Bed(i.Z)))
            ELSE Len(r.std) = 0,
       output_schedule_Start |-> Len(r.wr) = 1 /\ Len(r.ts) = 1 /\ REq(r.wr[1].t, 0) /\ REq(r.ts[1].t, 0),
       step_dataflow_StartSnapshot |-> Len(r.wr) # 1 \/
            (LET o == r.wr[1] IN Geometry(i, o) /\ Is(o.sea, sea) /\ Is(o.flow, flow) /\ Is(o.hs, w.hs) /\ Is(o.dir, w.dir)
             /\ (\A k \in Stored : Same(o[k], so[k])) /\ ZeroF(o.lbed) /\ ZeroF(o.obed) /\ REq(o.oebed, 0) /\ ZeroF(o.lst) /\ ZeroF(o.cst) /\ ZeroF(o.ow) /\ ZeroF(o.rbed)
             /\ Same(o.rd, River(hy.h, c.fl)) /\ Same(o.rv, River(hy.v, c.fl)) /\ o.closed = c.closed),
       step_dataflow_StartSeries |-> Len(r.ts) # 1 \/
            (LET o == r.ts[1] IN Is(o.sea, sea) /\ Is(o.flow, flow) /\ Is(o.hs, w.hs) /\ Is(o.dir, w.dir) /\ Is(o.wl, NanMean(so.lwl))
             /\ Is(o.outflow, Last(hy.h) * Last(hy.v) * Last(c.b)) /\ REq(o.sedin, 0) /\ Same(o.e, i.e) /\ o.closed = c.closed /\ Is(o.dt, cfg.lo)) ]
Started(r, cfg) ==
  LET i == Loaded(cfg)  c == r.asm.r  hy == StartHyd(r, cfg) IN
  [ t |-> 0, plan |-> cfg.lo, Y |-> i.Y, Z |-> i.Z, e |-> i.e, ew |-> i.ew, ee |-> i.ee, rz |-> i.rz,
    rd |-> River(hy.h, c.fl), rv |-> River(hy.v, c.fl), sto |-> StartStored(r, cfg), closed |-> c.closed,
    onext |-> cfg.out, tnext |-> cfg.ts, pnext |-> cfg.plot ]

After(st, r, cfg) ==
  LET c == r.asm.r  hy == Hyd(r)  t2 == NewTime(st, r, cfg)  g == r.mor.r IN
  [ t |-> t2, plan |-> Took(st, r, cfg), Y |-> g.Y, Z |-> g.Z, e |-> g.e, ew |-> g.ew, ee |-> g.ee, rz |-> g.rz,
    rd |-> River(hy.h, c.fl), rv |-> River(hy.v, c.fl), sto |-> r.sto.r,
    closed |-> IF g.breach THEN FALSE ELSE c.closed,
    onext |-> IF Due(t2, st.onext) THEN st.onext + cfg.out ELSE st.onext,
    tnext |-> IF Due(t2, st.tnext) THEN st.tnext + cfg.ts ELSE st.tnext,
    pnext |-> IF Due(t2, st.pnext) THEN st.pnext + cfg.plot ELSE st.pnext ]
=============================================================================
