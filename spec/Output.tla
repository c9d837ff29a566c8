------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* Output files.  A file is a header and a sequence of records; records    *)
(* are only ever appended.  A file that exists is replaced only if that    *)
(* was asked for or confirmed.                                             *)
(***************************************************************************)
EXTENDS Arr
Yes == {"Y", "y", "Yes", "yes", "YES"}
Replaces(exists, overwrite, answer) == ~exists \/ overwrite \/ answer \in Yes
Asks(exists, overwrite) == exists /\ ~overwrite

Col(M, w, j) == V([i \in 0..((Size(M) \div w) - 1) |-> M[(w * i) + j]])
Add(f, g) == V([i \in Dom(f) |-> f[i] + g[i]])
Scale(f, c) == V([i \in Dom(f) |-> f[i] * c])
One(x) == Full(1, x)
Flag(b) == IF b THEN 1 ELSE 0

\* what a snapshot of the model is written down as
Snapshot(r) ==
  [ time |-> One(r.t), sea_level |-> One(r.sea), river_flow |-> One(r.flow), hs_offshore |-> One(r.hs), wave_dir |-> One(r.dir),
    shoreline_y |-> Col(r.Y, 5, 0), outlet_bank1_y |-> Col(r.Y, 5, 1), outlet_bank2_y |-> Col(r.Y, 5, 2), lagoon_y |-> Col(r.Y, 5, 3), cliff_y |-> Col(r.Y, 5, 4),
    barrier_crest_z |-> Col(r.Z, 4, 0), outlet_bed_z |-> Col(r.Z, 4, 1), inner_barrier_crest_z |-> Col(r.Z, 4, 2), lagoon_bed_z |-> Col(r.Z, 4, 3),
    lagoon_wl |-> r.lwl, lagoon_vel |-> r.lvl, lagoon_bedload |-> r.lbed,
    outlet_wl |-> Add(r.od, Col(r.Z, 4, 1)), outlet_vel |-> r.ov, outlet_bedload |-> r.obed,
    lst |-> Scale(r.lst, 3600), cst |-> Scale(r.cst, 3600), overwash_proportion |-> r.ow,
    river_bed_z |-> r.rz, river_wl |-> Add(r.rz, r.rd), river_vel |-> r.rv, river_bedload |-> r.rbed,
    outlet_end_x |-> r.e, outlet_end_width |-> One(r.ew), outlet_end_z |-> One(r.ee), outlet_end_wl |-> One(r.ee + r.oed[0]), outlet_end_vel |-> One(r.oev[0]),
    outlet_end_bedload |-> One(r.oebed), dummy_xs_dep |-> One(r.oed[1]), dummy_xs_vel |-> One(r.oev[1]), outlet_closed |-> One(Flag(r.closed)) ]
Series(r) ==
  [ time |-> One(r.t), sea_level |-> One(r.sea), river_flow |-> One(r.flow), hs_offshore |-> One(r.hs), wave_dir |-> One(r.dir),
    lagoon_level |-> One(r.wl), lagoon_outflow |-> One(r.outflow), sed_inflow |-> One(r.sedin), outlet_end_x |-> r.e, outlet_closed |-> One(Flag(r.closed)), mordt |-> One(r.dt) ]
Levels == {"sea_level", "hs_offshore", "shoreline_y", "outlet_bank1_y", "outlet_bank2_y", "lagoon_y", "cliff_y", "barrier_crest_z", "outlet_bed_z", "inner_barrier_crest_z",
           "lagoon_bed_z", "lagoon_wl", "outlet_wl", "river_bed_z", "river_wl", "outlet_end_x", "outlet_end_width", "outlet_end_z", "outlet_end_wl", "dummy_xs_dep", "lagoon_level",
           "transect_x", "shore_segment_x", "river_dist"}
Speeds == {"lagoon_vel", "outlet_vel", "river_vel", "outlet_end_vel", "dummy_xs_vel"}
Unit(v) == CASE v \in Levels -> "m" [] v \in Speeds -> "m/s" [] v \in {"river_flow", "lagoon_outflow"} -> "m3/s" [] v = "wave_dir" -> "radians"
             [] v \in {"lst", "cst"} -> "m3/hour" [] v = "mordt" -> "s" [] OTHER -> ""
\* what has to be in the header
Header(h) == [ transect_x |-> h.x, shore_segment_x |-> V([i \in 0..(Size(h.x)-2) |-> (h.x[i] + h.x[i+1]) / 2]),
               river_dist |-> V([i \in 0..(Size(h.rz)-1) |-> i * h.dx]) ]

\* the channel of an outlet from end e[0] to end e[1], the lagoon end first
ChannelIx(x, e, closed) == IF closed \/ IsNaN(e[0]) \/ IsNaN(e[1]) THEN << >>
  ELSE IF e[0] < e[1] THEN Asc({i \in Dom(x) : e[0] <= x[i] /\ x[i] <= e[1]})
  ELSE Rev(Asc({i \in Dom(x) : e[1] <= x[i] /\ x[i] <= e[0]}))
\* the state of the model in a record, as it is read back
ReadBack(rec, x) ==
  [ sea |-> rec.sea_level, flow |-> rec.river_flow, hs |-> rec.hs_offshore, dir |-> rec.wave_dir, x |-> x,
    y0 |-> rec.shoreline_y, y1 |-> rec.outlet_bank1_y, y2 |-> rec.outlet_bank2_y, y3 |-> rec.lagoon_y, y4 |-> rec.cliff_y,
    z0 |-> rec.barrier_crest_z, z1 |-> rec.outlet_bed_z, z2 |-> rec.inner_barrier_crest_z, z3 |-> rec.lagoon_bed_z,
    lwl |-> rec.lagoon_wl, lvl |-> rec.lagoon_vel, owl |-> rec.outlet_wl, ov |-> rec.outlet_vel, e |-> rec.outlet_end_x, ew |-> rec.outlet_end_width, ee |-> rec.outlet_end_z,
    oev |-> rec.outlet_end_vel, oewl |-> rec.outlet_end_wl, dd |-> rec.dummy_xs_dep, dv |-> rec.dummy_xs_vel, lst |-> Scale(rec.lst, 1/3600), cst |-> Scale(rec.cst, 1/3600),
    rz |-> rec.river_bed_z, rwl |-> rec.river_wl, rv |-> rec.river_vel, t |-> rec.time ]
\* the records nearest in time (to the millisecond)
Nearest(ts, t) == {k \in Dom(ts) : \A j \in Dom(ts) : RAbs(ts[k] - t) <= RAbs(ts[j] - t) + 1/1000}
=============================================================================
