------------------------------- MODULE TrLoad -------------------------------
(* Conformance of loadmod.py, geom.py and synth.py.                         *)
EXTENDS Tr, Load
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l
\* arrays of arrays come zero-based
Seqd(a) == [i \in 1..Size(a) |-> a[i-1]]
Words(o) == Range(o.words)
Secs(s) == IF s = SN THEN {SN, BC} ELSE IF s = HT THEN {HT, BC} ELSE {s}

\* ------------------------------------------------------------ configuration
\* values that validation lets pass but which no model can have
Degenerate(g, at) == LET n(s, k) == N(g, at, s, k) IN
  \/ REq(n(NP, "Dx"), 0) \/ REq(n(PP, "Gravity"), 0) \/ REq(n(PP, "RhoSea"), 0) \/ REq(n(PP, "GammaRatio"), 0) \/ REq(n(PP, "VoidRatio"), 1)
  \/ REq(n(PP, "RhoSed"), n(PP, "RhoSea")) \/ REq(n(PP, "TargetBarWidth"), n(PP, "SpitWidth"))
\* keys that are needed for what is asked for
Needed(e, at) == {<<SI, "ShorelineLengthLeft">>, <<SI, "ShorelineLengthRight">>, <<SI, "BeachWidth">>}
                 \cup (IF e.synth THEN {<<SN, "MeanDaysBetweenEvents">>, <<SN, "RisingLimbTime">>} ELSE {})
Lacks(e, at) == \E p \in Needed(e, at) : ~Is(e.given, at, p[1], p[2])
\* durations are kept to the microsecond
Fineness(s) == IF s \in {"Time", OO, SN, HT} THEN 2 / 1000000 ELSE 1 / 1000000000
SameValue(s, got, want) == got.form = want.form /\ (want.form # "num" \/ Near(got.v, want.v, 1/1000000000, Fineness(s))) /\ (want.form # "text" \/ got.text = want.text)
Default(e, s, k) == IF k = "OutFile" THEN e.stem \o "_outputs.nc" ELSE e.stem \o "_TSoutputs.nc"
WantValue(e, at, i) == LET v == Value(e.given, at, i) IN
  IF v.form = "none" /\ Table[i].k \in {"OutFile", "TsOutFile"} THEN [form |-> "text", v |-> 0, text |-> Default(e, Table[i].s, Table[i].k)] ELSE v
WrongValues(e, at) == {i \in Keys : \E j \in 1..Len(e.out.vals) : LET got == e.out.vals[j] IN
                         got.s = Table[i].s /\ got.k = Table[i].k /\ ~SameValue(got.s, got, WantValue(e, at, i))}
Unheard(e) == {i \in Keys : Table[i].s \in {PP, NP} /\ ~ \E j \in 1..Len(e.out.vals) : e.out.vals[j].s = Table[i].s /\ e.out.vals[j].k = Table[i].k}
Params(e, at) == [k \in {Table[i].k : i \in {j \in Keys : Table[j].s = PP}} |-> N(e.given, at, PP, k)]
ConfigClauses(e) ==
  LET at == TLCEval(Where(e.given))  bad == TLCEval(Bad(e.given, at))  o == e.out
      whole(s) == \A i \in Keys : Table[i].s = s /\ Table[i].d = Must => i \in bad
      good == bad = {} /\ ~Degenerate(e.given, at)
      loads == good /\ ~Lacks(e, at)
  IN [ config_validation_Refused |-> bad = {} \/ o.refused,
       config_validation_Named |-> bad = {} \/ ~o.refused \/ \E i \in bad : (Table[i].k \in Words(o) /\ (Table[i].s = "" \/ Secs(Table[i].s) \cap Words(o) # {})) \/ (whole(Table[i].s) /\ Table[i].s \in Words(o)),
       config_validation_Accepted |-> ~good \/ (~o.refused /\ o.ok = ~Lacks(e, at)),
       config_validation_Values |-> ~loads \/ ~o.ok \/ (WrongValues(e, at) = {} /\ Unheard(e) = {}),
       derived_inputs_Derived |-> ~loads \/ ~o.ok \/ LET P == Params(e, at)  d == o.derived IN
          Near(d.K2coef, LongshoreCoef(P), 1/1000000000, 0) /\ Near(d.BreakerCoef, BreakingCoef(P), 1/1000000000, 0)
          /\ Near(d.BarRatSlope, CrestSlope(P), 1/1000000000, 1/1000000000) /\ Near(d.BarRatInt, CrestAtZero(P), 1/1000000000, 1/1000000000) ]
PathClauses(e) == LET o == e.out IN
  [ config_validation_Paths |-> IF e.missing # "" THEN ~o.ok /\ o.kind = "FileNotFoundError" ELSE o.ok /\ o.series = TRUE /\ o.outs[0] = e.stem \o "_outputs.nc" /\ o.outs[1] = e.stem \o "_TSoutputs.nc" ]

\* ------------------------------------------------------------------- series
Kinds == {"flow", "waves", "sea"}
Word(k) == CASE k = "flow" -> "Flow" [] k = "waves" -> "Wave" [] OTHER -> "Sea"
SeriesClauses(e) ==
  LET o == e.out
      a == IF e.hot # "" /\ e.continue THEN e.from ELSE e.start
      own == {k \in Kinds : e[k].synth = FALSE}
      short == {k \in own : ~Covers(e[k].t, a, e.end)}
      late == e.flow.synth /\ e.flow.first > a
      same(k) == \A c \in DOMAIN e[k].cols : SameOver(e[k].t, e[k].cols[c], o.series[k].t, o.series[k].cols[c], a, e.end)
  IN [ series_coverage_Refused |-> short = {} \/ ~o.ok,
       series_coverage_Named |-> o.ok \/ ~(o.kind = "AssertionError") \/ (\E k \in short \cup (IF late THEN {"flow"} ELSE {}) : Word(k) \in Words(o)),
       series_coverage_Accepted |-> short # {} \/ late \/ o.ok,
       series_coverage_Same |-> ~o.ok \/ short # {} \/ \A k \in own : same(k),
       series_coverage_Covered |-> ~o.ok \/ short # {} \/ \A k \in Kinds : Covers(o.series[k].t, a, e.end),
       series_coverage_Start |-> ~o.ok \/ (Near(o.start, a, 0, 1/1000) /\ Near(o.end, e.end, 0, 1/1000)),
       derived_inputs_Direction |-> ~o.ok \/ \A i \in Dom(o.dirs.t) : \A j \in Dom(e.waves.t) : REq(o.dirs.t[i], e.waves.t[j]) => Turned(e.waves.dir[j], o.norm, o.dirs.v[i]) ]

\* ----------------------------------------------------------------- geometry
GT == 1/1000
Fields == {"x", "y0", "y1", "y2", "y3", "y4", "z0", "z1", "z2", "z3", "e"}
Off(got, want, tol) == {f \in Fields : ~VNear(got[f], want[f], 0, tol)} \cup (IF Near(got.ew, want.ew, 0, tol) THEN {} ELSE {"ew"}) \cup (IF Near(got.ee, want.ee, 0, tol) THEN {} ELSE {"ee"})
Still(o) == \A f \in {"rwl", "rv", "lwl", "lv", "od", "ov", "oed", "oev"} : \A i \in Dom(o.hyd[f]) : REq(o.hyd[f][i], 0)
Sizes(o) == Size(o.hyd.rwl) = Size(o.rz) /\ Size(o.hyd.rv) = Size(o.rz) /\ (\A f \in {"lwl", "lv", "od", "ov"} : Size(o.hyd[f]) = Size(o.g.x)) /\ Size(o.hyd.oed) = 2 /\ Size(o.hyd.oev) = 2
RiverRight(e) == VNear(e.out.rz, TLCEval(River(e.I, e.P, e.Dx)), 0, 1/1000000000)
StraightClauses(e) == LET o == e.out IN
  [ initial_geometry_Loads |-> o.ok,
    initial_geometry_Shore |-> ~o.ok \/ Off(o.g, TLCEval(Straight(e.S, e.I, e.P, e.Dx)), 1/1000000000) = {},
    initial_geometry_Frame |-> ~o.ok \/ (VNear(o.origin, Full(2, 0), 0, 0) /\ REq(o.norm, 0)),
    initial_geometry_River |-> ~o.ok \/ RiverRight(e),
    initial_geometry_Open |-> ~o.ok \/ (~o.closed /\ Still(o) /\ Sizes(o)) ]
ShapeClauses(e, want) == LET o == e.out  refuse == e.fault # "" \/ want.refused IN
  [ shapefile_geometry_Refused |-> ~refuse \/ ~o.ok,
    shapefile_geometry_Accepted |-> refuse \/ o.ok,
    shapefile_geometry_Frame |-> refuse \/ ~o.ok \/ (VNear(o.origin, want.o, 0, GT) /\ Near(Sin(o.norm), Sin(want.norm), 0, 1/1000000) /\ Near(Cos(o.norm), Cos(want.norm), 0, 1/1000000)),
    shapefile_geometry_Shore |-> refuse \/ ~o.ok \/ Off(o.g, want.g, 2 * GT) = {},
    shapefile_geometry_River |-> refuse \/ ~o.ok \/ RiverRight(e),
    shapefile_geometry_Open |-> refuse \/ ~o.ok \/ (~o.closed /\ Still(o) /\ Sizes(o)),
    derived_inputs_Direction |-> refuse \/ ~o.ok \/ \A i \in Dom(o.dirs.v) : Turned(e.dirs[i], o.norm, o.dirs.v[i]) ]

\* ---------------------------------------------------------- generated series
Step(t) == \A i \in 1..(Size(t)-2) : Near(t[i+1] - t[i], t[1] - t[0], 0, 1/1000000)
TideClauses(e) == LET o == e.out IN
  [ harmonic_tide_Covers |-> Size(o.t) > 0 /\ Covers(o.t, e.start, e.end) /\ REq(o.t[0], e.start),
    harmonic_tide_Regular |-> \A i \in Dom(o.t) : Near(o.t[i] - o.t[0], i * e.int, 0, 1/1000000),
    harmonic_tide_Level |-> \A i \in Dom(o.t) : Near(o.v[i], Tide(o.t[i] - e.start, e.mean, e.range), 1/10000000, 1/10000000) ]
\* days since the start
Bracket(e, b, vmin, vmax, slow) ==
  LET N0 == [m |-> e.m, rate |-> 1 / e.gap, p |-> e.p, k1 |-> e.k1, k2 |-> e.k2]
      int == e.int / 86400
      d0 == RMax(0, b - (IF e.rise < int THEN 0 ELSE e.rise + int))
      d1 == RMax(0, b + int) + (IF e.rise < int THEN 0 ELSE e.rise + int)
      inside == {k \in 1..Len(e.ev) : d0 < e.ev[k].at /\ e.ev[k].at <= d1}
      before(k) == Flow(e.ev, e.ev[k].at, N0) - e.ev[k].size
      rising(t) == SumOver({k \in 1..Len(e.ev) : t < e.ev[k].at /\ e.ev[k].at <= t + e.rise}, LAMBDA k : e.ev[k].size)
      tol == (1/1000000) * (1 + RAbs(vmax))
      \* events closer together than the rising limb is long: their limbs run into each other
      gap(k) == e.ev[k].at - (IF k = 1 THEN 0 ELSE e.ev[k-1].at)
      tangled == \E k \in 1..Len(e.ev) : gap(k) < e.rise /\ d0 - 2 * e.rise < e.ev[k].at /\ e.ev[k].at < d1 + 2 * e.rise
  IN tangled \/
     /\ (vmin >= Flow(e.ev, d1, N0) - tol \/ \E k \in inside : vmin >= before(k) - tol)
     /\ (vmax <= Flow(e.ev, d0, N0) + rising(d0) + tol \/ \E k \in inside : vmax <= Flow(e.ev, e.ev[k].at, N0) + rising(e.ev[k].at) + tol)
\* An event by itself: recession up to the start of its limb, a straight line up to the interval it peaks in.
Limb(e, o, k) ==
  LET N0 == [m |-> e.m, rate |-> 1 / e.gap, p |-> e.p, k1 |-> e.k1, k2 |-> e.k2]
      int == e.int / 86400
      d(i) == (o.t[0] - e.start) / 86400 + i * int            \* days since the start of interval i
      peak == e.ev[k].at
      at(t) == (t - d(0)) / int
      f0 == at(peak - e.rise)  f1 == at(peak)
      i0 == Floor(f0)  i1 == Floor(f1)
      edge(f) == RAbs(f - Floor(f + 1/2)) < 1/1000000
      F(t) == Flow(e.ev, t, N0)
      tol == (1/1000000) * (1 + F(peak))
      alone == peak - (IF k = 1 THEN 0 ELSE e.ev[k-1].at) > e.rise + 2 * int /\ (k = Len(e.ev) \/ e.ev[k+1].at - peak > e.rise + 2 * int)
  IN (~alone \/ i0 >= i1 \/ i1 >= Size(o.t) \/ edge(f0) \/ edge(f1)) \/
     /\ F(peak - e.rise) - tol <= o.v[i0] /\ o.v[i0] <= F(RMax(0, d(i0))) + tol
     /\ F(d(i1 + 1)) - tol <= o.v[i1] /\ o.v[i1] <= F(peak) + tol
     /\ \A i \in (i0+1)..(i1-1) : Near(o.v[i], o.v[i0] + ((o.v[i1] - o.v[i0]) * (i - i0)) / (i1 - i0), 1/1000000, 1/1000000)
     /\ Say("TAG", [id |-> e.id, tag |-> IF i1 > i0 + 1 THEN "shot: long limb" ELSE "shot: limb"])
ShotOk(e) == e.k1 > 0 /\ 0 <= e.p /\ e.p <= 1 /\ (e.p < 1 => e.has2 /\ e.k2 > 0) /\ e.rise > 0
ShotClauses(e) == LET o == e.out  ok == ShotOk(e) IN
  [ shot_noise_Refused |-> ok \/ ~o.ok,
    shot_noise_Accepted |-> ~ok \/ o.ok,
    shot_noise_Covers |-> ~ok \/ ~o.ok \/ (Size(o.t) > 0 /\ Covers(o.t, e.start, e.end)),
    shot_noise_Regular |-> ~ok \/ ~o.ok \/ \A i \in 1..(Size(o.t)-1) : Near(o.t[i] - o.t[i-1], e.int, 0, 1/1000000),
    shot_noise_Positive |-> ~ok \/ ~o.ok \/ \A i \in Dom(o.v) : IsFin(o.v[i]) /\ o.v[i] >= 0,
    shot_noise_Seed |-> ~ok \/ ~o.ok \/ (o.again /\ (o.other \/ ~ \E k \in 1..Len(e.ev) : e.ev[k].at < (Last(o.t) - e.start) / 86400)),
    shot_noise_Scale |-> ~ok \/ ~o.ok \/ VNear(V([i \in Dom(o.v) |-> 2 * o.v[i]]), o.twice, 1/1000000000, 1/1000000000),
    shot_noise_Limb |-> ~ok \/ ~o.ok \/ \A k \in 1..Len(e.ev) : Limb(e, o, k),
    shot_noise_Bracket |-> ~ok \/ ~o.ok \/ (e.rise >= e.gap \/ \A i \in Dom(o.v) : Bracket(e, (o.t[i] - e.start) / 86400, o.v[i], o.v[i], 0)) ]

\* -------------------------------------------------------------- coordinates
CoordClauses(e) == LET o == e.out IN
  [ coordinates_Model |-> \A k \in Dom(e.points) : VNear(o.mod[k], ToModel(e.origin, e.norm, e.points[k]), 0, 1/1000000),
    coordinates_Real |-> \A k \in Dom(e.points) : VNear(o.real[k], ToReal(e.origin, e.norm, e.points[k]), 0, 1/1000000),
    coordinates_There |-> \A k \in Dom(e.points) : VNear(o.back[k], e.points[k], 0, 1/1000000) ]
CrossClauses(e) == LET line == Seqd(e.line)  S == Passes(line, e.x) IN
  [ coordinates_Crossings |-> Size(e.out.y) = Cardinality(S) /\ \A i \in Dom(e.out.y) : Near(e.out.y[i], CrossY(line, Asc(S)[i], e.x), 1/1000000000, 1/1000000000) ]
TrimClauses(e) == LET L == Seqd(e.line)  want == Trimmed(L, e.t, e.a, e.b)  o == Seqd(e.out.line) IN
  [ coordinates_Trimmed |-> Len(o) = Len(L) /\ \A i \in {1, Len(L)} : VNear(o[i], want[i], 1/1000000000, 1/1000000000),
    coordinates_TrimKeeps |-> Len(o) = Len(L) /\ \A i \in 2..(Len(L)-1) : VNear(o[i], L[i], 0, 0) ]

Clauses(e, want) ==
  CASE e.op = "config" -> ConfigClauses(e) [] e.op = "paths" -> PathClauses(e) [] e.op = "series" -> SeriesClauses(e) [] e.op = "straight" -> StraightClauses(e)
    [] e.op = "shapes" -> ShapeClauses(e, want) [] e.op = "tide" -> TideClauses(e) [] e.op = "shot" -> ShotClauses(e) [] e.op = "coords" -> CoordClauses(e) [] e.op = "trim" -> TrimClauses(e) [] OTHER -> CrossClauses(e)
Slug(e) == CASE e.op \in {"config", "paths"} -> "config_validation_Completes" [] e.op = "series" -> "series_coverage_Completes" [] e.op = "straight" -> "initial_geometry_Completes"
             [] e.op = "shapes" -> "shapefile_geometry_Completes" [] e.op = "tide" -> "harmonic_tide_Completes" [] e.op = "shot" -> "shot_noise_Completes" [] OTHER -> "coordinates_Completes"
Info(e, want, f) == CASE e.op = "config" -> [bad |-> {Table[i].k : i \in Bad(e.given, Where(e.given))}, wrong |-> IF e.out.ok THEN {Table[i].k : i \in WrongValues(e, Where(e.given)) \cup Unheard(e)} ELSE {e.out.msg}]
   [] e.op = "straight" -> IF e.out.ok THEN Off(e.out.g, Straight(e.S, e.I, e.P, e.Dx), 1/1000000000) ELSE {e.out.msg}
   [] e.op = "shapes" -> IF e.out.ok THEN IF want.refused THEN {"not refused"} ELSE Off(e.out.g, want.g, 2 * GT) ELSE {e.out.msg}
   [] e.op = "series" -> e.out.msg [] OTHER -> e.op
Judge(e) ==
  IF "exc" \in DOMAIN e THEN Report(e, {Slug(e)}, e.msg)
  ELSE LET want == IF e.op = "shapes" THEN TLCEval(FromShapes([e.SH EXCEPT !.shore = Seqd(@), !.lagoon = Seqd(@), !.cliff = Seqd(@), !.outlet = Seqd(@)], e.I, e.P, e.Dx)) ELSE [tie |-> FALSE] IN
       IF want.tie THEN Tag(e, "shapes: in doubt")
       ELSE LET f == FalseIn(Clauses(e, want)) IN
            /\ Report(e, f, IF f = {} THEN 0 ELSE Info(e, want, f))
            /\ Tag(e, e.op \o (IF e.op \in {"config", "series", "shapes", "shot"} THEN (IF e.out.ok THEN ": loaded" ELSE ": refused") ELSE ""))
            /\ (e.op = "shapes" /\ e.fault = "" => Tag(e, IF want.refused THEN "shapes: to be refused" ELSE IF want.between THEN "shapes: outlet between transects" ELSE IF want.right THEN "shapes: to the right" ELSE "shapes: to the left"))
            /\ (e.op = "series" /\ e.hot # "" => Tag(e, "series: hot start"))
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l+1])
Spec == Init /\ [][Next]_l
=============================================================================
