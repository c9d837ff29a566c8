-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* From a configuration file, series and shapefiles to the model: what is  *)
(* accepted, what it means, the coordinates, the first state, the forcing  *)
(* and the generated series.                                               *)
(***************************************************************************)
EXTENDS Arr
Ceil(a) == -Floor(-a)

----------------------------------------------------------------------------
(* Keys of the configuration: section, key, kind, least and greatest value *)
(* and what is taken if it is not there (each none or one).                *)
K(s, k, kind, lo, hi, d) == [s |-> s, k |-> k, kind |-> kind, lo |-> lo, hi |-> hi, d |-> d]
Free == << >>
Must == << >>
Opt == << "none", 0 >>
Str(s, k, d) == K(s, k, "string", Free, Free, d)
Num(s, k, lo, hi, d) == K(s, k, "float", lo, hi, d)
Pos(s, k, d) == Num(s, k, << 0 >>, Free, d)
SN == "ShotnoiseHydrographParameters"
HT == "HarmonicTideParameters"
BC == "BoundaryConditions"
IC == "InitialConditions"
SI == "SpatialInputs"
PP == "PhysicalParameters"
NP == "NumericalParameters"
OO == "OutputOptions"
Table == <<
  Str("", "ModelName", Must), Str(BC, "RiverFlow", Must), Str(BC, "WaveConditions", Must), Str(BC, "SeaLevel", Must),
  Pos(SN, "MeanDaysBetweenEvents", Opt), Pos(SN, "MeanEventIncrease", Opt), Pos(SN, "FastDecayRate", Opt), Pos(SN, "SlowDecayRate", Opt),
  Num(SN, "FastFlowProp", << 0 >>, << 1 >>, Opt), Pos(SN, "RisingLimbTime", Opt), Pos(SN, "HydrographDt", << 60 >>),
  K(SN, "RandomSeed", "integer", Free, Free, Opt), Str(SN, "HydrographStart", Opt),
  Num(HT, "MeanSeaLevel", Free, Free, << 0 >>), Num(HT, "TidalRange", Free, Free, Opt), Pos(HT, "SeaLevelDt", << 60 >>),
  Str("HotStart", "InitialConditionsNetCDF", Opt), Str("HotStart", "HotStartTime", Opt), K("HotStart", "ContinueSimulation", "boolean", Free, Free, << FALSE >>),
  Str(SI, "Shoreline", Opt), Str(SI, "RiverLocation", Opt), Str(SI, "BarrierBackshore", Opt), Str(SI, "CliffToe", Opt), Str(SI, "OutletLocation", Opt),
  Pos(SI, "ShorelineLengthLeft", Opt), Pos(SI, "ShorelineLengthRight", Opt), Pos(SI, "BeachWidth", Opt),
  Pos(IC, "OutletWidth", Must), Num(IC, "OutletBed", Free, Free, Must), Num(IC, "LagoonBed", Free, Free, Must), Num(IC, "BarrierElev", Free, Free, Must),
  Str("Time", "StartTime", Must), Str("Time", "EndTime", Must), Pos("Time", "HydDt", Must), Pos("Time", "MorDtMin", Must), Pos("Time", "MorDtMax", Must),
  Pos(PP, "Kcoef", Must), Pos(PP, "RhoSed", << 2650 >>), Pos(PP, "RhoSea", << 1025 >>), Pos(PP, "RhoRiv", << 1000 >>),
  Num(PP, "VoidRatio", << 0 >>, << 1 >>, << 3/10 >>), Pos(PP, "Gravity", << 981/100 >>), Pos(PP, "GammaRatio", << 5/10 >>), Pos(PP, "WaveDataDepth", Must),
  Pos(PP, "ClosureDepth", Must), Pos(PP, "BeachSlope", Must), Num(PP, "RiverSlope", << 0 >>, << 1 >>, Must), Num(PP, "GrainSize", << 0 >>, << 1 >>, Must),
  Num(PP, "CritShieldsStress", << 0 >>, << 1/10 >>, << 495/10000 >>), Pos(PP, "MPM_coef", << 397/100 >>), Pos(PP, "MPM_exp", << 15/10 >>),
  Pos(PP, "UpstreamLength", Must), Pos(PP, "RiverWidth", Must), Num(PP, "RoughnessManning", << 0 >>, << 3/10 >>, Must), Num(PP, "GrainRoughness", << 0 >>, << 3/10 >>, Must),
  Num(PP, "WidthDepthRatio", << 1 >>, Free, Must), Pos(PP, "BackshoreElev", Must), Num(PP, "MaxOutletElev", Free, Free, Must), Pos(PP, "OT_coef", << 2/10000 >>),
  Num(PP, "OT_exp", << 1 >>, Free, << 2 >>), Pos(PP, "BeachTopElev", Must), Pos(PP, "SpitWidth", Must), Pos(PP, "TargetBarHeight", Must), Pos(PP, "TargetBarWidth", Must),
  Pos(PP, "MinOutletWidth", Must), Pos(PP, "OutletSedSpreadDist", << 100 >>), Num(PP, "OutletBankEroFac", << 0 >>, << 1 >>, << 0 >>), Pos(PP, "BarrierPermeability", << 0 >>),
  Num(PP, "ShorelineErosionRate", Free, Free, << 0 >>),
  Pos(NP, "Dx", Must), Pos(NP, "Beta", << 105/100 >>), Num(NP, "Theta", << 0 >>, << 1 >>, << 7/10 >>), Num(NP, "Psi", << 0 >>, << 1/2 >>, << 4/10 >>),
  Pos(NP, "ErrTol", << 1/1000 >>), K(NP, "MaxIt", "integer", << 1 >>, Free, << 30 >>), Pos(NP, "WarnTol", << 1/10 >>), Pos(NP, "MaxMorChange", << 5/100 >>),
  Str(OO, "OutFile", Opt), Str(OO, "TsOutFile", Opt), Pos(OO, "OutInt", Must), Pos(OO, "TsOutInt", Must), Pos(OO, "LogInt", Must), Pos(OO, "PlotInt", << 0 >>) >>
Keys == 1..Len(Table)
\* a text in the file, by what it can be read as: "int", "real", "word", "bool" (a word for a truth value) or "list" (with a comma)
Within(key, v) == (key.lo = Free \/ v >= key.lo[1]) /\ (key.hi = Free \/ v <= key.hi[1])
Reads(key, g) ==
  CASE key.kind = "string"  -> g.form # "list"
    [] key.kind = "float"   -> g.form \in {"int", "real"} /\ Within(key, g.v)
    [] key.kind = "integer" -> g.form = "int" /\ Within(key, g.v)
    [] key.kind = "boolean" -> g.form = "bool" \/ (g.form = "int" /\ (REq(g.v, 0) \/ REq(g.v, 1)))
\* Given: which entry of the file (a sequence of [s, k, form, v, text]) is for a key; 0 if none
At(given, i) == LET S == {j \in 1..Len(given) : given[j].s = Table[i].s /\ given[j].k = Table[i].k} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
Where(given) == [i \in Keys |-> At(given, i)]
Bad(given, at) == {i \in Keys : IF at[i] = 0 THEN Table[i].d = Must ELSE ~Reads(Table[i], given[at[i]])}
\* what a key stands for: a number, a text, or nothing
Value(given, at, i) ==
  IF at[i] # 0 THEN [form |-> IF Table[i].kind \in {"float", "integer"} THEN "num" ELSE "text", v |-> given[at[i]].v, text |-> given[at[i]].text]
  ELSE IF Table[i].kind \in {"float", "integer"} /\ Table[i].d # Opt THEN [form |-> "num", v |-> Table[i].d[1], text |-> ""]
  ELSE [form |-> "none", v |-> 0, text |-> ""]
Ix(s, k) == CHOOSE i \in Keys : Table[i].s = s /\ Table[i].k = k
N(given, at, s, k) == Value(given, at, Ix(s, k)).v
Is(given, at, s, k) == Value(given, at, Ix(s, k)).form # "none"

\* derived parameters
LongshoreCoef(P) == P.Kcoef / ((P.RhoSed - P.RhoSea) * P.Gravity * (1 - P.VoidRatio))
BreakingCoef(P) == 8 / (P.RhoSea * (P.Gravity * Sqrt(P.Gravity)) * (P.GammaRatio * P.GammaRatio))
\* crest height against width: through (SpitWidth, BeachTopElev) and (TargetBarWidth, TargetBarHeight)
CrestSlope(P) == (P.TargetBarHeight - P.BeachTopElev) / (P.TargetBarWidth - P.SpitWidth)
CrestAtZero(P) == P.BeachTopElev - CrestSlope(P) * P.SpitWidth

----------------------------------------------------------------------------
(* Series: over the simulation the same as the file, which has to cover it. *)
Covers(t, a, b) == t[0] <= a /\ t[Size(t)-1] >= b
Probes(t, a, b) == LET T == {t[i] / 1 : i \in Dom(t)} \cup {a / 1, b / 1} IN
  {x \in T \cup {(x1 + b) / 2 : x1 \in T} \cup {(x1 + a) / 2 : x1 \in T} : a <= x /\ x <= b}
SameOver(t, v, t2, v2, a, b) == \A x \in Probes(t, a, b) : Near(Interp(x, t, v), Interp(x, t2, v2), 1/1000000000, 1/1000000000)

(* Wave direction: bearing the energy comes from, relative to the normal of *)
(* the shore, in [-Pi, Pi).                                                 *)
Turned(bearing, norm, got) ==
  LET w == (bearing * Pi) / 180 - norm IN
  /\ -Pi <= got /\ got < Pi
  /\ Near(Sin(w), Sin(got), 0, 1/100000000) /\ Near(Cos(w), Cos(got), 0, 1/100000000)

----------------------------------------------------------------------------
(* A straight shore.                                                       *)
Straight(S, I, P, Dx) ==
  LET a == Floor((-S.ShorelineLengthLeft) / Dx)
      b == Ceil(S.ShorelineLengthRight / Dx)
      n == b - a + 1
      at0(f, g) == V([i \in 0..(n-1) |-> IF i = -a THEN f ELSE g])
      y1 == -P.SpitWidth  y2 == y1 - I.OutletWidth
  IN [ x |-> V([i \in 0..(n-1) |-> (a + i) * Dx]),
       y0 |-> Full(n, 0), y1 |-> at0(y1, NaN), y2 |-> at0(y2, NaN), y3 |-> at0(y2 - (1/1000), -S.BeachWidth), y4 |-> at0(y2 - P.RiverWidth, -S.BeachWidth),
       z0 |-> Full(n, I.BarrierElev), z1 |-> at0((I.OutletBed + I.LagoonBed) / 2, NaN), z2 |-> at0(I.BarrierElev, NaN), z3 |-> Full(n, I.LagoonBed),
       e |-> Full(2, 0), ew |-> I.OutletWidth, ee |-> I.OutletBed ]
\* bed of the river: from the lagoon upwards over the length of it, upstream end first
River(I, P, Dx) == LET n == Ceil(P.UpstreamLength / Dx) IN V([i \in 0..(n-1) |-> I.LagoonBed + (P.RiverSlope * Dx) * (n - 1 - i)])

----------------------------------------------------------------------------
(* Coordinates: x along the shore (to the right looking out to sea), y out  *)
(* to sea.                                                                  *)
ToModel(o, norm, p) == LET dx == p[0] - o[0]  dy == p[1] - o[1] IN V([i \in 0..1 |-> IF i = 0 THEN dx * Cos(norm) - dy * Sin(norm) ELSE dx * Sin(norm) + dy * Cos(norm)])
ToReal(o, norm, p) == V([i \in 0..1 |-> IF i = 0 THEN o[0] + p[0] * Cos(norm) + p[1] * Sin(norm) ELSE o[1] - p[0] * Sin(norm) + p[1] * Cos(norm)])
\* all y where a polyline passes x, in its order (L: sequence of points)
Passes(L, x) == {j \in 1..(Len(L)-1) : (L[j][0] < x) # (L[j+1][0] < x)}
CrossY(L, j, x) == L[j][1] + ((x - L[j][0]) * (L[j+1][1] - L[j][1])) / (L[j+1][0] - L[j][0])
Highest(L, x) == LET S == Passes(L, x) IN IF S = {} THEN NaN ELSE LET j == CHOOSE j \in S : \A i \in S : CrossY(L, i, x) <= CrossY(L, j, x) IN CrossY(L, j, x)

\* where the straight line through p and q meets the polyline (T, Y); the line is steeper than the polyline anywhere
Aside(p, q, x, y) == (q[0] - p[0]) * (y - p[1]) - (q[1] - p[1]) * (x - p[0])
Meets(p, q, T, Y) == {j \in 0..(Size(T)-2) : Aside(p, q, T[j], Y[j]) * Aside(p, q, T[j+1], Y[j+1]) <= 0}
Meet(p, q, T, Y) == LET j == MinS(Meets(p, q, T, Y))  a == RAbs(Aside(p, q, T[j], Y[j]))  b == RAbs(Aside(p, q, T[j+1], Y[j+1])) IN
  V([i \in 0..1 |-> IF i = 0 THEN T[j] + ((T[j+1] - T[j]) * a) / (a + b) ELSE Y[j] + ((Y[j+1] - Y[j]) * a) / (a + b)])
\* both ends of a line moved, along the line, onto the trim lines
Trimmed(L, T, A, B) == [i \in DOMAIN L |-> IF i = 1 THEN Meet(L[1], L[2], T, A) ELSE IF i = Len(L) THEN Meet(L[Len(L)-1], L[Len(L)], T, B) ELSE L[i]]

(* The frame: the straight line fitted to the shoreline by least squares,   *)
(* origin abreast of the river, normal away from the river.                 *)
PSum(P, F(_)) == Sum([k \in 0..(Len(P)-1) |-> F(P[k+1])])
Frame(shore, river) ==
  LET n == Len(shore)
      mx == PSum(shore, LAMBDA p : p[0]) / n
      my == PSum(shore, LAMBDA p : p[1]) / n
      a == PSum(shore, LAMBDA p : (p[0] - mx) * (p[1] - my)) / PSum(shore, LAMBDA p : (p[0] - mx) * (p[0] - mx))
      t == ((river[0] - mx) + a * (river[1] - my)) / (1 + a * a)
      ox == mx + t  oy == my + a * t
      len == Sqrt(1 + a * a)
      side == ((river[1] - oy) - a * (river[0] - ox)) / len
      s == IF side > 0 THEN -1 ELSE 1
  IN [ o |-> V([i \in 0..1 |-> IF i = 0 THEN ox ELSE oy]), norm |-> Atan2((s * (-a)) / len, s / len), side |-> side ]
RevSeq(L) == [i \in 1..Len(L) |-> L[Len(L) + 1 - i]]
Xs(L) == V([i \in 0..(Len(L)-1) |-> L[i+1][0]])
Ys(L) == V([i \in 0..(Len(L)-1) |-> L[i+1][1]])
\* SH: shore, river, lagoon, cliff, outlet in real coordinates
FromShapes(SH, I, P, Dx) ==
  LET fr == TLCEval(Frame(SH.shore, SH.river))
      Mod(L) == [i \in 1..Len(L) |-> ToModel(fr.o, fr.norm, L[i])]
      sh0 == TLCEval(Mod(SH.shore))
      shore == TLCEval(IF sh0[1][0] > sh0[Len(sh0)][0] THEN RevSeq(sh0) ELSE sh0)
      lagoon == TLCEval(Mod(SH.lagoon))  cliff == TLCEval(Mod(SH.cliff))
      out0 == TLCEval(Mod(SH.outlet))
      outlet == TLCEval(IF out0[1][1] > out0[Len(out0)][1] THEN RevSeq(out0) ELSE out0)
      first == Ceil(shore[1][0] / Dx)  last == Ceil(shore[Len(shore)][0] / Dx) - 1
      n == last - first + 1
      x(i) == (first + i) * Dx
      D == 0..(n-1)
      lmin == MinOf(Xs(lagoon))  lmax == MaxOf(Xs(lagoon))
      omin == MinOf(Xs(outlet))  omax == MaxOf(Xs(outlet))
      straight == \A k \in 1..(Len(shore)-1) : shore[k][0] < shore[k+1][0]
      y0 == TLCEval(V([i \in D |-> Interp(x(i), Xs(shore), Ys(shore))]))
      y4 == TLCEval(V([i \in D |-> Highest(cliff, x(i))]))
      y3 == TLCEval(V([i \in D |-> IF lmin < x(i) /\ x(i) < lmax THEN Highest(lagoon, x(i)) ELSE y4[i]]))
      reached == TLCEval({i \in D : omin < x(i) /\ x(i) < omax})
      yo(i) == Highest(outlet, x(i))
      fits == TLCEval({i \in reached : yo(i) - I.OutletWidth / 2 > y3[i] /\ yo(i) + I.OutletWidth / 2 < y0[i]})
      right == outlet[1][0] < outlet[Len(outlet)][0]
      \* an outlet between two transects
      mid == Sum(Xs(outlet)) / Len(outlet)
      k1 == IF right THEN Floor(mid / Dx) ELSE Floor(mid / Dx) + 1
      i1 == k1 - first
      mask == IF fits = {} THEN {i1} \cap D ELSE fits
      w == I.OutletWidth
      b1 == RMin(y0[i1] - P.SpitWidth, (y0[i1] + y3[i1]) / 2 + w / 2)
      m == Cardinality(mask)
      rank(i) == IF right THEN Cardinality({j \in mask : j < i}) ELSE Cardinality({j \in mask : j > i})
      bed(j) == I.LagoonBed + ((I.OutletBed - I.LagoonBed) * j) / m
      up == IF right THEN MinS(mask) ELSE MaxS(mask)
      dn == IF right THEN MaxS(mask) ELSE MinS(mask)
      near(a, b) == RAbs(a - b) < 1/100
      \* results that depend on the last digits
      tie == \/ \E k \in {first, last} : \E q \in {shore[1][0], shore[Len(shore)][0]} : near(q, k * Dx) \/ near(q, (k + 1) * Dx)
             \/ \E i \in D : \E q \in {lmin, lmax, omin, omax} : near(q, x(i))
             \/ \E i \in reached : near(yo(i) - w / 2, y3[i]) \/ near(yo(i) + w / 2, y0[i])
             \/ near(mid, Floor(mid / Dx) * Dx) \/ near(mid, (Floor(mid / Dx) + 1) * Dx)
             \/ near(out0[1][1], out0[Len(out0)][1]) \/ near(outlet[1][0], outlet[Len(outlet)][0]) \/ RAbs(fr.side) < 1/100
             \/ \E L \in {lagoon, cliff, outlet} : \E k \in 1..Len(L) : near(L[k][0], Floor(L[k][0] / Dx) * Dx) \/ near(L[k][0], (Floor(L[k][0] / Dx) + 1) * Dx)
      refused == ~straight \/ n < 1 \/ lmin <= x(0) \/ lmax >= x(n-1) \/ (\E i \in D : Passes(cliff, x(i)) = {})
                 \/ (\E i \in reached : Cardinality(Passes(outlet, x(i))) # 1) \/ (fits = {} /\ i1 \notin D)
  IN IF straight /\ tie THEN [tie |-> TRUE]
     ELSE IF refused THEN [tie |-> FALSE, refused |-> TRUE]
     ELSE [ tie |-> FALSE, refused |-> FALSE, o |-> fr.o, norm |-> fr.norm, between |-> fits = {}, right |-> right,
            g |-> [ x |-> V([i \in D |-> x(i)]), y0 |-> y0, y4 |-> y4,
                    y1 |-> V([i \in D |-> IF i \notin mask THEN NaN ELSE IF fits = {} THEN b1 ELSE yo(i) + w / 2]),
                    y2 |-> V([i \in D |-> IF i \notin mask THEN NaN ELSE IF fits = {} THEN b1 - w ELSE yo(i) - w / 2]),
                    y3 |-> V([i \in D |-> IF fits = {} /\ i = i1 THEN RMin(b1 - w - (1/1000), y3[i]) ELSE y3[i]]),
                    z0 |-> Full(n, I.BarrierElev), z1 |-> V([i \in D |-> IF i \in mask THEN bed(rank(i)) ELSE NaN]),
                    z2 |-> V([i \in D |-> IF i \in mask THEN I.BarrierElev ELSE NaN]), z3 |-> Full(n, I.LagoonBed),
                    e |-> V([j \in 0..1 |-> IF j = 0 THEN x(up) ELSE IF right THEN x(dn) + Dx / 2 ELSE x(dn) - Dx / 2]), ew |-> w, ee |-> I.OutletBed ] ]

----------------------------------------------------------------------------
(* Generated series.                                                       *)
TidePeriod == 12 * 3600 + (252 * 6)             \* 12 h 25.2 min, in seconds
Tide(s, mean, range) == mean + (range / 2) * Sin((2 * Pi * s) / TidePeriod)

\* Shot noise (Weiss 1977): times in days since the start, events [at, size].
\* Two stores that fill at every event and drain exponentially, full of their mean at first.
MeanStore(M, rate, prop, decay) == (M * prop * rate) / decay
Drained(ev, t, M, rate, prop, decay) ==
  MeanStore(M, rate, prop, decay) * Exp(-(decay * t))
  + SumOver({k \in 1..Len(ev) : ev[k].at <= t}, LAMBDA k : ev[k].size * prop * Exp(-(decay * (t - ev[k].at))))
Flow(ev, t, N0) == Drained(ev, t, N0.m, N0.rate, N0.p, N0.k1) + Drained(ev, t, N0.m, N0.rate, 1 - N0.p, N0.k2)
=============================================================================
