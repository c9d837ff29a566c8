----------------------------- MODULE TrPicture ------------------------------
(* Conformance of visualise.py (the data of the lines in the figures) and    *)
(* animate.py (the pictures that make up a film).                            *)
EXTENDS Tr, Picture
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l
O == INSTANCE Output
C == INSTANCE Channel
G == INSTANCE Load

\* how near drawn is to meant: exactly for given values, in single precision for values from a file
Same(got, want, rt, at) == VNear(got.x, want.x, rt, at) /\ VNear(got.y, want.y, rt, at)
\* a time written to the minute
Stamp(t) == 60 * Floor(t / 60)

\* ------------------------------------------------------------ plan view
In(a, b, M, at) == \E k \in Dom(M.x) : Near(a, M.x[k], 0, at) /\ Near(b, M.y[k], 0, at)
Within(f, M, at) == \A k \in Dom(f.x) : RAbs(f.y[k]) >= 1000 \/ In(f.x[k], f.y[k], M, at)
Covers(f, M, at) == \A k \in Dom(M.x) : In(M.x[k], M.y[k], f, at)
Bank(o, side) == LET gap == {k \in Dom(o.x) : IsNaN(o.x[k])}
                     g == MinS(gap)
                 IN IF side = "l" THEN Line(Slice(o.x, 0, g - 1), Slice(o.y, 0, g - 1)) ELSE Line(Slice(o.x, g + 1, Size(o.x) - 1), Slice(o.y, g + 1, Size(o.y) - 1))
BankOk(s, o, side, rt, at) ==
  LET b == Bank(o, side)  n == Size(b.x)  a == Along(s, side)  u == End(Entry(s), side)  m == End(Mouth(s), side)
      N(p, q) == Near(p, q, rt, at)
  IN /\ n >= 2 /\ N(b.x[0], u) /\ N(b.y[0], Interp(u, s.x, s.y3)) /\ N(b.x[n-1], m) /\ N(b.y[n-1], Interp(m, s.x, s.y0))
     /\ (n > 2 /\ Size(s.oix) > 0 => b.y[1] >= b.y[0] - at /\ b.y[n-2] <= b.y[n-1] + at)
     /\ (Regular(s, side) =>
           /\ \E j \in 0..(n - Size(a.x)) : \A k \in Dom(a.x) : N(b.x[j+k], a.x[k]) /\ N(b.y[j+k], a.y[k])
           /\ \A k \in 0..(n-2) : Runs(s, side) * (b.x[k+1] - b.x[k]) >= -at)
BanksOk(s, o, rt, at) ==
  IF s.closed THEN Size(Marks(o).x) = 0
  ELSE Cardinality({k \in Dom(o.x) : IsNaN(o.x[k])}) = 1 /\ BankOk(s, o, "l", rt, at) /\ BankOk(s, o, "r", rt, at)
RiverOk(s, D, o, rt, at) ==
  /\ Size(o.x) = 5 /\ VNear(o.x, Cat(Full(2, -(D.rw) / 2), Cat(Full(1, NaN), Full(2, D.rw / 2))), rt, at)
  /\ Near(o.y[1], Interp(-(D.rw) / 2, s.x, s.y4), rt, at) /\ Near(o.y[4], Interp(D.rw / 2, s.x, s.y4), rt, at)
  /\ o.y[0] < MinOf(s.y4) - 100 /\ o.y[3] < MinOf(s.y4) - 100
PlanClauses(s, D, o, rt, at) ==
  LET lines == Join(Marks(ShoreLine(s)), Join(Marks(LagoonLine(s)), Marks(CliffLine(s, D))))
      bounds == Join(lines, Join(Marks(o.river), Marks(o.outlet)))
      must == IF s.closed THEN lines ELSE Join(lines, Marks(o.outlet))
      t2 == at + (rt * 1000)
  IN [ shore |-> Same(o.shore, ShoreLine(s), rt, at), lagoon |-> Same(o.lagoon, LagoonLine(s), rt, at), cliff |-> Same(o.cliff, CliffLine(s, D), rt, at),
       dots |-> Same(Marks(o.dots), Marks(ShoreDots(s)), rt, at), channel |-> Same(o.channel, ChannelLine(s), rt, at),
       river |-> RiverOk(s, D, o.river, rt, at), banks |-> BanksOk(s, o.outlet, rt, at),
       water |-> Within(Marks(o.water), bounds, t2) /\ Covers(Marks(o.water), must, t2),
       hatch |-> Within(Marks(o.hatch), Join(Marks(CliffLine(s, D)), Marks(o.river)), t2) /\ Covers(Marks(o.hatch), Marks(CliffLine(s, D)), t2) ]
Landward == Pi / 2
\* arrows: waves come from the sea, transport goes along the shore (positive to the right) and over it
WaveOk(w, o) ==
  LET dx == o.tip[0] - o.base[0]  dy == o.tip[1] - o.base[1]  n == Sqrt(dx * dx + dy * dy) IN
  IF RAbs(w.dir) < Landward /\ w.power > 0 THEN Near(dx / n, -(Sin(w.dir)), 0, 1/1000000) /\ Near(dy / n, -(Cos(w.dir)), 0, 1/1000000) ELSE n < 1/10 \/ w.power <= 0
Arrows(s, w, o) ==
  [ wave |-> WaveOk(w, o.wave), crest |-> Same(o.crest, CrestLine(s), RT, AT),
    lst |-> VEq(o.lst.x, Mid(s.x)) /\ VEq(o.lst.y, Mid(s.y0)) /\ VEq(o.lst.u, w.lst) /\ \A k \in Dom(o.lst.v) : REq(o.lst.v[k], 0),
    cst |-> VEq(o.cst.x, s.x) /\ VEq(o.cst.y, s.y0) /\ VEq(o.cst.v, V([i \in Dom(w.cst) |-> -(w.cst[i])])) /\ \A k \in Dom(o.cst.u) : REq(o.cst.u[k], 0) ]
TitleOk(w, o) == w.time = -1 \/ REq(o.title, Stamp(w.time))
All(r) == \A c \in DOMAIN r : r[c]
PlanEvent(e) ==
  LET ok(s, w, o) == ~PlanPre(s) \/ (All(PlanClauses(s, e.D, o, RT, AT)) /\ (w.full => All(Arrows(s, w, o))) /\ TitleOk(w, o) /\ o.shown) IN
  IF "exc" \in DOMAIN e THEN [pictures_PlanCompletes |-> ~(PlanPre(e.s) /\ PlanPre(e.t))]
  ELSE IF ~(PlanPre(e.s) /\ PlanPre(e.t)) THEN [none |-> TRUE]
  ELSE [ pictures_Plan |-> ok(e.s, e.w, e.out.first), pictures_PlanUpdated |-> ok(e.t, e.w2, e.out.then), pictures_Pure |-> e.mut = << >> ]

\* ------------------------------------------------------ other pictures
LongOk(c, o, rt, at) == LET w == LongLines(c) IN \A k \in DOMAIN w : Same(o[k], w[k], rt, at)
FlowShown(c, o) == \A i \in Dom(c.z) : LET q == (c.v[i] * c.h[i]) * c.b[i] IN o.ylim[0] <= q /\ (q <= o.ylim[1])
LongEvent(e) ==
  LET ok(c, o) == LongOk(c, o, RT, AT) /\ (e.bed => Same(o.qs, LongBed(c), RT, AT)) /\ FlowShown(c, o) /\ TitleOk(c, o) IN
  IF "exc" \in DOMAIN e THEN [pictures_LongCompletes |-> FALSE]
  ELSE [ pictures_Long |-> ok(e.c, e.out.first), pictures_LongUpdated |-> ok(e.d, e.out.then), pictures_Pure |-> e.mut = << >> ]
AcrossOk(s, W, at, P, o, rt, ab) == \E i \in NearestIx(s.x, at) :
  /\ Same(o.ground, Ground(s, i, P), rt, ab) /\ Same(o.water, Water(s, i, W), rt, ab)
  /\ Within(Marks(o.gfill), Ground(s, i, P), ab + (rt * 1000)) \/ \A k \in Dom(o.gfill.x) : o.gfill.y[k] <= -100 \/ In(o.gfill.x[k], o.gfill.y[k], Ground(s, i, P), ab + (rt * 1000))
  /\ \A k \in Dom(o.wfill.x) : o.wfill.y[k] <= -100 \/ In(o.wfill.x[k], o.wfill.y[k], Water(s, i, W), ab + (rt * 1000))
Beyond(x, at) == at < x[0] \/ at > Last(x)
AcrossEvent(e) ==
  IF "exc" \in DOMAIN e THEN [pictures_AcrossCompletes |-> Beyond(e.s.x, e.at)]
  ELSE [ pictures_AcrossRange |-> ~Beyond(e.s.x, e.at), pictures_Across |-> AcrossOk(e.s, e.w, e.at, e.P, e.out.first, RT, AT),
         pictures_AcrossUpdated |-> AcrossOk(e.t, e.w2, e.at, e.P, e.out.then, RT, AT) /\ TitleOk(e.w2, e.out.then), pictures_Pure |-> e.mut = << >> ]
SeriesOk(b, o) == Same(o.qin, Line(b.t, b.qin), RT, 1/1000) /\ Same(o.qout, Line(b.t, b.qout), RT, 1/1000) /\ Same(o.sea, Line(b.t, b.sea), RT, 1/1000)
SeriesEvent(e) ==
  IF "exc" \in DOMAIN e THEN [pictures_SeriesCompletes |-> FALSE]
  ELSE [ pictures_Series |-> SeriesOk(e.b, e.out.first), pictures_SeriesUpdated |-> SeriesOk(e.d, e.out.then) ]
OnMap(e, xs, ys) == LET p == [i \in Dom(xs) |-> G!ToReal(e.o, e.norm, Cat(Full(1, xs[i]), Full(1, ys[i])))] IN Line(V([i \in Dom(xs) |-> p[i][0]]), V([i \in Dom(xs) |-> p[i][1]]))
MapEvent(e) ==
  LET s == e.s  N(f, g) == Same(f, g, RT, 1/1000000)
      top == OnMap(e, Full(1, 0), Full(1, Interp(0, s.x, s.y4))) IN
  IF "exc" \in DOMAIN e THEN [pictures_MapCompletes |-> FALSE]
  ELSE [ pictures_Map |-> /\ N(e.out.Shore, OnMap(e, s.x, s.y0)) /\ N(e.out.Lagoon, OnMap(e, s.x, s.y3)) /\ N(e.out.Cliff, OnMap(e, s.x, s.y4))
                          /\ N(e.out.Origin, Line(Full(1, e.o[0]), Full(1, e.o[1])))
                          /\ Near(e.out.River.x[1], top.x[0], RT, 1/1000000) /\ Near(e.out.River.y[1], top.y[0], RT, 1/1000000),
         pictures_Pure |-> e.mut = << >> ]

\* ------------------------------------------------------------ animation
R3 == 1/1000000     \* values from a file are in single precision
A3 == 2/1000
OfRecord(rec, x) ==
  LET b == O!ReadBack(rec, x)
      cl == ~REq(rec.outlet_closed[0], 0)
      Sub(f, g) == V([i \in Dom(f) |-> f[i] - g[i]])
  IN [ x |-> x, y0 |-> b.y0, y1 |-> b.y1, y2 |-> b.y2, y3 |-> b.y3, y4 |-> b.y4, z0 |-> b.z0, z1 |-> b.z1, z2 |-> b.z2, z3 |-> b.z3, e |-> b.e, ew |-> b.ew[0], ee |-> b.ee[0],
       closed |-> cl, oix |-> O!ChannelIx(x, b.e, cl), rz |-> b.rz, rd |-> Sub(b.rwl, b.rz), rv |-> b.rv, lwl |-> b.lwl, lvl |-> b.lvl, od |-> Sub(b.owl, b.z1), ov |-> b.ov, owl |-> b.owl,
       oed |-> Sub(b.oewl, b.ee), oev |-> b.oev, sea |-> b.sea[0], time |-> b.t[0] ]
Params(a, x) == [ Dx |-> x[1] - x[0], MinOutletWidth |-> a.MinOutletWidth, RiverWidth |-> a.RiverWidth, MaxOutletElev |-> a.MaxOutletElev ]
ChannelOf(s, P) == LET a == TLCEval(C!Assemble(s, P)) IN [dx |-> a.dx, z |-> a.z, b |-> a.b, h |-> a.h, v |-> a.v]
FrameOk(e, s, f) ==
  /\ REq(f.title, Stamp(s.time + (1/1000)))
  /\ CASE e.kind = "plan" -> ~PlanPre(s) \/ All(PlanClauses(s, [rw |-> e.out.attrs.RiverWidth], f, R3, A3))
       [] e.kind = "long" -> LET P == Params(e.out.attrs, s.x) IN ~C!AssemblePre(s, P) \/ LongOk(ChannelOf(s, P), f, 1/10000, A3)
       [] OTHER -> AcrossOk(s, [sea |-> s.sea, owl |-> s.owl, lwl |-> s.lwl], e.at, e.out.attrs, f, R3, A3)
Drawable(e, s) == CASE e.kind = "plan" -> PlanPre(s) [] e.kind = "long" -> C!AssemblePre(s, Params(e.out.attrs, s.x)) [] OTHER -> ~Beyond(s.x, e.at)
FilmEvent(e) ==
  IF "exc" \in DOMAIN e THEN [animation_Completes |-> FALSE]
  ELSE LET n == Len(e.out.recs)
           want == TLCEval(Frames(n, e.first, e.end, e.step))
           s(k) == OfRecord(e.out.recs[k+1], e.out.filex)
           able == e.first < n /\ \A k \in 0..(n-1) : Drawable(e, s(k))
       IN IF ~able \/ Size(want) = 0 THEN [none |-> TRUE]
          ELSE IF e.out.failed THEN [animation_Completes |-> FALSE]
          ELSE [ animation_Frames |-> e.out.nframes = Size(want),
                 animation_Pictures |-> \A k \in Dom(want) : k >= e.out.nframes \/ FrameOk(e, s(want[k]), e.out.frames[k+1]),
                 animation_Kept |-> e.out.kept, animation_Rate |-> e.out.file = e.film /\ Eq(e.out.fps, e.fps) ]

ClausesOf(e) == CASE e.op = "plan" -> PlanEvent(e) [] e.op = "long" -> LongEvent(e) [] e.op = "across" -> AcrossEvent(e)
                  [] e.op = "curves" -> SeriesEvent(e) [] e.op = "map" -> MapEvent(e) [] OTHER -> FilmEvent(e)
Word(s) == (IF s.closed THEN " closed" ELSE IF Size(s.oix) = 0 THEN " straight" ELSE IF s.e[0] < s.e[1] THEN " right" ELSE " left")
Cover(e) == CASE e.op = "plan" -> Tag(e, (IF PlanPre(e.s) /\ PlanPre(e.t) THEN "plan" ELSE "plan, no lagoon") \o Word(e.s) \o " to" \o Word(e.t)
                                        \o (IF ~e.t.closed /\ PlanPre(e.t) THEN (IF Regular(e.t, "l") THEN " L" ELSE "") \o (IF Regular(e.t, "r") THEN " R" ELSE "") ELSE ""))
              [] e.op = "film" -> (IF "exc" \in DOMAIN e THEN TRUE ELSE Tag(e, "film " \o e.kind \o (IF e.out.failed THEN " failed" ELSE "")))
              [] OTHER -> Tag(e, e.op)
Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l+1] IN Report(e, FalseIn(ClausesOf(e)), e.op) /\ Cover(e)
Spec == Init /\ [][Next]_l
=============================================================================
