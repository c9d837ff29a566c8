------------------------------ MODULE Picture ------------------------------
(***************************************************************************)
(* What pictures of the model show: in plan (in model and in map           *)
(* coordinates), along the channel, across a transect, through time; and   *)
(* which pictures make up an animation.                                    *)
(*                                                                         *)
(* A line is a pair of arrays [x |->, y |->]; a gap in it is a NaN.        *)
(* State s as in Channel, with oix the transects crossed by the outlet;    *)
(* D: RiverWidth (rw).                                                     *)
(***************************************************************************)
EXTENDS Arr

Line(xs, ys) == [x |-> xs, y |-> ys]
Join(a, b)   == Line(Cat(a.x, b.x), Cat(a.y, b.y))
Nothing      == Line(<< >>, << >>)
Break        == Line(Full(1, NaN), Full(1, NaN))
Point(x, y)  == Line(Full(1, x), Full(1, y))
Drawn(f)     == Asc({k \in Dom(f.x) : ~IsNaN(f.x[k]) /\ ~IsNaN(f.y[k])})
\* the points of a line without its gaps
Marks(f)     == Line(Pick(f.x, Drawn(f)), Pick(f.y, Drawn(f)))
\* line ys over xs up to a, and from b on
UpTo(xs, ys, a) == LET k == Asc({i \in Dom(xs) : xs[i] <= a}) IN Join(Line(Pick(xs, k), Pick(ys, k)), Point(a, Interp(a, xs, ys)))
From(xs, ys, b) == LET k == Asc({i \in Dom(xs) : xs[i] >= b}) IN Join(Point(b, Interp(b, xs, ys)), Line(Pick(xs, k), Pick(ys, k)))
Broken(xs, ys, a, b) == Join(UpTo(xs, ys, a), Join(Break, From(xs, ys, b)))

(***************************************************************************)
(* Plan view.                                                              *)
(***************************************************************************)
Wet(s) == {i \in Dom(s.x) : s.y3[i] > s.y4[i]}
PlanPre(s) == s.closed \/ (Wet(s) /= {} /\ ~IsNaN(s.e[0]) /\ ~IsNaN(s.e[1]))
Mouth(s) == [l |-> s.e[1] - (s.ew / 2), r |-> s.e[1] + (s.ew / 2)]
Entry(s) ==
  LET dx == s.x[1] - s.x[0]
      w  == IF Size(s.oix) = 0 THEN s.ew ELSE s.y1[s.oix[0]] - s.y2[s.oix[0]]
  IN [ l |-> RMax(s.e[0] - (w / 2), s.x[MinS(Wet(s))] - dx), r |-> RMin(s.e[0] + (w / 2), s.x[MaxS(Wet(s))] + dx) ]

ShoreLine(s)  == IF s.closed THEN Line(s.x, s.y0) ELSE Broken(s.x, s.y0, Mouth(s).l, Mouth(s).r)
LagoonLine(s) == IF s.closed THEN Line(s.x, s.y3) ELSE Broken(s.x, s.y3, Entry(s).l, Entry(s).r)
CliffLine(s, D) == Broken(s.x, s.y4, -(D.rw) / 2, D.rw / 2)
\* shore that is not there any more
ShoreDots(s)  == IF s.closed THEN Nothing
                 ELSE LET k == Asc({i \in Dom(s.x) : Mouth(s).l < s.x[i] /\ s.x[i] < Mouth(s).r}) IN Line(Pick(s.x, k), Pick(s.y0, k))
ChannelLine(s) == Line(Cat(s.x, s.x), Cat(s.y1, s.y2))
CrestLine(s)   == Line(s.x, s.z0)

\* The banks of an open outlet: side is "l" or "r".  A bank leads from the
\* lagoon to the sea; the outer one along the seaward side of the channel,
\* the inner one along its other side.
End(p, side) == IF side = "l" THEN p.l ELSE p.r
Runs(s, side) == Sign(End(Mouth(s), side) - End(Entry(s), side))
Along(s, side) ==
  LET run == Runs(s, side)  m == End(Mouth(s), side)  u == End(Entry(s), side)
      outer == IF side = "l" THEN run = 1 ELSE run # 1
      on(i) == IF outer THEN (IF side = "l" THEN s.x[i] < m ELSE s.x[i] > m) ELSE (IF side = "l" THEN s.x[i] < u ELSE s.x[i] > u)
      k == Asc({j \in Dom(s.oix) : on(s.oix[j])})
      i == Pick(s.oix, k)
  IN Line(Pick(s.x, i), IF outer THEN Pick(s.y1, i) ELSE Pick(s.y2, i))
\* whether the bank runs the way the channel does, past all of its transects
Regular(s, side) ==
  LET run == Runs(s, side)  a == Along(s, side).x IN
  /\ run # 0 /\ (Size(s.oix) = 0 \/ run = Sign(s.e[1] - s.e[0]))
  /\ \A k \in Dom(a) : IF run = 1 THEN End(Entry(s), side) <= a[k] ELSE a[k] <= End(Entry(s), side)

(***************************************************************************)
(* Along the channel: c has dx z b h v.                                    *)
(***************************************************************************)
Mid(f) == V([i \in 0..(Size(f)-2) |-> (f[i] + f[i+1]) / 2])
Distance(c) == V([i \in Dom(c.z) |-> IF i = 0 THEN 0 ELSE Sum(Slice(c.dx, 0, i - 1))])
Level(c) == V([i \in Dom(c.z) |-> c.z[i] + c.h[i]])
LongLines(c) ==
  LET d == Distance(c)  g == 981/100 IN
  [ bed |-> Line(d, c.z), water |-> Line(d, Level(c)), width |-> Line(d, c.b), vel |-> Line(d, c.v),
    energy |-> Line(Mid(d), V([i \in Dom(c.dx) |-> Mid(Level(c))[i] + (Mid(c.v)[i] ^ 2) / (2 * g)])),
    flow |-> Line(d, V([i \in Dom(c.z) |-> (c.v[i] * c.h[i]) * c.b[i]])),
    froude |-> Line(d, V([i \in Dom(c.z) |-> RAbs(c.v[i]) / Sqrt(g * c.h[i])])) ]
LongBed(c) == Line(Mid(Distance(c)), V([i \in Dom(c.qs) |-> c.qs[i] * 3600]))

(***************************************************************************)
(* Across a transect: sea to the right (x is the model's y).               *)
(***************************************************************************)
NearestIx(x, at) == {i \in Dom(x) : \A j \in Dom(x) : RAbs(x[i] - at) <= RAbs(x[j] - at)}
Far == 1000
L3(a, b, c) == Join(a, Join(b, c))
\* seabed, beach, barrier with or without a channel, lagoon, cliff, land; P: BeachTopElev ClosureDepth BeachSlope BackshoreElev
Ground(s, i, P) ==
  LET chan == ~IsNaN(s.y2[i])
      beach == L3(Point(Far, -(P.ClosureDepth)), Point(s.y0[i] + (P.BeachTopElev + P.ClosureDepth) / P.BeachSlope, -(P.ClosureDepth)),
                  Join(Point(s.y0[i], P.BeachTopElev), Point(s.y0[i], s.z0[i])))
      barrier == IF ~chan THEN Point(s.y3[i], s.z0[i])
                 ELSE L3(Join(Point(s.y1[i], s.z0[i]), Point(s.y1[i], s.z1[i])), Join(Point(s.y2[i], s.z1[i]), Point(s.y2[i], s.z2[i])), Point(s.y3[i], s.z2[i]))
      lagoon == IF REq(s.y3[i], s.y4[i]) THEN Nothing ELSE Join(Point(s.y3[i], s.z3[i]), Point(s.y4[i], s.z3[i]))
  IN Join(L3(beach, barrier, lagoon), Join(Point(s.y4[i], P.BackshoreElev), Point(-Far, P.BackshoreElev)))
Water(s, i, W) ==
  LET chan == ~IsNaN(s.y2[i])
      sea == Join(Point(Far, W.sea), Point(s.y0[i], W.sea))
      outlet == IF ~chan THEN Nothing ELSE Join(Point(s.y1[i], W.owl[i]), Point(s.y2[i], W.owl[i]))
      lagoon == IF REq(s.y3[i], s.y4[i]) THEN Nothing ELSE Join(Point(s.y3[i], W.lwl[i]), Point(s.y4[i], W.lwl[i]))
  IN L3(sea, outlet, lagoon)

(***************************************************************************)
(* An animation of n records from first, every step-th, before end.        *)
(***************************************************************************)
Stop(n, end) == IF end = -1 \/ end > n THEN n ELSE end
Frames(n, first, end, step) == Asc({k \in first..(Stop(n, end) - 1) : (k - first) % step = 0})
=============================================================================
