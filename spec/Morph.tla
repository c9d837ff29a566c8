------------------------------- MODULE Morph -------------------------------
(***************************************************************************)
(* Morphological updating (mor.updateMorphology): rates of change from     *)
(* river, waves and overtopping; the adaptive step; and the resolution of  *)
(* conflicts between river mouth features, including breaches.             *)
(*                                                                         *)
(* m: geometry as in Channel, with rz.  I: inputs of the step              *)
(*   on oix fl       layout of the combined channel                        *)
(*   b h qs          width and depth of its sections, bedload of its reaches*)
(*   lwl od          lagoon level, outlet depth at the transects           *)
(*   lst cst ow      longshore transport, overtopping flux, overwash share *)
(*   closed dt       status, morphological step so far (s)                 *)
(* T: [lo, hi, maxchg]  bounds of the step and limit on change per step    *)
(***************************************************************************)
EXTENDS Channel

Set(f, S, g(_)) == V([i \in Dom(f) |-> IF i \in S THEN g(i) ELSE f[i]])
Clear(f, S) == V([i \in Dom(f) |-> IF i \in S THEN NaN ELSE f[i]])
AddAt(f, ix, vals) == V([i \in Dom(f) |-> IF \E k \in Dom(ix) : ix[k] = i
                            THEN f[i] + vals[CHOOSE k \in Dom(ix) : ix[k] = i] ELSE f[i]])
Zero(f) == Full(Size(f), 0)

Present(m) == {i \in Dom(m.x) : ~IsNaN(m.y1[i])}
Wet(m) == {i \in Dom(m.x) : m.y3[i] > m.y4[i]}
OpenLag(m, P) == {i \in Dom(m.x) : m.y3[i] - m.y4[i] > P.MinOutletWidth}
FaceHeight(m, P) == V([i \in Dom(m.x) |-> P.ClosureDepth + m.z0[i]])
CrestWidth(m) == V([i \in Dom(m.x) |-> m.y0[i] - (IF IsNaN(m.y1[i]) THEN m.y3[i] ELSE m.y1[i])])
BackHeight(m) == V([i \in Dom(m.x) |-> m.z0[i] - (IF IsNaN(m.y1[i]) THEN m.z3[i] ELSE m.z1[i])])
FirstRight(m, e1) == MinS({i \in Dom(m.x) : e1 < m.x[i]})

\* level of the water that could spill over the barrier
SpillLevel(m, I) == V([i \in Dom(m.x) |->
   IF ~I.closed /\ i \in Range(I.oix) THEN I.od[i] + m.z1[i]
   ELSE IF i \in Wet(m) THEN I.lwl[i] ELSE -99999/10])

MorphPre(m, I, P) ==
  /\ \A i \in Dom(m.x) : CrestWidth(m)[i] > 0
  /\ ~AnyNaN(SpillLevel(m, I))
  /\ I.closed \/ (Size(I.oix) > 0 /\ (\A k \in Dom(I.oix) : I.oix[k] \in Present(m)) /\ \E i \in Dom(m.x) : m.e[1] < m.x[i])

----------------------------------------------------------------------------
(* Rates of change (m/s).                                                  *)
DepositionRate(I) ==     \* per section, from the second one down (m3/s)
  LET n == Size(I.qs) IN
  IF I.closed THEN V([k \in 0..(n-1) |-> I.qs[k] - (IF k = n-1 THEN 0 ELSE I.qs[k+1])])
  ELSE V([k \in 0..(n-2) |-> I.qs[k] - I.qs[k+1]])
\* positions (in the list without the upstream boundary) of sections of a kind
Sections(I, f) == Asc({k \in Dom(DepositionRate(I)) : I.fl[k+1] = f})

Rates(m, I, P) ==
  LET n == Size(m.x)
      dv == TLCEval(DepositionRate(I))
      wide(k) == I.b[k+1] / I.h[k+1] > P.WidthDepthRatio
      ero(k) == IF dv[k] < 0 THEN -dv[k] ELSE 0
      dep(k) == IF dv[k] > 0 THEN dv[k] ELSE 0
      bedero(k) == IF wide(k) THEN ero(k) ELSE 0
      bank(k) == IF wide(k) THEN 0 ELSE ero(k)
      net(k) == dep(k) - bedero(k)
      sr == Sections(I, River)  sl == Sections(I, Lagoon)  so == Sections(I, Outlet)  se == Sections(I, EndXS)
      face == FaceHeight(m, P)  crw == CrestWidth(m)  bkh == BackHeight(m)
      has(i) == ~IsNaN(m.y1[i])
      \* lagoon and outlet transect -> its section
      lagk(i) == sl[CHOOSE j \in Dom(I.on) : I.on[j] = i]
      outk(i) == so[CHOOSE j \in Dom(I.oix) : I.oix[j] = i]
      onS == Range(I.on)  outS == IF I.closed THEN {} ELSE Range(I.oix)
      top(i) == IF has(i) THEN m.z2[i] ELSE m.z0[i]
      riv == V([j \in Dom(sr) |-> (dep(sr[j]) - ero(sr[j])) / (P.RiverWidth * P.Dx)])
      z3r == V([i \in Dom(m.x) |-> IF i \in onS THEN net(lagk(i)) / ((m.y3[i] - m.y4[i]) * P.Dx) ELSE 0])
      z1r == V([i \in Dom(m.x) |-> IF i \in outS THEN net(outk(i)) / ((m.y1[i] - m.y2[i]) * P.Dx) ELSE 0])
      endarea == (P.BeachTopElev - m.ee) * P.SpitWidth
      agg == IF I.closed THEN 0 ELSE net(se[0]) / (m.ew * P.Dx)
      ebank == IF I.closed THEN 0 ELSE bank(se[0]) / endarea
      \* the end of the channel wanders with the bank on its outer side
      turn == IF m.e[0] < m.e[1] THEN 1 ELSE IF m.e[0] > m.e[1] THEN -1 ELSE 0
      \* waves: what crosses the mouth stays in its bank
      rb == IF I.closed THEN -1 ELSE FirstRight(m, m.e[1])
      across == IF I.closed THEN 0 ELSE I.lst[rb-1]
      narrow == IF I.closed THEN 0 ELSE RAbs(across) / endarea
      spread(i) == ((P.Dx * I.qs[Size(I.qs)-1]) / P.OutletSedSpreadDist)
                   * RMax(1 - (RAbs(m.x[i] - m.e[1]) / P.OutletSedSpreadDist), 0)
      y0r == V([i \in Dom(m.x) |->
               IF i = 0 \/ i = n-1 THEN -(P.ShorelineErosionRate / 31557600)
               ELSE (IF I.closed THEN 0 ELSE spread(i) / (face[i] * P.Dx))
                    + (I.lst[i-1] - I.lst[i]) / (face[i] * P.Dx)
                    - (IF i = rb /\ across > 0 THEN across / (face[i] * P.Dx) ELSE 0)
                    + (IF i = rb-1 /\ ~I.closed /\ ~(across > 0) THEN across / (face[i] * P.Dx) ELSE 0)
                    - I.cst[i] / face[i]])
      y1r == V([i \in Dom(m.x) |->
               (IF i \in outS THEN (bank(outk(i)) / 2) / ((m.z0[i] - m.z1[i]) * P.Dx) ELSE 0)
               - (IF has(i) THEN (I.ow[i] * I.cst[i]) / bkh[i] ELSE 0)])
      y2r == V([i \in Dom(m.x) |-> IF i \in outS THEN 0 - (bank(outk(i)) / 2) / ((m.z2[i] - m.z1[i]) * P.Dx) ELSE 0])
      y3r == V([i \in Dom(m.x) |->
               (IF i \in onS THEN (bank(lagk(i)) / 2) / ((top(i) - m.z3[i]) * P.Dx) ELSE 0)
               - (IF has(i) THEN 0 ELSE (I.ow[i] * I.cst[i]) / bkh[i])])
      y4r == V([i \in Dom(m.x) |-> IF i \in onS THEN 0 - (bank(lagk(i)) / 2) / ((P.BackshoreElev - m.z3[i]) * P.Dx) ELSE 0])
      z0r == V([i \in Dom(m.x) |-> ((1 - I.ow[i]) * I.cst[i]) / crw[i]])
  IN [ riv |-> riv, y0 |-> y0r, y1 |-> y1r, y2 |-> y2r, y3 |-> y3r, y4 |-> y4r, z0 |-> z0r, z1 |-> z1r, z3 |-> z3r,
       wid |-> ebank - narrow, agg |-> agg,
       mov |-> ((turn * ebank) / 2) * P.OutletBankEroFac + (IF across > 0 THEN narrow / 2 ELSE 0 - narrow / 2) ]

MaxAbs(f) == IF Size(f) = 0 THEN 0 ELSE MaxOf(V([i \in Dom(f) |-> RAbs(f[i])]))
Fastest(R) == MaxOf(V([k \in 0..11 |-> CASE k = 0 -> MaxAbs(R.riv) [] k = 1 -> MaxAbs(R.y0) [] k = 2 -> MaxAbs(R.y1) [] k = 3 -> MaxAbs(R.y2)
   [] k = 4 -> MaxAbs(R.y3) [] k = 5 -> MaxAbs(R.y4) [] k = 6 -> MaxAbs(R.z0) [] k = 7 -> MaxAbs(R.z1) [] k = 8 -> MaxAbs(R.z3)
   [] k = 9 -> RAbs(R.wid) [] k = 10 -> RAbs(R.agg) [] k = 11 -> RAbs(R.mov)]))

----------------------------------------------------------------------------
(* Adaptive step: halved while change is too large, doubled while it is    *)
(* less than half the limit, always between the bounds.                    *)
RECURSIVE Shorten(_, _, _)
Shorten(dt, fast, T) == IF dt > T.lo /\ fast * dt > T.maxchg THEN Shorten(RMax(dt / 2, T.lo), fast, T) ELSE dt
RECURSIVE Lengthen(_, _, _)
Lengthen(dt, fast, T) == IF dt < T.hi /\ fast * dt < T.maxchg / 2 THEN Lengthen(RMin(dt * 2, T.hi), fast, T) ELSE dt
NextDt(dt, fast, T) == Lengthen(Shorten(dt, fast, T), fast, T)

Limited(R, dt, T) ==
  LET lim == T.maxchg / dt
      c(a) == RMin(RMax(a, 0 - lim), lim)
      cc(f) == V([i \in Dom(f) |-> c(f[i])])
  IN [ riv |-> cc(R.riv), y0 |-> cc(R.y0), y1 |-> cc(R.y1), y2 |-> cc(R.y2), y3 |-> cc(R.y3), y4 |-> cc(R.y4),
       z0 |-> cc(R.z0), z1 |-> cc(R.z1), z3 |-> cc(R.z3), wid |-> c(R.wid), agg |-> c(R.agg), mov |-> c(R.mov) ]

Step(m, I, R, dt) ==
  LET go(f, r) == V([i \in Dom(f) |-> f[i] + r[i] * dt]) IN
  [m EXCEPT !.y0 = go(@, R.y0), !.y1 = go(@, R.y1), !.y2 = go(@, R.y2), !.y3 = go(@, R.y3), !.y4 = go(@, R.y4),
            !.z0 = go(@, R.z0), !.z1 = go(@, R.z1), !.z3 = go(@, R.z3),
            !.rz = V([i \in Dom(@) |-> IF i = 0 THEN @[0] ELSE @[i] + R.riv[i-1] * dt]),
            !.ew = IF I.closed THEN @ ELSE @ + R.wid * dt, !.ee = IF I.closed THEN @ ELSE @ + R.agg * dt,
            !.e = IF I.closed THEN @ ELSE V([j \in 0..1 |-> IF j = 1 THEN @[1] + R.mov * dt ELSE @[0]])]

----------------------------------------------------------------------------
(* Conflicts, in the order in which they are resolved.  A state under      *)
(* resolution is [m, oix] with oix the outlet transects in flow order.     *)

\* 1. the mouth stays a transect away from the edge of the model
KeepInside(m) ==
  LET lo == m.x[1]  hi == m.x[Size(m.x)-2] IN
  [m EXCEPT !.e = V([j \in 0..1 |-> IF j = 1 THEN (IF @[1] < lo THEN lo ELSE IF @[1] > hi THEN hi ELSE @[1]) ELSE @[0]])]

\* 2. shoreline against cliff: both give way, sediment volume kept
CliffCollision(m, P, face) ==
  LET C == {i \in Dom(m.x) : m.y0[i] <= m.y4[i]}
      over(i) == (m.y4[i] - m.y0[i]) + (1/1000)
      ret(i) == over(i) / (1 + ((P.BackshoreElev - m.z0[i]) / face[i]))
      y4 == Set(m.y4, C, LAMBDA i : m.y4[i] - ret(i))
  IN [m EXCEPT !.y4 = y4, !.y3 = Set(@, C, LAMBDA i : y4[i]), !.y0 = Set(@, C, LAMBDA i : m.y0[i] + (over(i) - ret(i)))]

\* 3. overwash into a channel that is already full: onto the lower barrier,
\*    or over both when they come level (the channel disappears)
FilledChannel(m, crw, bkh) ==
  LET N == {i \in Present(m) : m.y1[i] < m.y2[i]}
      w(i) == m.y2[i] - m.y1[i]
      vol(i) == w(i) * bkh[i]
      front(i) == m.z2[i] >= m.z0[i]
      room(i) == IF front(i) THEN (m.z2[i] - m.z0[i]) * crw[i] ELSE (m.z0[i] - m.z2[i]) * RMax(m.y2[i] - m.y3[i], 0)
      level(i) == vol(i) > room(i)
      L == {i \in N : level(i)}
      z0 == Set(Set(m.z0, {i \in N \ L : front(i)}, LAMBDA i : m.z0[i] + vol(i) / crw[i]),
                L, LAMBDA i : RMax(m.z0[i], m.z2[i]) + (vol(i) - room(i)) / (m.y0[i] - m.y3[i]))
      z2 == Set(m.z2, {i \in N \ L : ~front(i)}, LAMBDA i : m.z2[i] + vol(i) / (m.y2[i] - m.y3[i]))
  IN [m EXCEPT !.y1 = Clear(Set(@, N, LAMBDA i : m.y1[i] + w(i)), L), !.y2 = Clear(@, L),
               !.z0 = z0, !.z1 = Clear(@, L), !.z2 = Clear(z2, L)]

\* 4. the mouth has passed one or more transects: the channel now crosses them
Extension(m, oix) ==
  LET last == oix[Size(oix)-1] IN
  IF LToR(m.e) THEN (IF m.x[last+1] <= m.e[1] THEN {i \in Dom(m.x) : m.x[last] < m.x[i] /\ m.x[i] <= m.e[1]} ELSE {})
  ELSE (IF m.x[last-1] >= m.e[1] THEN {i \in Dom(m.x) : m.x[last] > m.x[i] /\ m.x[i] >= m.e[1]} ELSE {})
Extend(m, oix, P) ==
  LET E == Extension(m, oix) IN
  IF E = {} THEN [m |-> m, oix |-> oix]
  ELSE [oix |-> OutletIx(m.x, m.e),
        m |-> [m EXCEPT !.y1 = Set(@, E, LAMBDA i : m.y0[i] - P.SpitWidth),
                        !.y2 = Set(@, E, LAMBDA i : m.y0[i] - P.SpitWidth - m.ew),
                        !.z1 = Set(@, E, LAMBDA i : m.ee),
                        !.z2 = Set(@, E, LAMBDA i : m.z0[i]),
                        !.z0 = Set(@, E, LAMBDA i : P.BeachTopElev)]]

\* 5. the first transect of the channel gives way to the sea
ClearOfSea(m, f) ==
  LET d == (1/1000) + (m.y1[f] - m.y0[f])
  IN IF ~(m.y1[f] >= m.y0[f]) THEN m
     ELSE [m EXCEPT !.y1[f] = m.y1[f] - d,
                    !.y2[f] = m.y2[f] - (d * (m.z0[f] - m.z1[f])) / (m.z2[f] - m.z1[f])]
HoldFirst(m, oix) == ClearOfSea(m, oix[0])

\* 6. the lagoon has eaten into the channel: its upstream end moves down
LagoonEnd(m, oix) ==
  LET k == Size(oix)
      hit == IF k <= 1 THEN {} ELSE {j \in 0..(k-2) : m.y2[oix[j]] <= m.y3[oix[j]]}
  IN IF hit = {} THEN [m |-> m, oix |-> oix]
     ELSE LET ltr == LToR(m.e)
              first == oix[MinS(hit)]  last == oix[MaxS(hit)]
              e == V([j \in 0..1 |-> IF j = 0 THEN m.x[last + (IF ltr THEN 1 ELSE -1)] ELSE m.e[1]])
              m1 == [m EXCEPT !.e = e]
              \* no lagoon there yet: it is extended along the channel
              XX == IF ~(m.y2[first] <= m.y4[first]) THEN {}
                    ELSE IF m.x[first] > 0 THEN (MaxS(Wet(m)) + 1) .. first
                    ELSE first .. (MinS(Wet(m)) - 1)
              X == {i \in XX : ~IsNaN(m.y1[i])}
          IN [oix |-> OutletIx(m.x, e),
              m |-> [m1 EXCEPT !.y3 = Set(@, X, LAMBDA i : m.y1[i]), !.z3 = Set(@, X, LAMBDA i : m.z1[i]),
                               !.y1 = Clear(@, X), !.y2 = Clear(@, X), !.z1 = Clear(@, X), !.z2 = Clear(@, X)]]

\* 7. the sea has eaten into the channel: it ends half a transect before
SeaEnd(m, oix, P) ==
  LET k == Size(oix)
      hit == IF k <= 1 THEN {} ELSE {j \in 1..(k-1) : m.y1[oix[j]] >= m.y0[oix[j]]}
      all == {j \in Dom(oix) : m.y1[oix[j]] >= m.y0[oix[j]]}
  IN IF hit = {} THEN [m |-> m, oix |-> oix]
     ELSE LET t == oix[MinS(all)]
              e == V([j \in 0..1 |-> IF j = 1 THEN m.x[t] + (IF LToR(m.e) THEN 0 - P.Dx / 2 ELSE P.Dx / 2) ELSE m.e[0]])
          IN [oix |-> OutletIx(m.x, e), m |-> [m EXCEPT !.e = e]]

\* 8. the last transect of the channel holds off the lagoon, and the cliff
HoldLast(m, oix, P) ==
  LET l == oix[Size(oix)-1] IN
  IF ~(m.y3[l] >= m.y2[l]) THEN m
  ELSE LET y3 == m.y2[l] - (1/10000)
           over == m.y4[l] - y3
           ret == over / (1 + ((P.BackshoreElev - m.z2[l]) / (m.z2[l] - m.z1[l])))
       IN IF ~(y3 < m.y4[l]) THEN [m EXCEPT !.y3[l] = y3]
          ELSE [m EXCEPT !.y4[l] = m.y4[l] - ret, !.y2[l] = m.y2[l] + (over - ret), !.y3[l] = y3 + (over - ret)]

\* 9. relic channel against lagoon: becomes part of the lagoon
IntoLagoon(m) ==
  LET S == {i \in Dom(m.x) : m.y2[i] <= m.y3[i]}
      w(i) == m.y1[i] - m.y2[i]  lag(i) == m.y3[i] - m.y4[i]
  IN [m EXCEPT !.z3 = Set(@, S, LAMBDA i : (w(i) * m.z1[i] + lag(i) * m.z3[i]) / (m.y1[i] - m.y4[i])),
               !.y3 = Set(@, S, LAMBDA i : m.y3[i] + w(i)),
               !.y1 = Clear(@, S), !.y2 = Clear(@, S), !.z1 = Clear(@, S), !.z2 = Clear(@, S)]

\* 10. channel connected to the lagoon: the outlet, or what remains of it
\* (old: channels there were before this step's extension of the outlet)
WideChannel(m, old, P) == {i \in Present(m) \cap old : m.y1[i] - m.y2[i] >= P.MinOutletWidth}
RECURSIVE Reach(_, _, _)
Reach(i, step, W) == IF (i + step) \in W THEN Reach(i + step, step, W) ELSE i
Nearest(m, a) == CHOOSE i \in Dom(m.x) : /\ \A j \in Dom(m.x) : RAbs(m.x[i] - a) <= RAbs(m.x[j] - a)
                                         /\ \A j \in 0..(i-1) : RAbs(m.x[j] - a) > RAbs(m.x[i] - a)
Connected(m, old, oix, closed, lagopen, P) ==
  LET W == WideChannel(m, old, P)  x0 == X0(m)
      gone == [e0 |-> NaN, set |-> {}]
  IN IF ~closed THEN [e0 |-> m.e[0], set |-> Reach(MinS(Range(oix)), -1, W) .. Reach(MaxS(Range(oix)), 1, W)]
     ELSE IF IsNaN(m.e[0]) THEN gone
     ELSE LET u == Nearest(m, m.e[0])
              way == IF u < x0 THEN u .. x0 ELSE x0 .. u
          IN IF u \notin W \/ ~(way \subseteq lagopen) THEN gone
             ELSE [e0 |-> m.e[0], set |-> Reach(u, -1, W) .. Reach(u, 1, W)]
\* channel water level carried into its connected relics
SpreadLevel(level, core, set) ==
  V([i \in Dom(level) |-> IF i \in set /\ i < MinS(core) THEN level[MinS(core)]
                          ELSE IF i \in set /\ i > MaxS(core) THEN level[MaxS(core)] ELSE level[i]])

\* 11. relic channel against the sea: filled from the shoreface
IntoSea(m, S, P) ==
  [m EXCEPT !.y0 = Set(@, S, LAMBDA i : m.y0[i] - ((m.y1[i] - m.y2[i]) * (m.z2[i] - m.z1[i])) / (m.z2[i] + P.ClosureDepth)),
            !.y1 = Clear(@, S), !.y2 = Clear(@, S), !.z1 = Clear(@, S),
            !.z0 = Set(@, S, LAMBDA i : m.z2[i]), !.z2 = Clear(@, S)]

\* 12. barrier gone between lagoon and sea: a breach, or mended
\* lagoon passes flow between river and transect (both ends of the way as the model takes them)
Hydraulic(m, i, open) == LET x0 == X0(m) IN
  IF i > x0 THEN ((x0+1) .. i) \subseteq open ELSE IF i < x0 THEN (i .. (x0-1)) \subseteq open ELSE TRUE
Closest(m, S, a) == CHOOSE i \in S : /\ \A j \in S : RAbs(m.x[i] - a) <= RAbs(m.x[j] - a)
                                     /\ \A j \in S : j < i => RAbs(m.x[j] - a) > RAbs(m.x[i] - a)
Mend(m, S, face) ==
  LET over(i) == (1/1000) + (m.y3[i] - m.y0[i])
      sh(i) == over(i) / (1 + (face[i] / (m.z0[i] - m.z3[i])))
  IN [m EXCEPT !.y0 = Set(@, S, LAMBDA i : m.y0[i] + sh(i)), !.y3 = Set(@, S, LAMBDA i : m.y3[i] - (over(i) - sh(i)))]

\* 13. water level above the barrier
Crest(m, old, conn) == V([i \in Dom(m.x) |-> IF i \in conn THEN m.z0[i] ELSE IF i \in Present(m) \cap old THEN RMax(m.z0[i], m.z2[i]) ELSE m.z0[i]])

\* A breach opens the end of the outlet wide and deep enough.  Through the
\* barrier: a straight new outlet.  On a channel still connected to the
\* lagoon: the outlet is shortened to there, and keeps clear of the sea.
Opened(m, P) == [m EXCEPT !.ew = RMax(@, 2 * P.MinOutletWidth), !.ee = RMin(@, P.MaxOutletElev)]
MakeRoom(m, i) == LET y == m.y2[i] - (1/1000) IN
  [m EXCEPT !.y3[i] = IF @ >= m.y2[i] THEN y ELSE @, !.y4[i] = IF @ >= m.y2[i] THEN y ELSE @]
\* what has to give way for it
Moved(m, i) == (IF m.y3[i] >= m.y2[i] THEN 1 ELSE 0) + (IF m.y4[i] >= m.y2[i] THEN 1 ELSE 0)
NewOutlet(m, i, P) ==
  LET y1 == RMin(m.y0[i] - P.SpitWidth, ((m.y0[i] + m.y3[i]) / 2) + (m.ew / 2)) IN
  [m EXCEPT !.e = Full(2, m.x[i]), !.z2[i] = m.z0[i], !.y1[i] = y1, !.y2[i] = y1 - m.ew, !.z1[i] = (m.ee + m.z3[i]) / 2]
Shortened(m, i) == [ClearOfSea(m, i) EXCEPT !.e = V([j \in 0..1 |-> IF j = 1 THEN m.x[i] ELSE @[0]])]
Dug(m, i, conn, P) == LET o == Opened(m, P) IN IF i \in conn THEN Shortened(o, i) ELSE NewOutlet(o, i, P)
BreachAt(m, i, conn, P) == MakeRoom(Dug(m, i, conn, P), i)

\* 14. the lagoon never closes where the river enters it
KeepMouth(m, P) ==
  LET i == X0(m) IN IF m.y3[i] - m.y4[i] < P.MinOutletWidth THEN [m EXCEPT !.y4[i] = m.y3[i] - P.MinOutletWidth - (1/1000)] ELSE m

----------------------------------------------------------------------------
(* The whole step.                                                         *)
Resolve(m0, m1, I, P) ==
  LET face == FaceHeight(m0, P)  crw == CrestWidth(m0)  bkh == BackHeight(m0)
      lagopen0 == OpenLag(m0, P)  level0 == SpillLevel(m0, I)
      a1 == TLCEval(FilledChannel(CliffCollision(KeepInside(m1), P, face), crw, bkh))
      a2 == IF I.closed THEN [m |-> a1, oix |-> I.oix] ELSE TLCEval(Extend(a1, I.oix, P))
      a3 == IF I.closed THEN a2 ELSE [a2 EXCEPT !.m = HoldFirst(a2.m, a2.oix)]
      b4 == TLCEval(LagoonEnd(a3.m, a3.oix))
      a4 == IF I.closed \/ REq(b4.m.e[0], a3.m.e[0]) THEN b4 ELSE [b4 EXCEPT !.m = TLCEval(HoldFirst(b4.m, b4.oix))]
      a5 == TLCEval(SeaEnd(a4.m, a4.oix, P))
      a6 == TLCEval(IntoLagoon(IF I.closed THEN a5.m ELSE HoldLast(a5.m, a5.oix, P)))
      oix == a5.oix
      old == Present(a1)
      con == TLCEval(Connected(a6, old, oix, I.closed, lagopen0, P))
      m2 == [a6 EXCEPT !.e = V([j \in 0..1 |-> IF j = 0 THEN con.e0 ELSE @[1]])]
      core == IF ~I.closed THEN MinS(Range(oix)) .. MaxS(Range(oix)) ELSE {Nearest(m2, m2.e[0])}
      level == IF con.set = {} THEN level0 ELSE SpreadLevel(level0, core, con.set)
      sea0 == {i \in Dom(m2.x) : m2.y0[i] <= m2.y1[i]}
      reopen == I.closed /\ (sea0 \cap con.set) # {}
      at1 == IF reopen THEN Closest(m2, sea0 \cap con.set, m2.e[0]) ELSE -1
      m3 == TLCEval(IntoSea(m2, sea0 \ {at1}, P))
      \* complete erosion
      ero == {i \in Dom(m3.x) : m3.y3[i] >= m3.y0[i] /\ m3.y3[i] > m3.y4[i]}
      poss == {i \in ero : Hydraulic(m3, i, lagopen0)}
      closer == \E i \in poss : RAbs(m3.x[i]) < RAbs(m3.e[0])
      erodes == ~reopen /\ poss # {} /\ (I.closed \/ closer)
      at2 == IF erodes THEN Closest(m3, poss, 0) ELSE at1
      m4 == TLCEval(Mend(m3, IF erodes THEN ero \ {at2} ELSE ero, face))
      \* spilling
      crest == Crest(m4, old, con.set)
      open1 == OpenLag(m4, P)
      spill == {i \in Dom(m4.x) : crest[i] < level[i]}
      conn == {i \in spill : i \in con.set \/ Hydraulic(m4, i, open1)}
      nearer(i) == IF i \in con.set THEN RAbs(m4.x[i] - m4.e[0]) < RAbs(m4.e[1] - m4.e[0])
                   ELSE RAbs(m4.x[i]) < RMin(RAbs(m4.e[0]), RAbs(m4.e[1]))
      cand == IF I.closed THEN conn ELSE {i \in conn : nearer(i)}
      spills == ~reopen /\ ~erodes /\ cand # {}
      deepest == {i \in cand : \A j \in cand : level[i] - crest[i] >= level[j] - crest[j]}
      breach == reopen \/ erodes \/ spills
      ats == IF spills THEN deepest ELSE {at2}
      after(at) == IF breach THEN BreachAt(m4, at, con.set, P) ELSE m4
  IN [ m |-> {KeepMouth(after(at), P) : at \in ats},
       breach |-> breach, why |-> IF reopen THEN "reopen" ELSE IF erodes THEN "erosion" ELSE IF spills THEN "spill" ELSE "none",
       \* what gives way at the breach, wherever it may be; and whether the river mouth is held open
       moved |-> IF breach THEN {Moved(Dug(m4, at, con.set, P), at) : at \in ats} ELSE {0},
       held |-> \E at \in ats : LET m == after(at) IN m.y3[X0(m)] - m.y4[X0(m)] < P.MinOutletWidth,
       spilling |-> spill # {},
       at |-> ats, onchan |-> breach /\ (\E at \in ats : at \in con.set),
       tags |-> {t \in {"cliff", "filled", "levelled", "extend", "holdfirst", "lagoonend", "seaend", "holdlast", "intolagoon", "intosea", "mend", "edge"} :
                 CASE t = "cliff" -> \E i \in Dom(m1.x) : m1.y0[i] <= m1.y4[i]
                   [] t = "filled" -> \E i \in Present(m1) : m1.y1[i] < m1.y2[i]
                   [] t = "levelled" -> Present(a1) # Present(m1)
                   [] t = "extend" -> ~I.closed /\ Extension(a1, I.oix) # {}
                   [] t = "holdfirst" -> ~I.closed /\ a2.m.y1[a2.oix[0]] >= a2.m.y0[a2.oix[0]]
                   [] t = "lagoonend" -> ~REq(a4.m.e[0], a3.m.e[0]) /\ ~IsNaN(a4.m.e[0])
                   [] t = "seaend" -> ~REq(a5.m.e[1], a4.m.e[1]) /\ ~IsNaN(a5.m.e[1])
                   [] t = "holdlast" -> ~I.closed /\ a5.m.y3[oix[Size(oix)-1]] >= a5.m.y2[oix[Size(oix)-1]]
                   [] t = "intolagoon" -> Present(a6) # Present(a5.m)
                   [] t = "intosea" -> (sea0 \ {at1}) # {}
                   [] t = "mend" -> ero # {}
                   [] t = "edge" -> ~REq(m1.e[1], KeepInside(m1).e[1]) /\ ~IsNaN(m1.e[1])} ]

Advance(m, I, P, T) ==
  LET R == TLCEval(Rates(m, I, P))
      fast == Fastest(R)
      dt == NextDt(I.dt, fast, T)
      R1 == IF fast * dt > T.maxchg THEN Limited(R, dt, T) ELSE R
  IN [dt |-> dt, R |-> R, fast |-> fast, m |-> TLCEval(Step(m, I, R1, dt))]
=============================================================================
