------------------------------- MODULE Coast -------------------------------
(***************************************************************************)
(* Waves on the beach: longshore transport, runup and overtopping.         *)
(***************************************************************************)
EXTENDS Arr

(* CERC formula, one rate per shore segment; positive to the right.        *)
BreakerDepth(P, power) == (P.BreakerCoef * power) ^ (2/5)
Refraction(P, W) ==
  LET cb == Sqrt(P.Gravity * BreakerDepth(P, W.power))
      ch == ((P.Gravity * W.period) / (2 * Pi)) * Tanh((2 * Pi * P.WaveDataDepth) / W.length)
  IN cb / ch
LocalDir(y0, dx, dir, i) == dir - Atan((y0[i] - y0[i+1]) / dx)
Offshore(a) == a < -(Pi / 2) \/ a > Pi / 2
SegmentLST(P, W, a) ==
  LET s == Sin(a) * Refraction(P, W) IN
  IF Offshore(a) THEN 0 ELSE 0 - P.K2coef * (W.power * (Cos(a) * s))     \* sin(arcsin(s)) = s
LST(P, W, y0) == V([i \in 0..(Size(y0)-2) |-> SegmentLST(P, W, LocalDir(y0, P.Dx, W.dir, i))])
\* Snell's law has a breaking angle on every segment the waves reach
LSTDefined(P, W, y0) == \A i \in 0..(Size(y0)-2) :
  LET a == LocalDir(y0, P.Dx, W.dir, i) IN RAbs(Sin(a) * Refraction(P, W)) <= 1

Runup(period, hs, slope) == (49/100) * (Sqrt(slope) * (period * hs))

(* Overtopping of the barrier by waves: total sediment flux and whether it *)
(* goes over the crest (overwash) or onto it.                              *)
HasOutlet(s, i) == ~IsNaN(s.y1[i])
CrestW(s, i) == IF HasOutlet(s, i) THEN s.y0[i] - s.y1[i] ELSE RMax(s.y0[i] - s.y3[i], 1/1000)
NoLagoon(s, i) == ~HasOutlet(s, i) /\ s.y3[i] <= s.y4[i]
Overwash(P, s, i) ==
  IF HasOutlet(s, i) /\ s.y1[i] <= s.y2[i] THEN TRUE
  ELSE IF NoLagoon(s, i) THEN FALSE
  ELSE s.z0[i] > (CrestW(s, i) * P.BarRatSlope) + P.BarRatInt
Flux(P, s, level, i) == P.OT_coef * (RMax(level - s.z0[i], 0) ^ P.OT_exp)
Overtopping(P, s, runup, sea) ==
  [ cst |-> V([i \in Dom(s.x) |-> Flux(P, s, runup + sea, i)]),
    ow  |-> V([i \in Dom(s.x) |-> IF Overwash(P, s, i) THEN 1 ELSE 0]) ]
=============================================================================
