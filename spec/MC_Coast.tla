------------------------------ MODULE MC_Coast ------------------------------
(***************************************************************************)
(* Shorelines of N points on a coarse grid and waves of every direction;   *)
(* barriers low and high, narrow and wide, with and without lagoon or      *)
(* channel.                                                                *)
(***************************************************************************)
EXTENDS Coast
CONSTANT N
VARIABLES y, dir, pow, bar, ph
vars == <<y, dir, pow, bar, ph>>
P == [ Dx |-> 10, K2coef |-> 1/100000, BreakerCoef |-> 1/3000, Gravity |-> 981/100, WaveDataDepth |-> 10, BeachSlope |-> 1/8,
       OT_coef |-> 1/1000, OT_exp |-> 3/2, BarRatSlope |-> 1/20, BarRatInt |-> 1 ]
Ix == 0..(N-1)
Y == V([i \in Ix |-> (y[i] * 6) / 1])
Dir(d) == (d * Pi) / 8
Pow(k) == k * 3000
W == [period |-> 8, length |-> 70, power |-> Pow(pow), dir |-> Dir(dir)]
\* a barrier: kind (0 lagoon, 1 none, 2 channel, 3 filled channel), crest 2..5, width 5 or 60
Kinds == 0..3
Bars == [k : Kinds, z : 2..5, w : {5, 60}]
S(b) == [ x |-> Full(1, 0), y0 |-> Full(1, 0), y1 |-> Full(1, IF b.k \in {2, 3} THEN 0 - b.w ELSE NaN),
          y2 |-> Full(1, CASE b.k = 2 -> -70 [] b.k = 3 -> 0 - b.w [] OTHER -> NaN),
          y3 |-> Full(1, IF b.k \in {2, 3} THEN -80 ELSE 0 - b.w), y4 |-> Full(1, IF b.k = 1 THEN 0 - b.w ELSE -100), z0 |-> Full(1, b.z) ]
Init == y = [i \in Ix |-> 0] /\ dir = 0 /\ pow = 0 /\ bar = [k |-> 0, z |-> 3, w |-> 5] /\ ph = 0
Choose == ph = 0 /\ ph' = 1 /\ y' \in [Ix -> -2..2] /\ dir' \in -7..7 /\ pow' \in 0..2 /\ bar' \in {b \in Bars : (b.k = 0 /\ b.z = 3) \/ (\A i \in Ix : y'[i] = 0)}
Next == Choose
Spec == Init /\ [][Next]_vars
On == ph = 1
Seg == 0..(N-2)
L == LST(P, W, Y)
A(i) == LocalDir(Y, P.Dx, W.dir, i)
Seen(s) == (bar.k = 0 /\ bar.z = 3) => Say("SEEN", s)
\* sediment moves the way the waves push it
WithTheWaves == ~On \/ LET l == L IN \A i \in Seg : Offshore(A(i)) \/ ((A(i) > 0 => l[i] <= 0) /\ (A(i) < 0 => l[i] >= 0) /\ (pow = 2 => Seen("waves")))
NoneOffshore == ~On \/ LET l == L IN \A i \in Seg : Offshore(A(i)) => (REq(l[i], 0) /\ Seen("offshore"))
\* the same rate everywhere on a straight shore
StraightShore == ~On \/ LET l == L IN (\A i \in Ix : \A j \in Seg : 2 * y[i] = 2 * y[j] + (i - j) * (y[1] - y[0]) * 2) => \A i \in Seg : Near(l[i], l[0], 1/1000000000, 0)
\* more with more power
Powered == ~On \/ \A i \in Seg : RAbs(SegmentLST(P, [W EXCEPT !.power = Pow(1)], A(i))) <= RAbs(SegmentLST(P, [W EXCEPT !.power = Pow(2)], A(i)))
Mirrored == ~On \/ LET l == L  yy == V([i \in Ix |-> Y[N-1-i]])  r == LST(P, [W EXCEPT !.dir = 0 - W.dir], yy) IN
            \A i \in Seg : Near(l[i], 0 - r[N-2-i], 1/1000000000, 1/1000000000)

OT(ru) == Overtopping(P, S(bar), ru, 1)
\* levels to try: run-up 0 .. 6 m over a sea level of 1 m
DrySafe == ~On \/ \A ru \in 0..6 : (ru + 1 <= bar.z) => REq(OT(ru).cst[0], 0)
HigherMore == ~On \/ \A ru \in 0..5 : OT(ru).cst[0] <= OT(ru + 1).cst[0] /\ (ru + 1 > bar.z => OT(ru).cst[0] > 0)
FillNarrow == ~On \/ LET o == OT(4).ow[0] IN
   /\ (bar.k = 3 => REq(o, 1))
   /\ (bar.k \in {0, 2} => (REq(o, 1) = (bar.z > 1 + bar.w / 20)) /\ Seen(IF REq(o, 1) THEN "overwash" ELSE "ontop"))
NothingBehind == ~On \/ (bar.k = 1 => REq(OT(4).ow[0], 0))
=============================================================================
