------------------------------- MODULE MC_Swan ------------------------------
(* A wave comes in from deep water and goes on over any depths, keeping its   *)
(* period, and its energy between two rays.  Wherever it is looked at, what   *)
(* Swan makes of it is the wave that set out.                                 *)
EXTENDS Swan
CONSTANTS KDs, Angles, Periods, Norm, Seed
VARIABLES wave, at, from
vars == <<wave, at, from>>
KDs_quick == {5/1, 2/1, 1/1, 1/2, 1/4, 1/8}
KDs_thorough == {8/1, 5/1, 3/1, 2/1, 3/2, 1/1, 3/4, 1/2, 3/8, 1/4, 3/16, 1/8, 1/16}
Angles_quick == {0, 30, -30, 75, -75, 10}
Angles_thorough == {5 * k : k \in -16..16}
Deep == 40/1                   \* as good as infinitely deep
None == [none |-> TRUE]
SeaLen(T) == ((981/100) * T * T) / (2 * Pi)
Init == wave = None /\ at = 0/1 /\ from = None
\* waves setting out: height 2, at an angle (whole degrees) to the coast, or going offshore
SetOut == /\ wave = None
          /\ \E a \in Angles, T \in Periods :
               LET L == SeaLen(T) IN
               /\ from' = [hs |-> 2, a |-> a, T |-> T]
               /\ wave' = [hs |-> 2, dir |-> Norm - a, len |-> L, depth |-> (L * Deep) / (2 * Pi)]
               /\ at' = Deep
\* to another depth: as much energy flows between two rays, and crests keep meeting along the coast
Go == /\ wave # None
      /\ \E kd \in KDs :
           LET L1 == SeaLen(from.T) * Tanh(kd)
               s1 == Sin(Rad(Norm - wave.dir))
               a1 == Asin(s1 * (L1 / wave.len))
               flux(h, k, len, a) == h * h * Ratio(k) * len * Cos(a)
               h1 == Sqrt(flux(wave.hs, at, wave.len, Rad(Norm - wave.dir)) / (Ratio(kd) * L1 * Cos(a1)))
           IN wave' = [hs |-> h1, dir |-> Norm - (a1 * (180 / Pi)), len |-> L1, depth |-> (L1 * kd) / (2 * Pi)] /\ at' = kd
      /\ UNCHANGED from
Next == SetOut \/ Go
Spec == Init /\ [][Next]_vars
Is == wave # None
Close(a, b) == Near(a, b, 1/1000000, 1/1000000)
LooksBack == Is => Close(Offshore(wave, Norm), from.hs)
AngleBack == Is => Close(SeaAngle(Angle(wave.dir, Norm), KD(wave.depth, wave.len)), Rad(from.a))
\* waves turn towards the coast as it gets shallower, and shoal
Refracts == Is => RAbs(Angle(wave.dir, Norm)) <= RAbs(Rad(from.a)) + (1/1000000)
NothingBack == Is => REq(Offshore([wave EXCEPT !.dir = (Norm + 180) - from.a], Norm), 0)
SeaIsSea == (Is /\ REq(at, Deep)) => Close(Offshore(wave, Norm), wave.hs)
\* energy comes from where its transport points away from
FromWhere == \A x \in -1..1, y \in -1..1 : (x # 0 \/ y # 0) =>
  LET w == [xt |-> x, yt |-> y]  f == From(w) IN f >= 0 /\ f < 360 /\ Close(Sin(Rad(f)) * Sqrt((x * x) + (y * y)), -x) /\ Close(Cos(Rad(f)) * Sqrt((x * x) + (y * y)), -y)
Mark == IF ~Is THEN "none" ELSE IF REq(at, Deep) THEN "deep" ELSE IF at >= 1 THEN "between" ELSE "shallow"
Emitted == Say("SEEN", Mark) /\ (~Is \/ Say("SCN", [hs |-> wave.hs, dir |-> wave.dir, len |-> wave.len, depth |-> wave.depth, per |-> from.T]))
View == <<at, from>>
=============================================================================
