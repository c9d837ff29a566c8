--------------------------- MODULE MC_Hydraulics ---------------------------
(***************************************************************************)
(* Small channels of N sections: stepped beds, two widths, offline storage *)
(* on one section, seeping or tight barrier; steady discharges and levels; *)
(* arbitrary pairs of depths and velocities for the identities.            *)
(***************************************************************************)
EXTENDS Hydraulics
CONSTANTS N, Every, Seed
VARIABLES zi, bi, st, qi, di, ph
vars == <<zi, bi, st, qi, di, ph>>
Ix == 0..(N-1)
Bed == {0, 1, 3}
Wid == {1, 2}
C == [ z |-> V([i \in Ix |-> (zi[i] * (3/10)) - 2]), b |-> V([i \in Ix |-> bi[i] * 25]), dx |-> Full(N-1, 20),
       la |-> V([i \in Ix |-> IF i = st THEN 5000 ELSE 0]), ll |-> V([i \in Ix |-> IF i = st THEN 60 ELSE 20]), closed |-> FALSE ]
Q == CASE qi = 0 -> 5 [] qi = 1 -> 60 [] qi = 2 -> 300
Ds == CASE di = 0 -> -15/10 [] di = 1 -> 0 [] di = 2 -> 12/10
Tol == 1/1000000
Man == 3/100
RECURSIVE Pow(_, _)
Pow(b, i) == IF i = 0 THEN 1 ELSE b * Pow(b, i-1)
Hash == qi + 3*di + 11*st + SumOver(Ix, LAMBDA i : (zi[i] * Pow(7, i)) + (bi[i] * Pow(5, i)))
Init == zi = [i \in Ix |-> 0] /\ bi = [i \in Ix |-> 1] /\ st = 0 /\ qi = 0 /\ di = 0 /\ ph = 0
Shape == ph = 0 /\ ph' = 1 /\ zi' \in [Ix -> Bed] /\ UNCHANGED <<bi, st, qi, di>>
Load == /\ ph = 1 /\ ph' = 2 /\ bi' \in [Ix -> Wid] /\ st' \in Ix /\ qi' \in 0..2 /\ di' \in 0..2 /\ UNCHANGED zi
        /\ (Every > 0 /\ ((Hash' + Seed) % Every = 0)) =>
             Say("SCN", [c |-> C', n |-> Man, q |-> Q', ds |-> Ds', beta |-> 1, tol |-> Tol, maxit |-> 30])
Next == Shape \/ Load
Spec == Init /\ [][Next]_vars
On == ph = 2
Pr == TLCEval(Profile(C, Man, Q, Ds, 1, Tol, 60))
Vel(h) == V([i \in Dom(h) |-> Q / (C.b[i] * h[i])])
Seen(x) == Say("SEEN", x)

\* the profile found by iteration is one the judge accepts, and the judge knows critical depth from laziness
ProfileJudged == ~On \/ LET p == Pr IN ~p.ok \/
   /\ SteadyOK(C, Man, Q, Ds, 1, Tol, p.h, Vel(p.h))
   /\ (Hash % 97 = 0 => (IF \E i \in Dom(p.h) : Near(p.h[i], Crit(Q, C.b[i]), Tol, Tol) THEN Seen("critical") ELSE Seen("flow")))
Subcritical == ~On \/ LET p == Pr IN ~p.ok \/ \A i \in Dom(p.h) :
   (Q / (C.b[i] * p.h[i]))^2 <= SteadyGrav * p.h[i] * (1 + 1/1000000)

\* any two states of the channel: reach balances add up to the balance of the whole
D0 == V([i \in Ix |-> 1 + (bi[i] / 3) + (zi[i] / 7)])
D1 == V([i \in Ix |-> 1 + (zi[i] / 5) + ((i * bi[i]) / 9)])
W0 == V([i \in Ix |-> (bi[i] - 3/2) / 2])
W1 == V([i \in Ix |-> (zi[i] / 4) - 1/3])
M(perm) == [theta |-> 7/10, beta |-> 1, n |-> Man, g |-> SteadyGrav, perm |-> perm, cell |-> Cell(C)]
Telescopes == ~On \/ \A perm \in {0, 1/500} :
  LET m == [M(perm) EXCEPT !.n = Man]  t0 == [h |-> D0, v |-> W0, sea |-> Ds]  t1 == [h |-> D1, v |-> W1, sea |-> Ds + 1/10]
      mm == [theta |-> m.theta, beta |-> 1, n |-> Man, g |-> SteadyGrav, perm |-> perm, cell |-> m.cell,
             be |-> V([i \in Ix |-> C.b[i] + (C.la[i] / m.cell[i])])]
      q(t, i) == t.v[i] * t.h[i] * C.b[i]
      net(t) == q(t, 0) - q(t, N-1) - Seepage(C, perm, t.h, t.sea)
      all == Sum([i \in 0..(N-2) |-> Continuity(C, mm, 30, t0, t1, i)])
      \* half cells at the two ends: their storage belongs to one reach only
      whole == Volume(C, D1) - Volume(C, D0) - 30 * Mix(7/10, net(t1), net(t0))
  IN Near(all, whole, 1/1000000000, 1/1000000)
\* still water stays still (tight barrier, or the lagoon at sea level)
PoolRests == ~On \/ LET lev == Ds + 3  h == V([i \in Ix |-> lev - C.z[i]])  v == Full(N, 0)
      mm(perm) == [theta |-> 7/10, beta |-> 1, n |-> Man, g |-> SteadyGrav, perm |-> perm, cell |-> Cell(C),
                   be |-> LET cl == Cell(C) IN V([i \in Ix |-> C.b[i] + (C.la[i] / cl[i])])]
      t(sea) == [h |-> h, v |-> v, sea |-> sea]
  IN /\ \A i \in 0..(N-2) : RAbs(Continuity(C, mm(0), 30, t(Ds), t(Ds), i)) < Tol /\ RAbs(Momentum(C, mm(0), 30, t(Ds), t(Ds), i)) < Tol
     /\ \A i \in 0..(N-2) : RAbs(Continuity(C, mm(1/100), 30, t(lev), t(lev), i)) < Tol
     /\ (Hash % 97 = 0 => Seen("pool"))
\* water leaves through the barrier when the lagoon is above the sea, and comes in when it is below
SeaPull == ~On \/ LET h == V([i \in Ix |-> Ds + 1 - C.z[i]]) IN
   Seepage(C, 1/100, h, Ds) > 0 /\ Seepage(C, 1/100, h, Ds + 2) < 0 /\ Near(Seepage(C, 1/100, h, Ds + 1), 0, 0, Tol)

BP == [GrainRoughness |-> 25/1000, RhoRiv |-> 1000, RhoSed |-> 2650, Gravity |-> SteadyGrav, GrainSize |-> 2/100,
       CritShieldsStress |-> 1/25, MPM_coef |-> 8, MPM_exp |-> 3/2, VoidRatio |-> 3/10]
Vs == {-6, -2, -1, 1, 2, 4, 8}   \* in half metres per second
BedloadSigned == ~On \/ \A v \in Vs : LET q == NodeBedload(BP, C.b[0], D0[0], v / 2) IN
   /\ (v > 0 => q >= 0) /\ (v < 0 => q <= 0) /\ REq(q, 0 - NodeBedload(BP, C.b[0], D0[0], 0 - (v / 2)))
   /\ (Hash % 97 = 0 /\ v > 0 /\ REq(q, 0) => Seen("threshold"))
BedloadGrows == ~On \/ \A v \in {1, 2, 4, 8} : \A w \in {1, 2, 4, 8} : v <= w =>
   NodeBedload(BP, C.b[0], D0[0], v / 2) <= NodeBedload(BP, C.b[0], D0[0], w / 2)
=============================================================================
