----------------------------- MODULE Hydraulics -----------------------------
(***************************************************************************)
(* One-dimensional flow in the combined channel, and its bedload.          *)
(*                                                                         *)
(* A channel c has bed levels z, widths b, spacings dx (one fewer), off-   *)
(* line storage la and seepage length ll at each node, and the flag closed.*)
(***************************************************************************)
EXTENDS Arr

SteadyGrav == 981/100

----------------------------------------------------------------------------
(* Steady flow Q with downstream level ds.  The profile is not computed but *)
(* judged: h is a steady profile if every reach satisfies the energy        *)
(* equation to within tol, or the section is at critical depth because the  *)
(* reach has no subcritical solution.                                       *)
Crit(Q, b) == ((Q^2) / ((b^2) * SteadyGrav)) ^ (1/3)
Energy(z, h, v, beta) == z + h + (beta * v * v) / (2 * SteadyGrav)
Friction(h, v, n) == (v * v * n * n) / (h ^ (4/3))

\* energy imbalance of section i at depth y, given the section downstream
Imbalance(c, n, Q, beta, h, i, y) ==
  LET vd == Q / (c.b[i+1] * h[i+1])
      v  == Q / (c.b[i] * y)
  IN Energy(c.z[i], y, v, beta) - Energy(c.z[i+1], h[i+1], vd, beta)
     - (c.dx[i] / 2) * (Friction(y, v, n) + Friction(h[i+1], vd, n))

SteadyEnd(c, Q, ds, h) == LET N == Size(c.z) IN
  Near(h[N-1], RMax(ds - c.z[N-1], Crit(Q, c.b[N-1])), 1/1000000000, 1/1000000000)
SteadySection(c, n, Q, beta, tol, h, i) ==
  LET yc == Crit(Q, c.b[i])
      atc == Near(h[i], yc, 1/1000000000, 1/1000000000)
  IN \/ h[i] >= yc /\ RAbs(Imbalance(c, n, Q, beta, h, i, h[i])) <= tol * (1 + 1/1000000)
     \/ atc
\* critical depth although the energy equation has a deeper (subcritical) solution
NeedlesslyCritical(c, n, Q, beta, tol, h, i) ==
  LET yc == Crit(Q, c.b[i]) IN
  /\ Near(h[i], yc, 1/1000000000, 1/1000000000)
  /\ Imbalance(c, n, Q, beta, h, i, yc) < -(2 * tol)
SteadyVel(c, Q, h, v) == \A i \in Dom(h) : Near(v[i], Q / (c.b[i] * h[i]), 1/1000000000, 1/1000000000)
SteadyOK(c, n, Q, ds, beta, tol, h, v) ==
  /\ SteadyEnd(c, Q, ds, h) /\ SteadyVel(c, Q, h, v)
  /\ \A i \in 0..(Size(h)-2) : SteadySection(c, n, Q, beta, tol, h, i)

\* the profile itself, by Newton iteration from the level of the section downstream
RECURSIVE Newton(_, _, _, _, _, _, _, _, _)
Newton(c, n, Q, beta, tol, hd, i, y, left) ==
  LET A == (beta * Q^2) / (2 * SteadyGrav * c.b[i]^2)
      B == (c.dx[i] * Q^2 * n^2) / (2 * c.b[i]^2)
      h == [j \in {i, i+1} |-> IF j = i THEN y ELSE hd]
      err == Imbalance(c, n, Q, beta, h, i, y)
      \* a negative depth has no friction slope: the iteration ends there
      nan == y < 0 \/ IsNaN(err)
      g == 1 - (2 * A * y^(-3)) + (10/3) * (B * y^(-13/3))
  IN IF nan \/ RAbs(err) <= tol THEN [y |-> y, ok |-> TRUE]
     ELSE IF left <= 1 THEN [y |-> y, ok |-> FALSE]
     ELSE Newton(c, n, Q, beta, tol, hd, i, y - (err / g), left - 1)
RECURSIVE ProfileFrom(_, _, _, _, _, _, _, _, _)
ProfileFrom(c, n, Q, ds, beta, tol, maxit, i, acc) ==   \* acc: depths of i+1 ..
  IF i < 0 THEN [ok |-> TRUE, h |-> acc]
  ELSE LET hd == acc[0]
           vd == Q / (c.b[i+1] * hd)
           y0 == hd + c.z[i+1] - c.z[i] + Friction(hd, vd, n) * c.dx[i]
           r  == TLCEval(Newton(c, n, Q, beta, tol, hd, i, y0, maxit))
           y  == RMax(r.y, Crit(Q, c.b[i]))
       IN IF ~r.ok THEN [ok |-> FALSE, h |-> acc]
          ELSE ProfileFrom(c, n, Q, ds, beta, tol, maxit, i-1, TLCEval(Cat(Full(1, y), acc)))
Profile(c, n, Q, ds, beta, tol, maxit) ==
  LET N == Size(c.z) IN
  ProfileFrom(c, n, Q, ds, beta, tol, maxit, N-2, Full(1, RMax(ds - c.z[N-1], Crit(Q, c.b[N-1]))))

----------------------------------------------------------------------------
(* Unsteady flow: the Preissmann box scheme.  Cell length belonging to a    *)
(* node: half the reach on either side.                                     *)
Cell(c) == LET N == Size(c.z) IN
  V([i \in 0..(N-1) |-> ((IF i > 0 THEN c.dx[i-1] ELSE 0) + (IF i < N-1 THEN c.dx[i] ELSE 0)) / 2])
Surface(c) == LET cell == Cell(c) IN V([i \in Dom(c.z) |-> cell[i] * c.b[i] + c.la[i]])
Volume(c, h) == LET a == Surface(c) IN Sum([i \in Dom(h) |-> a[i] * h[i]])
\* through-barrier loss of reach i (m3/s): permeability x length x level above the sea
SeepLen(c, i) == (c.ll[i] + c.ll[i+1]) / 2
ReachSeep(c, perm, h, sea, i) ==
  perm * SeepLen(c, i) * (((c.z[i] + h[i] + c.z[i+1] + h[i+1]) / 2) - sea)
Seepage(c, perm, h, sea) == Sum([i \in Dom(c.dx) |-> ReachSeep(c, perm, h, sea, i)])

Mix(theta, new, old) == theta * new + (1 - theta) * old

\* volume balance of reach i over one step (m3); t = [h, v, sea] at each end of the step
Continuity(c, M, dt, t0, t1, i) ==
  LET be == V([k \in Dom(c.z) |-> c.b[k] + c.la[k] / M.cell[k]])
      vol(h) == (c.dx[i] / 2) * (h[i] * M.be[i] + h[i+1] * M.be[i+1])
      q(t, k) == t.v[k] * t.h[k] * c.b[k]
      net(t) == q(t, i+1) - q(t, i) + ReachSeep(c, M.perm, t.h, t.sea, i)
  IN vol(t1.h) - vol(t0.h) + dt * Mix(M.theta, net(t1), net(t0))
ContinuityScale(c, M, dt, t0, t1, i) ==
  LET q(t, k) == RAbs(t.v[k] * t.h[k] * c.b[k]) IN
  (c.dx[i] / 2) * (RAbs(t1.h[i]) * M.be[i] + RAbs(t1.h[i+1]) * M.be[i+1]) + dt * (q(t1,i) + q(t1,i+1) + q(t0,i) + q(t0,i+1))

\* momentum balance of reach i, as (discharge x length / 2)
Momentum(c, M, dt, t0, t1, i) ==
  LET A(t, k) == t.h[k] * c.b[k]
      Q(t, k) == t.v[k] * A(t, k)
      sf(t, k) == (t.v[k] * RAbs(t.v[k]) * M.n^2) / (t.h[k] ^ (4/3))
      s0 == (c.z[i] - c.z[i+1]) / c.dx[i]
      adv(t) == M.beta * (RAbs(t.v[i+1]) * Q(t, i+1) - RAbs(t.v[i]) * Q(t, i))
      prs(t) == (M.g / 2) * ((A(t, i) + A(t, i+1)) * (t.h[i+1] - t.h[i]))
      src(t) == (M.g / 2) * (c.dx[i] * (A(t, i) * (s0 - sf(t, i)) + A(t, i+1) * (s0 - sf(t, i+1))))
      net(t) == adv(t) + prs(t) - src(t)
  IN (c.dx[i] / 2) * (Q(t1, i) + Q(t1, i+1) - Q(t0, i) - Q(t0, i+1)) + dt * Mix(M.theta, net(t1), net(t0))
MomentumScale(c, M, dt, t0, t1, i) ==
  LET A(t, k) == t.h[k] * c.b[k]
      Q(t, k) == RAbs(t.v[k] * A(t, k))
      s0 == RAbs(c.z[i] - c.z[i+1]) / c.dx[i]
      sf(t, k) == ((t.v[k]^2) * M.n^2) / (t.h[k] ^ (4/3))
      one(t) == M.beta * (RAbs(t.v[i+1]) * Q(t, i+1) + RAbs(t.v[i]) * Q(t, i))
                + (M.g / 2) * ((A(t, i) + A(t, i+1)) * (t.h[i+1] + t.h[i]))
                + (M.g / 2) * (c.dx[i] * (A(t, i) * (s0 + sf(t, i)) + A(t, i+1) * (s0 + sf(t, i+1))))
  IN (c.dx[i] / 2) * (Q(t1, i) + Q(t1, i+1) + Q(t0, i) + Q(t0, i+1)) + dt * (one(t0) + one(t1))

----------------------------------------------------------------------------
(* Bedload by Meyer-Peter and Mueller, bulk volume, signed with the flow.   *)
NodeBedload(P, b, h, v) ==
  LET S == ((v^2) * P.GrainRoughness^2) / (h ^ (4/3))
      tau == P.RhoRiv * P.Gravity * h * S
      shields == tau / ((P.RhoSed - P.RhoRiv) * P.Gravity * P.GrainSize)
      ex == shields - P.CritShieldsStress
      q == IF ex > 0 THEN P.MPM_coef * ex ^ P.MPM_exp ELSE 0
      m == (q * b * Sqrt((P.RhoSed / P.RhoRiv - 1) * P.Gravity * P.GrainSize^3)) / (1 - P.VoidRatio)
  IN IF v < 0 THEN 0 - m ELSE m
Bedload(P, psi, b, h, v) ==
  LET nd == V([i \in Dom(b) |-> NodeBedload(P, b[i], h[i], v[i])])
  IN V([i \in 0..(Size(b)-2) |-> (1 - psi) * nd[i] + psi * nd[i+1]])
=============================================================================
