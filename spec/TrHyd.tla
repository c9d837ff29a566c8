------------------------------- MODULE TrHyd -------------------------------
(* Conformance of riv.solveSteady / solveFullPreissmann / calcBedload.      *)
EXTENDS Tr, Hydraulics
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l

Pos(f) == \A i \in Dom(f) : f[i] > 0

SteadyClauses(e) ==
  LET c == e.c  a == TLCEval(Profile(c, e.n, e.q, e.ds, e.beta, e.tol, e.maxit)) IN
  IF "exc" \in DOMAIN e THEN [steady_profile_Completes |-> ~Profile(c, e.n, e.q, e.ds, e.beta, e.tol, e.maxit - 2).ok]
  ELSE LET h == e.out.h v == e.out.v IN
  IF ~(Size(h) = Size(c.z) /\ Size(v) = Size(c.z)) THEN [steady_profile_Shape |-> FALSE]
  ELSE [ steady_profile_End |-> SteadyEnd(c, e.q, e.ds, h),
         steady_profile_Discharge |-> SteadyVel(c, e.q, h, v),
         steady_profile_Energy |-> \A i \in 0..(Size(h)-2) : SteadySection(c, e.n, e.q, e.beta, e.tol, h, i),
         steady_profile_Depth |-> ~a.ok \/ \A i \in Dom(h) : Near(h[i], a.h[i], 1/1000000000, 1000 * e.tol + 1/1000000000),
         steady_profile_Pure |-> e.mut = << >> ]

\* water that stands still at the start of a step is given a token velocity
Stir(v, vmin) == V([i \in Dom(v) |-> IF REq(v[i], 0) THEN vmin ELSE v[i]])
\* one step of a call: t0 -> t1; the iteration stops when no unknown moves by tol any more
StepClauses(e, k, M) ==
  LET c == e.c
      t0 == [h |-> IF k = 1 THEN V([i \in Dom(e.h0) |-> IF e.h0[i] <= 0 THEN e.vmin ELSE e.h0[i]]) ELSE e.out.h[k-2], v |-> Stir(IF k = 1 THEN e.v0 ELSE e.out.v[k-2], e.vmin),
             sea |-> IF k = 1 THEN c.z[Size(c.z)-1] + e.h0[Size(c.z)-1] ELSE e.ds[k-2]]
      \* a section whose velocity comes out as nothing is given a token velocity once the step is solved
      t1 == [h |-> e.out.h[k-1], sea |-> e.ds[k-1],
             v |-> V([i \in Dom(e.out.v[k-1]) |-> IF REq(e.out.v[k-1][i], e.vmin) THEN 0 ELSE e.out.v[k-1][i]])]
      N == Size(c.z)
      slack == e.slack
  IN [ shape |-> Size(t1.h) = N /\ Size(t1.v) = N,
       up |-> Near(t1.h[0] * t1.v[0] * c.b[0], e.q[k-1], slack, slack),
       down |-> IF c.closed THEN RAbs(t1.v[N-1]) <= 2 * e.vmin
                ELSE Near(t1.h[N-1] + c.z[N-1], e.ds[k-1], slack, slack),
       mass |-> \A i \in 0..(N-2) : RAbs(Continuity(c, M, e.dt, t0, t1, i)) <= slack * ContinuityScale(c, M, e.dt, t0, t1, i),
       mom |-> \A i \in 0..(N-2) : RAbs(Momentum(c, M, e.dt, t0, t1, i)) <= slack * MomentumScale(c, M, e.dt, t0, t1, i),
       steady |-> SteadyOK(c, e.n, e.q[k-1], e.ds[k-1], e.beta, e.tol, t1.h, t1.v),
       \* whole channel: storage change = inflow - outflow - seepage
       balance |-> LET q(t, i) == t.v[i] * t.h[i] * c.b[i]
                       net(t) == q(t, 0) - q(t, N-1) - Seepage(c, e.perm, t.h, t.sea)
                       dv == Volume(c, t1.h) - Volume(c, t0.h)
                   IN Near(dv, e.dt * Mix(e.theta, net(t1), net(t0)), 0,
                           slack * (Volume(c, V([i \in Dom(t1.h) |-> RAbs(t1.h[i])])) + e.dt * (RAbs(net(t0)) + RAbs(net(t1))))) ]

UnsteadyClauses(e) ==
  IF "exc" \in DOMAIN e THEN [unsteady_solution_Completes |-> /\ e.expect = "either"
         /\ \E k \in Dom(e.q) : ~Profile(e.c, e.n, e.q[k], e.ds[k], e.beta, e.tol, e.maxit - 2).ok]
  ELSE
  LET c == e.c
      M == TLCEval([theta |-> e.theta, beta |-> e.beta, n |-> e.n, g |-> e.g, perm |-> e.perm, cell |-> Cell(c),
            be |-> LET cl == Cell(c) IN V([i \in Dom(c.z) |-> c.b[i] + c.la[i] / cl[i]])])
      K == Size(e.out.h)
      st == TLCEval([k \in 1..K |-> StepClauses(e, k, M)])
      unst(k) == st[k].up /\ st[k].down /\ st[k].mass /\ st[k].mom
      free == e.expect = "either"
      stdy == e.expect = "steady"
  IN IF \E k \in 1..K : ~st[k].shape THEN [unsteady_solution_Shape |-> FALSE]
     ELSE IF stdy THEN [ unsteady_solution_Fallback |-> \A k \in 1..K : st[k].steady,
                         unsteady_solution_Pure |-> e.mut = << >> ]
     ELSE IF free THEN [ unsteady_solution_Either |-> \A k \in 1..K : unst(k) \/ st[k].steady,
                         unsteady_solution_Pure |-> e.mut = << >>,
                         water_balance_Either |-> \A k \in 1..K : st[k].balance \/ st[k].steady ]
     ELSE [ unsteady_solution_Inflow |-> \A k \in 1..K : st[k].up,
            unsteady_solution_Downstream |-> \A k \in 1..K : st[k].down,
            unsteady_solution_Continuity |-> \A k \in 1..K : st[k].mass,
            unsteady_solution_Momentum |-> \A k \in 1..K : st[k].mom,
            unsteady_solution_Depths |-> \A k \in 1..K : Pos(e.out.h[k-1]),
            unsteady_solution_Pure |-> e.mut = << >>,
            water_balance_Storage |-> \A k \in 1..K : st[k].balance ]

BedloadClauses(e) ==
  IF "exc" \in DOMAIN e THEN [bedload_Completes |-> FALSE]
  ELSE [ bedload_Rate |-> VEq(e.out.qs, Bedload(e.p, e.psi, e.b, e.h, e.v)), bedload_Pure |-> e.mut = << >> ]

ClausesOf(e) == CASE e.op = "steady" -> SteadyClauses(e)
                  [] e.op = "unsteady" -> UnsteadyClauses(e)
                  [] e.op = "bedload" -> BedloadClauses(e)

Cover(e) ==
  CASE e.op = "steady" /\ "exc" \notin DOMAIN e /\ Size(e.out.h) = Size(e.c.z) ->
         Tag(e, IF \E i \in Dom(e.out.h) : Near(e.out.h[i], Crit(e.q, e.c.b[i]), 1/1000000000, 1/1000000000)
                THEN "steady with critical sections" ELSE "steady subcritical")
    [] e.op = "steady" /\ "exc" \in DOMAIN e -> Tag(e, "steady gives up")
    [] e.op = "unsteady" -> Tag(e, "unsteady " \o e.expect \o (IF e.c.closed THEN " closed" ELSE " open")
                                   \o (IF e.perm > 0 THEN " seeping" ELSE "") \o (IF Sum(e.c.la) > 0 THEN " storage" ELSE ""))
    [] OTHER -> TRUE

Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l+1] IN Report(e, FalseIn(ClausesOf(e)), e.op) /\ Cover(e)
Spec == Init /\ [][Next]_l
=============================================================================
