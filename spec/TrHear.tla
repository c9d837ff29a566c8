------------------------------- MODULE TrHear -------------------------------
(* Conformance of what the model tells: e.out.warned counts the warnings,   *)
(* e.out.told the messages of at least the level of information, that were  *)
(* given while the stage e.what of the model ran.                           *)
EXTENDS Tr, Hear
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l

\* too close to call
Doubtful(a, T) == Near(a.fast * a.dt, T.maxchg, 1/1000000000, 1/1000000)
MorphClauses(e) ==
  LET a == TLCEval(Advance(e.s, e.i, e.p, e.t))
      r == TLCEval(Resolve(e.s, a.m, e.i, e.p))
      d == Departures(a, r, e.t)
      info == e.out.told - e.out.warned
  IN [ v |-> [ tells_Warned |-> Doubtful(a, e.t) \/ \E k \in d : e.out.warned >= k,
               tells_WarnedOnly |-> Doubtful(a, e.t) \/ (\E k \in d : k > 0) \/ e.out.warned = 0,
               tells_Events |-> info >= Happenings(r),
               tells_EventsOnly |-> ~Uneventful(r) \/ info = 0 ],
       tag |-> (IF a.fast * a.dt > e.t.maxchg THEN " limited" ELSE "") \o (IF "edge" \in r.tags THEN " edge" ELSE "") \o (IF \E k \in r.moved : k > 0 THEN " moved" ELSE "")
               \o (IF r.breach THEN " breach" ELSE "") \o (IF r.held THEN " held" ELSE "") \o (IF "levelled" \in r.tags THEN " levelled" ELSE "") \o (IF Uneventful(r) THEN " uneventful" ELSE "")  ]
SteadyClauses(e) ==
  LET n == Cardinality(Critical(e.c, e.q, e.out.h)) IN
  [ v |-> [ tells_Critical |-> n = 0 \/ e.out.warned > 0,
            tells_CriticalOnly |-> n > 0 \/ e.out.warned = 0 ],
    tag |-> IF n > 0 THEN " critical" ELSE "" ]
\* change beyond what iterations of at most wtol each could make
Jumps(e) == LET t == (e.maxit * (e.wtol + e.vmin)) + e.tol IN
  \E i \in Dom(e.h0) : RAbs(e.out.h[0][i] - e.h0[i]) > t \/ RAbs(e.out.v[0][i] - e.v0[i]) > t
UnsteadyClauses(e) ==
  LET stdy == e.expect = "steady"  jump == Jumps(e) IN
  [ v |-> [ tells_Fallback |-> ~stdy \/ e.out.warned > 0,
            tells_Jump |-> ~jump \/ e.out.warned > 0,
            tells_UnsteadyOnly |-> e.expect # "unsteady" \/ e.wtol < 1000 \/ e.out.warned = 0 ],
    tag |-> " " \o e.expect \o (IF jump THEN " jump" ELSE "") ]
AssembleClauses(e) ==
  LET shut == ~e.s.closed /\ e.out.closed IN
  [ v |-> [ tells_Closure |-> ~shut \/ e.out.told - e.out.warned > 0,
            tells_ClosureOnly |-> shut \/ e.out.told = 0 ],
    tag |-> IF shut THEN " closure" ELSE "" ]
CoreClauses(e) ==
  LET n == Cardinality({k \in 1..Len(e.out.steps) : e.out.steps[k].uns.raised}) IN
  [ v |-> [ tells_Failure |-> e.out.warned >= n, tells_FailureOnly |-> n > 0 \/ e.out.warned = 0 ], tag |-> IF n > 0 THEN " fails" ELSE "" ]
Judged(e) == CASE e.what = "morph" -> MorphClauses(e) [] e.what = "steady" -> SteadyClauses(e) [] e.what = "unsteady" -> UnsteadyClauses(e)
               [] e.what = "assemble" -> AssembleClauses(e) [] e.what = "stub" -> CoreClauses(e)
Skip(e) == "exc" \in DOMAIN e \/ (e.what = "morph" /\ ~MorphPre(e.s, e.i, e.p))
Judge(e) == IF Skip(e) THEN Tag(e, e.what \o ": not to be judged") ELSE LET j == TLCEval(Judged(e)) IN Report(e, FalseIn(j.v), [w |-> e.out.warned, t |-> e.out.told, j |-> j.tag]) /\ Tag(e, e.what \o j.tag)
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l+1])
Spec == Init /\ [][Next]_l
=============================================================================
