------------------------------- MODULE TrTwin -------------------------------
(* Two simulations that have to go the same way.  A history is a sequence   *)
(* of steps [t, x, y]: time before the step, everything the step starts     *)
(* from, and everything it ends with (exact values, as fingerprints).       *)
EXTENDS Tr
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l
Equal(p, q) == REq(p.t, q.t) /\ p.x = q.x /\ p.y = q.y
Agree(a, b, n) == \A k \in 1..n : k <= Len(a) /\ k <= Len(b) => Equal(a[k], b[k])
\* records both have of the same time tell the same
Times(r) == {r[k].t : k \in 1..Len(r)}
RecAt(r, t) == r[CHOOSE k \in 1..Len(r) : REq(r[k].t, t)]
SameRecords(a, b, until) == \A t \in Times(a) : t < until /\ (\E k \in 1..Len(b) : REq(b[k].t, t)) => RecAt(a, t).y = RecAt(b, t).y
Min(a, b) == IF a < b THEN a ELSE b
Clauses(e) ==
  LET a == e.out.a.steps  b == e.out.b.steps  n == Len(a)
      horizon == CASE e.what = "end" -> Min(Len(a), Len(b)) - 1
                   [] e.what = "forcing" -> Cardinality({k \in 1..n : a[k].t + e.reach <= e.from})
                   [] OTHER -> IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      until == IF horizon < n THEN a[horizon + 1].t ELSE 1000000000
  IN [ reproducibility_Steps |-> Agree(a, b, horizon) /\ (e.what \in {"end", "forcing"} \/ Len(a) = Len(b)) /\ (e.what # "forcing" \/ Len(b) >= horizon),
       reproducibility_Records |-> SameRecords(e.out.a.recs, e.out.b.recs, until),
       reproducibility_Outcome |-> e.what \in {"end", "forcing"} \/ e.out.a.raised = e.out.b.raised,
       reproducibility_Completes |-> e.out.a.raised \in {"", "no steady profile"} ]
Judge(e) ==
  IF "exc" \in DOMAIN e THEN Report(e, {"reproducibility_Completes"}, e.msg)
  ELSE IF e.out.noise THEN Tag(e, "singular matrix: outside the domain")
  ELSE /\ Report(e, FalseIn(Clauses(e)), [na |-> Len(e.out.a.steps), nb |-> Len(e.out.b.steps), ra |-> e.out.a.raised, rb |-> e.out.b.raised])
       /\ Tag(e, e.what \o (IF e.plots THEN " with plots" ELSE "")) /\ (Len(e.out.a.steps) > 60 => Tag(e, "more than 60 steps"))
       /\ (e.what = "forcing" /\ Cardinality({k \in 1..Len(e.out.a.steps) : e.out.a.steps[k].t + e.reach <= e.from}) > 5 => Tag(e, "forcing: more than 5 steps before the change"))
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l+1])
Spec == Init /\ [][Next]_l
=============================================================================
