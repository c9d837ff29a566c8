------------------------------- MODULE TrCore -------------------------------
(* Conformance of core.main: whole simulations, step by step, with the      *)
(* other modules replaced by recorders that answer as scripted ("stub") or  *)
(* by recorders around the real ones ("real").                              *)
EXTENDS Tr, Core
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLES l, k, st      \* event, step of it, state of the simulation before that step
vars == <<l, k, st>>
E == Trace[l]
Steps == Len(E.out.steps)
Idle == [t |-> 0]
GivesUp == "no steady profile"   \* the unsteady and then the steady hydraulics did not converge: the simulation ends there

Whole(e) ==
  /\ Tag(e, e.op \o (IF \E j \in 1..Len(e.out.steps) : e.out.steps[j].uns.raised THEN " with fallback" ELSE "")
                 \o (IF \E j \in 1..Len(e.out.steps) : e.out.steps[j].mor.r.breach THEN " with breach" ELSE "")
                 \o (IF \E j \in 1..Len(e.out.steps) : e.out.steps[j].asm.r.closed THEN " with closure" ELSE ""))
  /\ (\A j \in 1..Len(e.out.steps) : Len(e.out.steps[j].wr) > 0) => Tag(e, "record every step")
Info(bad) == [step |-> k, t |-> st.t, why |-> E.out.raised, bad |-> E.out.bad]

Init == l = 1 /\ k = 0 /\ st = Idle
Skip == l' = l + 1 /\ k' = 0 /\ st' = Idle /\ Say("AT", [id |-> E.id])
Failed == k = 0 /\ "exc" \in DOMAIN E /\ Report(E, {"sim_clock_GoesOn"}, E.msg) /\ Skip
Start ==
  /\ k = 0 /\ "exc" \notin DOMAIN E /\ ~(E.out.raised = GivesUp /\ Len(E.out.start.sto) = 0)
  /\ LET f == FalseIn(StartClauses(E.out.start, E.cfg)) \cup (IF Size(E.out.bad) = 0 THEN {} ELSE {"step_dataflow_Parameters"})
              \cup (IF E.out.raised \in {"", GivesUp} THEN {} ELSE {"sim_clock_GoesOn"})
     IN Report(E, f, Info(f))
  /\ Whole(E)
  /\ l' = l /\ k' = 1 /\ st' = Started(E.out.start, E.cfg)
Step ==
  /\ k \in 1..Steps
  /\ LET r == E.out.steps[k]
         f == TLCEval(IF st.t >= E.cfg.end THEN {"sim_clock_End"} ELSE FalseIn(StepClauses(st, r, E.cfg)))
     IN /\ Report(E, f, Info(f))
        /\ IF f = {} THEN l' = l /\ k' = k + 1 /\ st' = After(st, r, E.cfg) ELSE Skip
End ==
  /\ k = Steps + 1 /\ k > 0 /\ "exc" \notin DOMAIN E
  /\ Report(E, IF ~E.out.cut /\ E.out.raised # GivesUp /\ ~REq(st.t, E.cfg.end) THEN {"sim_clock_End"} ELSE {}, Info({}))
  /\ Skip
NoStart == k = 0 /\ "exc" \notin DOMAIN E /\ E.out.raised = GivesUp /\ Len(E.out.start.sto) = 0 /\ Tag(E, "no steady profile at the start") /\ Skip
Next == l <= Len(Trace) /\ (Failed \/ NoStart \/ Start \/ Step \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
