------------------------------- MODULE Clock --------------------------------
(***************************************************************************)
(* Time in a simulation.  All times are seconds since its start.           *)
(*                                                                         *)
(* A step is made with a morphological timestep that is cut where it would *)
(* lead beyond the end.  Before, the hydraulics are run up to the end of   *)
(* the step as it was planned, in hydraulic timesteps (one at least).      *)
(* Morphology returns the timestep to go by and to plan the next step with.*)
(* Records are due at the start and then at every output interval; a step  *)
(* that reaches the time writes one, and the next is due one interval on.  *)
(***************************************************************************)
EXTENDS Arr
Min2(a, b) == IF b < a THEN b ELSE a
Cut(d, now, end) == Min2(d, end - now)
\* times the boundary conditions of a step from now over d are wanted for
HydTimes(now, d, hyd) ==
  LET k == Floor((d / hyd) + (1/1000000000))
  IN IF k = 0 THEN Full(1, now + d) ELSE V([j \in 0..(k-1) |-> now + (hyd * (j + 1))])
Due(now, next) == now >= next
\* the value at time t of a series given at times ts
Between(ts, vs, t) ==
  LET i == CHOOSE i \in Dom(ts) : ts[i] <= t /\ (i = Size(ts)-1 \/ ts[i+1] > t)
  IN IF i = Size(ts)-1 \/ REq(ts[i], t) THEN vs[i] / 1 ELSE vs[i] + ((vs[i+1] - vs[i]) * ((t - ts[i]) / (ts[i+1] - ts[i])))
AtTimes(ts, vs, tt) == V([k \in Dom(tt) |-> Between(ts, vs, tt[k])])
=============================================================================
