-------------------------------- MODULE Hear --------------------------------
(***************************************************************************)
(* What the model tells of what it does, beside its results: a warning for  *)
(* everything that departs from what its equations give, and information    *)
(* about everything that changes the layout of the landforms.               *)
(***************************************************************************)
EXTENDS Morph
H == INSTANCE Hydraulics

\* kinds of events of a morphological step that change the layout
Changes == {"cliff", "levelled", "extend", "holdfirst", "lagoonend", "seaend", "holdlast", "intolagoon", "intosea", "mend"}
\* departures from the equations: change cut to its limit, the mouth held at the edge, a landform moved for a breach
Departures(a, r, T) == {(IF a.fast * a.dt > T.maxchg THEN 1 ELSE 0) + (IF "edge" \in r.tags THEN 1 ELSE 0) + k : k \in r.moved}
\* least number of things to be told
Happenings(r) == Cardinality(r.tags \cap Changes) + (IF r.breach THEN 1 ELSE 0) + (IF r.held THEN 1 ELSE 0)
\* a step in which there is nothing to tell
Uneventful(r) == r.tags \subseteq {"edge"} /\ ~r.breach /\ ~r.held /\ ~r.spilling

\* sections of a steady profile (but the last) at which the energy equation has no solution, or only one below critical depth
Critical(c, Q, h) == {i \in 0..(Size(h)-2) : Near(h[i], H!Crit(Q, c.b[i]), 1/1000000000, 1/1000000000)}
=============================================================================
