------------------------------ MODULE MC_Hear -------------------------------
(* The morphological steps of MC_Morph: a step in which there is nothing to  *)
(* tell is one in which nothing happens but the movement that the rates give *)
(* to every landform, and no change of the layout goes untold.               *)
EXTENDS MC_Morph, Hear
\* (the end of a relic outlet that no longer leads anywhere is forgotten without a word)
Alike(a, b) == /\ \A w \in {"y0", "y1", "y2", "y3", "y4", "z0", "z1", "z2", "z3", "rz"} : \A j \in Dom(a[w]) : REq(a[w][j], b[w][j]) \/ (IsNaN(a[w][j]) /\ IsNaN(b[w][j]))
               /\ (REq(a.e[0], b.e[0]) \/ (I.closed /\ IsNaN(a.e[0]))) /\ REq(a.e[1], b.e[1]) /\ REq(a.ew, b.ew) /\ REq(a.ee, b.ee)
Untouched == ~On \/ ~Uneventful(Rs) \/ ((\A m \in Rs.m : Alike(m, KeepInside(Ad.m))) /\ Say("SEEN", "uneventful"))
NoneUntold == ~On \/ \A m \in Rs.m : (Present(m) # Present(SS) \/ ~REq(m.e[0], SS.e[0])) => (Happenings(Rs) > 0 \/ I.closed)
Departs == ~On \/ (LET d == Departures(Ad, Rs, Tm) IN
  /\ (\A k \in d : k > 0) \/ (Fastest(R) * Tm.lo <= Tm.maxchg \/ Fastest(R) * 60 <= Tm.maxchg)
  /\ (\E k \in Rs.moved : k > 0) => (Rs.breach /\ Say("SEEN", "moved"))
  /\ Ad.fast * Ad.dt > Tm.maxchg => Say("SEEN", "limited"))
=============================================================================
