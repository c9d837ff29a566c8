------------------------------- MODULE MC_Twin ------------------------------
(* Two simulations of the same river mouth with other outputs and another   *)
(* end: morphology, and so the answers to the k-th step, are the same as    *)
(* long as the history is.                                                  *)
EXTENDS Clock
CONSTANTS Ends, Lo, Hi, Outs
VARIABLES end, out, resp, now, plan, hist, nxt, recs
vars == <<end, out, resp, now, plan, hist, nxt, recs>>
Two == {1, 2}
Init == /\ end \in [Two -> Ends] /\ end[1] <= end[2] /\ out \in [Two -> Outs] /\ resp = << >>
        /\ now = [i \in Two |-> 0] /\ plan = [i \in Two |-> Lo] /\ hist = [i \in Two |-> << >>]
        /\ nxt = out /\ recs = [i \in Two |-> {0}]
Step(i, d) ==
  LET k == Len(hist[i]) + 1
      p == Cut(plan[i], now[i], end[i])
      t == now[i] + Cut(d, now[i], end[i])
  IN /\ now[i] < end[i]
     /\ IF k <= Len(resp) THEN d = resp[k] /\ UNCHANGED resp ELSE resp' = Append(resp, d)
     /\ now' = [now EXCEPT ![i] = t] /\ plan' = [plan EXCEPT ![i] = Cut(d, now[i], end[i])]
     /\ hist' = [hist EXCEPT ![i] = Append(@, [t |-> t, p |-> p])]
     /\ nxt' = [nxt EXCEPT ![i] = IF Due(t, @) THEN @ + out[i] ELSE @]
     /\ recs' = [recs EXCEPT ![i] = IF Due(t, nxt[i]) THEN @ \cup {t} ELSE @]
     /\ UNCHANGED <<end, out>>
Next == \E i \in Two, d \in Lo..Hi : Step(i, d)
Spec == Init /\ [][Next]_vars
Upto(i) == IF now[i] < end[i] THEN Len(hist[i]) ELSE Len(hist[i]) - 1
\* the same steps, but for the last of each, which the end may have cut
SameSteps == \A k \in 1..Len(resp) : k <= Upto(1) /\ k <= Upto(2) => hist[1][k] = hist[2][k]
\* with the same end, whatever is recorded, the same to the end
SameRuns == end[1] = end[2] => \A k \in 1..Len(resp) : k <= Len(hist[1]) /\ k <= Len(hist[2]) => hist[1][k] = hist[2][k]
AtSteps == \A i \in Two : recs[i] \subseteq {0} \cup {hist[i][k].t : k \in 1..Len(hist[i])}
Reached == now[1] < end[1] \/ now[2] < end[2] \/ ((recs[1] # recs[2] => Say("SEEN", "other records")) /\ (end[1] # end[2] => Say("SEEN", "other end")))
=============================================================================
