------------------------------- MODULE MC_Cli -------------------------------
(* Runs of two configurations, quiet and verbose and neither and both, that  *)
(* tell things at every level, and fail or not: every history of them.       *)
EXTENDS Cli
CONSTANTS Depth, Emit
VARIABLES log, console, hist
vars == <<log, console, hist>>
Cfgs == {"a", "b"}
Levels == {Debug, Information, Warn}
Init == log = [c \in Cfgs |-> << >>] /\ console = << >> /\ hist = << >>
\* what a run tells: its number and the level make every message different
Told(n, ls) == [k \in 1..Len(ls) |-> [level |-> ls[k], n |-> n, k |-> k]]
Run_(c, q, v, ls) ==
  LET heard == Heard(Told(Len(hist) + 1, ls), Threshold(q, v)) IN
  /\ Len(hist) < Depth
  /\ log' = [log EXCEPT ![c] = @ \o heard]
  /\ console' = heard
  /\ hist' = Append(hist, [c |-> c, q |-> q, v |-> v, ls |-> ls])
Next == \E c \in Cfgs, q, v \in BOOLEAN, ls \in UNION {[1..n -> Levels] : n \in 0..2} : Run_(c, q, v, ls)
Spec == Init /\ [][Next]_vars
Is_(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* nothing in a log is lost, and a run adds to the log of its configuration only
Appends == [][\A c \in Cfgs : Is_(log[c], log'[c]) /\ (c # hist'[Len(hist')].c => log'[c] = log[c])]_vars
Sound == hist = << >> \/
  LET h == hist[Len(hist)]  own == log[h.c] IN
  /\ Is_(console, SubSeq(own, Len(own) - Len(console) + 1, Len(own)))
  /\ (h.q => \A k \in 1..Len(console) : console[k].level = Warn)
  /\ (h.v /\ ~h.q => Len(console) = Len(h.ls))
  \* warnings are always heard
  /\ Len(Heard(console, Warn)) = Cardinality({k \in 1..Len(h.ls) : h.ls[k] = Warn})
  /\ Within(console, Told(Len(hist), h.ls))
  /\ (h.q /\ h.v => Say("SEEN", "both")) /\ (console = << >> /\ h.ls # << >> => Say("SEEN", "silent")) /\ (Len(hist) > 1 /\ hist[1].c = h.c => Say("SEEN", "again"))
\* progress, over every way the steps may fall
Times == {V([k \in 0..(Cardinality(S)-1) |-> Asc(S)[k]]) : S \in (SUBSET (1..6)) \ {{}}}
Steady == hist # << >> \/ \A t \in Times, int \in 1..4 : LET p == Progress(t, 0, int, int) IN
  /\ \A k \in 1..Len(p) : p[k] >= k * int
  /\ (\A k \in 1..(Size(t)-1) : t[k] - t[k-1] <= int) /\ t[0] <= int => Len(p) = (t[Size(t)-1] \div int)
Emitted == hist = << >> \/ Len(hist) < Depth \/ (Len(hist[1].ls) + 3 * Len(hist[Len(hist)].ls) + Cardinality({k \in 1..Len(hist) : hist[k].q}) * 5 + Cardinality({k \in 1..Len(hist) : hist[k].v}) * 7) % Emit # 0
           \/ (\E k \in 1..Len(hist) : hist[k].ls # << >>) \/ Say("SCN", [runs |-> [k \in 1..Len(hist) |-> [c |-> hist[k].c, q |-> hist[k].q, v |-> hist[k].v]]])
=============================================================================
