------------------------------- MODULE TrSwan -------------------------------
(* Conformance of preprocessing/WaveDataFromSwanOutput.py.                   *)
EXTENDS Tr, Swan
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l
\* written with three decimals
W3 == 6/10000
N3(a, b) == Near(a, b, 1/1000000, W3)
NearBearing(a, b) == LET d == Bearing((a - b) + 180) - 180 IN RAbs(d) <= W3 + (1/1000000)
RowPre(w, norm) == ~Onshore(Angle(w.dir, norm)) \/ (Turnable(Angle(w.dir, norm), KD(w.depth, w.len)) /\ RAbs(RAbs(Angle(w.dir, norm)) - (Pi/2)) > 1/1000000)
Still(w) == RAbs(w.xt) + RAbs(w.yt) <= 1/1000000
Clauses(e) ==
  IF "exc" \in DOMAIN e THEN [swan_Completes |-> FALSE]
  ELSE LET n == Len(e.rows)  o == e.out
           All(P(_)) == \A k \in 1..n : P(k)
           full == \A c \in {"t", "per", "len", "power", "dir", "hs"} : Size(o[c]) = n
       IN IF ~full THEN [swan_Rows |-> FALSE]
          ELSE [ swan_Rows |-> TRUE,
                 swan_Times |-> All(LAMBDA k : REq(o.t[k-1], e.rows[k].t)),
                 swan_Waves |-> All(LAMBDA k : N3(o.per[k-1], e.rows[k].per) /\ N3(o.len[k-1], e.rows[k].len)),
                 swan_Power |-> All(LAMBDA k : N3(o.power[k-1], Power(e.rows[k]))),
                 swan_From |-> All(LAMBDA k : Still(e.rows[k]) \/ NearBearing(o.dir[k-1], From(e.rows[k]))),
                 swan_Height |-> All(LAMBDA k : ~RowPre(e.rows[k], o.norm) \/ N3(o.hs[k-1], Offshore(e.rows[k], o.norm))),
                 swan_Loads |-> o.loaded.ok /\ VEq(o.loaded.t, o.t) /\ VEq(o.loaded.per, o.per) /\ VEq(o.loaded.len, o.len) /\ VEq(o.loaded.power, o.power) /\ VEq(o.loaded.hs, o.hs) ]
Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l+1] IN Report(e, FalseIn(Clauses(e)), e.op) /\ Tag(e, "swan")
Spec == Init /\ [][Next]_l
=============================================================================
