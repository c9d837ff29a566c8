------------------------------ MODULE TrCoast -------------------------------
(* Conformance of coast.longShoreTransport / runup / overtopping.           *)
EXTENDS Tr, Coast
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l

LSTClauses(e) ==
  LET o == e.out.lst  y0 == e.s.y0  W == e.w  P == e.p  n == Size(y0)
      want == TLCEval(LST(P, W, y0))
      a(i) == LocalDir(y0, P.Dx, W.dir, i)
      defd(i) == RAbs(Sin(a(i)) * Refraction(P, W)) <= 1
      ok(i) == ~defd(i) \/ Near(o[i], want[i], RT, AT)
  IN IF Size(o) # n-1 THEN [longshore_transport_Size |-> FALSE]
     ELSE [ longshore_transport_Formula |-> \A i \in Dom(o) : ok(i),
            longshore_transport_Direction |-> \A i \in Dom(o) : defd(i) =>
               IF Offshore(a(i)) THEN REq(o[i], 0) ELSE (a(i) > 0 => o[i] <= 0) /\ (a(i) < 0 => o[i] >= 0),
            longshore_transport_Pure |-> e.mut = << >> ]
OTClauses(e) ==
  LET o == e.out  s == e.s  P == e.p  W == e.w
      ru == Runup(W.period, W.hs, P.BeachSlope)
      want == TLCEval(Overtopping(P, s, ru, W.sea))
      line(i) == (CrestW(s, i) * P.BarRatSlope) + P.BarRatInt
      tie(i) == Near(s.z0[i], line(i), RT, AT)
  IN [ overtopping_Runup |-> Eq(o.runup, ru),
       overtopping_Flux |-> VEq(o.cst, want.cst),
       overtopping_Overwash |-> Size(o.ow) = Size(want.ow) /\ \A i \in Dom(o.ow) : tie(i) \/ REq(o.ow[i], want.ow[i]),
       overtopping_Pure |-> e.mut = << >> ]
Judge(e) ==
  IF "exc" \in DOMAIN e
  THEN Report(e, IF e.op = "lst" THEN {"longshore_transport_Completes"} ELSE {"overtopping_Completes"}, e.msg)
  ELSE Report(e, FalseIn(IF e.op = "lst" THEN LSTClauses(e) ELSE OTClauses(e)), << >>)
       /\ IF e.op = "lst" THEN Tag(e, IF \E i \in Dom(e.out.lst) : Offshore(LocalDir(e.s.y0, e.p.Dx, e.w.dir, i)) THEN "waves going offshore"
                                      ELSE IF LSTDefined(e.p, e.w, e.s.y0) THEN "waves" ELSE "breaking deeper than the wave data")
          ELSE Tag(e, IF \E i \in Dom(e.out.cst) : e.out.cst[i] > 0 THEN (IF \E i \in Dom(e.out.cst) : e.out.cst[i] > 0 /\ e.out.ow[i] > 0 THEN "overwash" ELSE "overtopping") ELSE "dry")
Init == l = 0
Next == l < Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l+1])
Spec == Init /\ [][Next]_l
=============================================================================
