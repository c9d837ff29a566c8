----------------------------- MODULE TrChannel ------------------------------
(* Conformance of riv.assembleChannel / storeHydraulics / storeBedload.     *)
EXTENDS Tr, Channel
CONSTANT TraceFile
Trace == RLoad(TraceFile)
VARIABLE l

SameIx(a, b) == Size(a) = Size(b) /\ \A k \in Dom(a) : REq(a[k], b[k])
(* Every piece of lagoon is in the channel or in the storage attached to it *)
(* once (up to slivers of negative width).                                  *)
AllCounted(s, P, counted) ==
  LET w == LagW(s)
      wet == SumOver({i \in Dom(w) : w[i] > 0}, LAMBDA i : w[i] * P.Dx)
      neg == SumOver({i \in Dom(w) : w[i] < 0}, LAMBDA i : -(w[i]) * P.Dx)
  IN counted <= wet + (1/1000000) /\ counted >= wet - neg - (1/1000000)

AssembleClauses(e) ==
  LET s == e.s  P == e.p IN
  IF "exc" \in DOMAIN e
  THEN [channel_assembly_Completes |-> ~AssemblePre(s, P)]
  ELSE IF ~AssemblePre(s, P) THEN [none |-> TRUE]
  ELSE
  LET o == e.out  a == TLCEval(Assemble(s, P))
      N == Size(a.z)
      shape == /\ Size(o.z) = N /\ Size(o.b) = N /\ Size(o.fl) = N /\ Size(o.dx) = N-1
               /\ Size(o.la) = N /\ Size(o.ll) = N /\ Size(o.h) = N /\ Size(o.v) = N
      w == LagW(s)
      onArea == SumOver(Range(a.on), LAMBDA i : w[i] * P.Dx)
  IN IF ~shape
     THEN [ channel_assembly_Shape |-> FALSE, closure_Status |-> o.closed = a.closed,
            offline_storage_Shape |-> Size(o.la) = N /\ Size(o.ll) = N,
            carryover_Shape |-> Size(o.h) = N /\ Size(o.v) = N ]
     ELSE [ channel_assembly_Flags |-> VEq(o.fl, a.fl),
            channel_assembly_Lengths |-> VEq(o.dx, a.dx),
            channel_assembly_Beds |-> VEq(o.z, a.z),
            channel_assembly_Widths |-> VEq(o.b, a.b),
            channel_assembly_Online |-> SameIx(o.on, a.on),
            channel_assembly_OutletIx |-> a.closed \/ SameIx(o.oix, a.oix),
            channel_assembly_Pure |-> e.mut = << >>,
            closure_Status |-> o.closed = a.closed,
            closure_StaysClosed |-> s.closed => o.closed,
            closure_NeverOpensBlocked |-> OutletBlocked(s, P) => o.closed,
            closure_Online |-> SameIx(o.on, a.on),
            offline_storage_Area |-> VEq(o.la, a.la),
            offline_storage_Length |-> VEq(o.ll, a.ll),
            offline_storage_Total |-> AllCounted(s, P, Sum(o.la) + onArea),
            carryover_Depths |-> VEq(o.h, a.h),
            carryover_Velocities |-> VEq(o.v, a.v),
            carryover_NoGaps |-> ~AnyNaN(o.h) /\ ~AnyNaN(o.v) ]

StoreClauses(e) ==
  IF "exc" \in DOMAIN e THEN [carryover_StoreCompletes |-> FALSE]
  ELSE LET o == e.out  a == TLCEval(Store(e.c, e.z3)) IN
   [ carryover_StoreLagoonWL |-> VEq(o.lwl, a.lwl), carryover_StoreLagoonVel |-> VEq(o.lvl, a.lvl),
     carryover_StoreOutlet |-> VEq(o.od, a.od) /\ VEq(o.ov, a.ov),
     carryover_StoreEnds |-> VEq(o.oed, a.oed) /\ VEq(o.oev, a.oev),
     carryover_StorePure |-> e.mut = << >> ]

BedStoreClauses(e) ==
  IF "exc" \in DOMAIN e THEN [bedload_StoreCompletes |-> FALSE]
  ELSE LET o == e.out  a == TLCEval(StoreBedload(e.qs, e.n, e.c)) IN
   [ bedload_StoreLagoon |-> VEq(o.lag, a.lag), bedload_StoreOutlet |-> VEq(o.out, a.out),
     bedload_StoreEnd |-> Eq(o.end, a.end) ]

(* assemble; store; assemble again: nothing that was not missing changes.   *)
RoundTripClauses(e) ==
  IF "exc" \in DOMAIN e THEN [carryover_RoundTripCompletes |-> FALSE]
  ELSE [ carryover_RoundTrip |-> VEq(e.out.h1, e.out.h0) /\ VEq(e.out.v1, e.out.v0),
         closure_Idempotent |-> e.out.closed0 = e.out.closed1 ]

ClausesOf(e) == CASE e.op = "assemble" -> AssembleClauses(e)
                  [] e.op = "store" -> StoreClauses(e)
                  [] e.op = "storebed" -> BedStoreClauses(e)
                  [] e.op = "roundtrip" -> RoundTripClauses(e)

Cover(e) == IF e.op # "assemble" \/ ~AssemblePre(e.s, e.p) THEN TRUE
            ELSE LET T == Topology(e.s, e.p) IN
              Tag(e, (IF e.s.closed THEN "was-closed " ELSE "was-open ")
                  \o (IF T.closed THEN (IF e.s.closed THEN "closed" ELSE IF T.cl1 THEN "outlet-closes" ELSE "lagoon-closes") ELSE "open")
                  \o (IF REq(e.s.e[0],0) THEN " inline" ELSE IF ToRight(e.s) THEN " right" ELSE " left")
                  \o (IF LToR(e.s.e) THEN " LR" ELSE " RL"))

Init == l = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l+1] IN Report(e, FalseIn(ClausesOf(e)), e.op) /\ Cover(e)
Spec == Init /\ [][Next]_l
=============================================================================
