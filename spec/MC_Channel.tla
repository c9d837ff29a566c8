---------------------------- MODULE MC_Channel ----------------------------
(***************************************************************************)
(* Every small river mouth: N transects, each lagoon transect dry, at the  *)
(* closure threshold or wide; every position and direction of the outlet;  *)
(* at most one narrow outlet transect.  Each is put together once and then *)
(* once more with the status that resulted (what the next timestep does).  *)
(***************************************************************************)
EXTENDS Channel
CONSTANTS NL, NR, Every, Seed
VARIABLES w, k0, k1, narrow, ew, closed, phase
vars == <<w, k0, k1, narrow, ew, closed, phase>>

P == [Dx |-> 2, MinOutletWidth |-> 1, RiverWidth |-> 8, MaxOutletElev |-> -1]
n == NL + NR + 1
Ts == 0..(n-1)

S == [ x |-> V([i \in Ts |-> (i - NL) * P.Dx]),
       y4 |-> Full(n, -50), y3 |-> V([i \in Ts |-> w[i] - 50]),
       y2 |-> Full(n, -20), y1 |-> V([i \in Ts |-> IF i = narrow THEN -19 ELSE -14]),
       y0 |-> Full(n, 0), z0 |-> Full(n, 3), z1 |-> V([i \in Ts |-> 0 - i]), z2 |-> Full(n, 3),
       z3 |-> V([i \in Ts |-> 0 - (i/4)]),
       e |-> V([j \in 0..1 |-> IF j = 0 THEN (k0 - NL) * P.Dx ELSE (k1 - 2*NL) * (P.Dx/2)]),
       ew |-> ew, ee |-> -2, closed |-> closed,
       rz |-> V([i \in 0..1 |-> 1 - i/2]), rd |-> Full(2, 1), rv |-> Full(2, 1),
       lwl |-> V([i \in Ts |-> 1 + i/8]), lvl |-> V([i \in Ts |-> IF i % 2 = 0 THEN 1/2 ELSE NaN]),
       od |-> V([i \in Ts |-> IF i % 3 = 0 THEN NaN ELSE 1 + i/4]), ov |-> Full(n, NaN),
       oed |-> Full(2, 3/2), oev |-> Full(2, 1) ]

Widths == {0, 1, 4}
RECURSIVE Pack(_)
Pack(i) == IF i >= n THEN 0 ELSE 31 * Pack(i+1) + w[i]
Abs(a) == IF a < 0 THEN -a ELSE a
Hash == (Pack(0) % 100003) + 7*k0 + 13*k1 + 17*narrow + 29*ew + (IF closed THEN 5 ELSE 0)
Init == /\ w \in {f \in [Ts -> Widths] : f[NL] # 0 /\ f[0] = 0}
        /\ k0 = 1 /\ k1 = 2 /\ narrow = -1 /\ ew = 3 /\ closed = FALSE /\ phase = 0
Choose == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED w
          /\ k0' \in 1..(n-2) /\ k1' \in 2..(2*n-4) /\ Abs(k1' - 2*k0') <= 3
          /\ narrow' \in {-1, k0', k0'-1, k0'+1} /\ ew' \in {1, 3} /\ (ew' = 1 => narrow' = -1)
          /\ closed' \in BOOLEAN /\ (closed' => k1' = 2*k0' /\ ew' = 3 /\ narrow' = -1)
          /\ AssemblePre(S, P)'
          /\ (Every > 0 /\ ((Hash' + Seed) % Every = 0) => Say("SCN", [s |-> S', p |-> P]))
Again == /\ phase = 1 /\ phase' = 2
         /\ closed' = Topology(S, P).closed
         /\ UNCHANGED <<w, k0, k1, narrow, ew>>
Next == Choose \/ Again
Spec == Init /\ [][Next]_vars

T == Topology(S, P)
wf == V(w)
(* the reach starts at the river and is a run of consecutive transects     *)
Contiguous0 == LET on == T.on IN
   /\ Size(on) > 0 /\ on[0] = NL
   /\ \A k \in 1..(Size(on)-1) : on[k] = on[k-1] + (IF ToRight(S) THEN 1 ELSE -1)
WideEnough0 == \A k \in Dom(T.on) : w[T.on[k]] >= P.MinOutletWidth
(* all lagoon area is in the reach or in the storage at its two ends, once *)
Counted0 == LET tot == SumOver(Ts, LAMBDA i : w[i] * P.Dx)
               on == SumOver(Range(T.on), LAMBDA i : w[i] * P.Dx)
           IN REq(tot, T.startA + T.endA + on)
Sticky0 == closed => T.closed
Blocked0 == OutletBlocked(S, P) => T.closed
OpenReaches0 == ~T.closed => /\ Size(T.oix) > 0 /\ \A k \in Dom(T.oix) : OutletWidths(S, T.oix)[k] > P.MinOutletWidth
                            /\ \A i \in Ts : (NL <= i /\ S.x[i] < S.e[0]) \/ (i <= NL /\ S.x[i] > S.e[0]) => i \in Range(T.on)
Shapes0 == LET a == Assemble(S, P) N == Size(a.z) IN
   /\ Size(a.b) = N /\ Size(a.dx) = N-1 /\ Size(a.h) = N /\ Size(a.v) = N /\ Size(a.la) = N
   /\ ~AnyNaN(a.h) /\ ~AnyNaN(a.v) /\ \A i \in Dom(a.b) : a.b[i] > 0
   /\ \A i \in Dom(a.dx) : a.dx[i] >= P.Dx /\ a.dx[i] < 2 * P.Dx
   /\ (Size(a.z) = 2 + Size(a.on) + (IF a.closed THEN 0 ELSE Size(a.oix) + 2))
(* storing and taking up again loses nothing                               *)
Survives0 == LET a == TLCEval(Assemble(S, P))
                st == TLCEval(Store([h |-> a.h, v |-> a.v, on |-> a.on, oix |-> a.oix, fl |-> a.fl, closed |-> a.closed], S.z3))
                s2 == [S EXCEPT !.lwl = st.lwl, !.lvl = st.lvl, !.od = st.od, !.ov = st.ov, !.oed = st.oed, !.oev = st.oev,
                                !.closed = a.closed]
            IN LET b == Assemble(s2, P) IN b.closed = a.closed /\ VNear(a.h, b.h, 1/1000000000, 0)
                                           /\ VNear(a.v, b.v, 1/1000000000, 1/1000000000)
Contiguous == phase = 0 \/ Contiguous0
WideEnough == phase = 0 \/ WideEnough0
Counted == phase = 0 \/ Counted0
Sticky == phase = 0 \/ Sticky0
Blocked == phase = 0 \/ Blocked0
OpenReaches == phase = 0 \/ OpenReaches0
Shapes == phase = 0 \/ Shapes0
Survives == phase = 0 \/ Survives0
=============================================================================
