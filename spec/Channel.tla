------------------------------ MODULE Channel ------------------------------
(***************************************************************************)
(* The combined river-lagoon-outlet channel (riv.assembleChannel,          *)
(* riv.storeHydraulics, riv.storeBedload).                                 *)
(*                                                                         *)
(* A model state s has                                                     *)
(*   x           transect positions (one of them is 0, where the river is) *)
(*   y0 .. y4    shoreline, seaward / lagoonward outlet bank, seaward edge *)
(*               of lagoon, cliff toe                                      *)
(*   z0 .. z3    crest, outlet bed, inner crest, lagoon bed                *)
(*   e           <<upstream, downstream>> outlet end (0-based, e[0] e[1])  *)
(*   ew, ee      width and bed level of the seaward end of the outlet      *)
(*   closed      whether the outlet is closed                              *)
(*   rz rd rv    river bed, depth, velocity                                *)
(*   lwl lvl     lagoon water level and velocity                           *)
(*   od ov       outlet channel depth and velocity                         *)
(*   oed oev     depth, velocity of the outlet end and of the sea node     *)
(***************************************************************************)
EXTENDS Arr

River == 0   Lagoon == 1   Outlet == 2   EndXS == 3   Sea == 4

X0(s)  == CHOOSE i \in Dom(s.x) : REq(s.x[i], 0)
LToR(e) == e[0] < e[1]

(* Transects crossed by the outlet channel between its ends, from the      *)
(* lagoon to the sea.                                                      *)
OutletIx(x, e) ==
  LET lo == IF LToR(e) THEN e[0] ELSE e[1]
      hi == IF LToR(e) THEN e[1] ELSE e[0]
      A  == Asc({i \in Dom(x) : lo <= x[i] /\ x[i] <= hi})
  IN IF LToR(e) THEN A ELSE Rev(A)

OutletWidths(s, oix) ==
  IF Size(oix) = 0 THEN << >>
  ELSE V([k \in Dom(oix) |-> LET w == s.y1[oix[k]] - s.y2[oix[k]] IN IF IsNaN(w) THEN 0 ELSE w])

(* Closure of the outlet channel itself: any crossed transect, or the      *)
(* seaward end, no wider than the threshold.                               *)
OutletBlocked(s, P) ==
  LET oix == OutletIx(s.x, s.e)  ws == OutletWidths(s, oix)
  IN \/ \E k \in Dom(ws) : ws[k] <= P.MinOutletWidth
     \/ s.ew <= P.MinOutletWidth

LagW(s) == V([i \in Dom(s.x) |-> s.y3[i] - s.y4[i]])

(* Which side of the river the lagoon reach runs to.                       *)
ToRight(s) == s.e[0] > 0 \/ REq(s.e[0], 0)

(* Lagoon transects in line between river and outlet, before looking for a *)
(* pinched-off lagoon.  cl = closed after looking at the outlet.           *)
OnlineFull(s, w, cl) ==
  LET x0 == X0(s)  wet == {i \in Dom(s.x) : w[i] > 0} IN
  IF cl THEN IF ToRight(s) THEN Asc(x0 .. MaxS(wet)) ELSE Rev(Asc(MinS(wet) .. x0))
  ELSE IF REq(s.e[0], 0) THEN Asc({x0})
  ELSE IF ToRight(s) THEN Asc({i \in x0 .. (Size(s.x)-1) : s.x[i] < s.e[0]})
  ELSE Rev(Asc({i \in 0 .. x0 : s.x[i] > s.e[0]}))

(* Lagoon on the far side of the river (start), and beyond the outlet (end)*)
StartSet(s) == IF ToRight(s) THEN 0 .. (X0(s)-1) ELSE (X0(s)+1) .. (Size(s.x)-1)
EndSet(s, cl) ==
  IF cl THEN {}
  ELSE IF REq(s.e[0], 0) THEN {i \in Dom(s.x) : s.x[i] > 0}
  ELSE IF ToRight(s) THEN {i \in Dom(s.x) : s.x[i] >= s.e[0]}
  ELSE {i \in Dom(s.x) : s.x[i] <= s.e[0]}

AreaOf(S, w, P) == SumOver(S, LAMBDA i : w[i] * P.Dx)
LenOf(S, w, P)  == SumOver(S, LAMBDA i : IF w[i] > 0 THEN P.Dx ELSE 0)

(* Inputs assembleChannel is defined on.                                   *)
AssemblePre(s, P) ==
  LET w == LagW(s) IN
  /\ \E i \in Dom(s.x) : REq(s.x[i], 0)
  /\ ~AnyNaN(w)
  /\ w[X0(s)] >= P.MinOutletWidth
  /\ w[X0(s)] > 0
  /\ s.closed \/ (~IsNaN(s.e[0]) /\ ~IsNaN(s.e[1]) /\ Size(OutletIx(s.x, s.e)) > 0)

Topology(s, P) ==
  LET cl1  == s.closed \/ OutletBlocked(s, P)
      w    == LagW(s)
      full == OnlineFull(s, w, cl1)
      thin == {k \in Dom(full) : w[full[k]] < P.MinOutletWidth}
      cl   == cl1 \/ thin # {}
      cut  == IF thin = {} THEN Size(full) ELSE MinS(thin)
      on   == Slice(full, 0, cut-1)
      lost == {full[k] : k \in cut .. (Size(full)-1)}
      endS == EndSet(s, cl1)
  IN [ closed |-> cl,
       on  |-> on,
       \* indices of the outlet transects reported to the caller
       oix |-> IF cl1 THEN << >> ELSE OutletIx(s.x, s.e),
       cl1 |-> cl1,
       startA |-> AreaOf(StartSet(s), w, P), startL |-> LenOf(StartSet(s), w, P),
       endA |-> AreaOf(endS, w, P) + AreaOf(lost, w, P),
       endL |-> LenOf(endS, w, P) + LenOf(lost, w, P) ]

(* Cross-sections in order from the upstream end of the river to the sea.  *)
FillDepth(h) ==
  LET ok == Asc({i \in Dom(h) : ~IsNaN(h[i])})
      xs == V([k \in Dom(ok) |-> ok[k]])
      ys == Pick(h, ok)
  IN V([i \in Dom(h) |-> IF IsNaN(h[i]) THEN Interp(i, xs, ys) ELSE h[i]])

FillVel(h, v) ==      \* missing velocities are interpolated on unit discharge
  LET ok == Asc({i \in Dom(v) : ~IsNaN(v[i])})
      q  == V([k \in Dom(ok) |-> h[ok[k]] * v[ok[k]]])
  IN V([i \in Dom(v) |-> IF IsNaN(v[i]) THEN Interp(i, ok, q) / h[i] ELSE v[i]])

\* a stored outlet without the sea node has that node's state missing
Two(f) == IF Size(f) = 1 THEN Cat(f, Full(1, NaN)) ELSE f

Assemble(s, P) ==
  LET T == Topology(s, P)
      on == T.on  oix == T.oix  cl == T.closed
      w == LagW(s)
      R == Size(s.rz)  n == Size(on)  m == IF cl THEN 0 ELSE Size(oix)
      N == IF cl THEN R + n ELSE R + n + m + 2
      frac == IF LToR(s.e) THEN s.e[1] % P.Dx ELSE (-(s.e[1])) % P.Dx
      fl == Cat(Cat(Full(R, River), Full(n, Lagoon)),
                IF cl THEN << >> ELSE Cat(Full(m, Outlet), Cat(Full(1, EndXS), Full(1, Sea))))
      dx == V([i \in 0..(N-2) |-> IF ~cl /\ i = N-3 THEN P.Dx + frac ELSE P.Dx])
      z  == Cat(Cat(s.rz, Pick(s.z3, on)),
                IF cl THEN << >>
                ELSE Cat(Pick(s.z1, oix), Cat(Full(1, s.ee), Full(1, RMin(P.MaxOutletElev, s.ee)))))
      b  == Cat(Cat(Full(R, P.RiverWidth), Pick(w, on)),
                IF cl THEN << >> ELSE Cat(OutletWidths(s, oix), Full(2, s.ew)))
      la == V([i \in 0..(N-1) |-> (IF i = R THEN T.startA ELSE 0) + (IF i = R+n-1 THEN T.endA ELSE 0)])
      ll == V([i \in 0..(N-1) |-> (IF fl[i] = Lagoon THEN P.Dx ELSE 0)
                                  + (IF i = R THEN T.startL ELSE 0) + (IF i = R+n-1 THEN T.endL ELSE 0)])
      lagd == V([k \in Dom(on) |-> s.lwl[on[k]] - s.z3[on[k]]])
      h0 == Cat(Cat(s.rd, lagd), IF cl THEN << >> ELSE Cat(Pick(s.od, oix), Two(s.oed)))
      v0 == Cat(Cat(s.rv, Pick(s.lvl, on)), IF cl THEN << >> ELSE Cat(Pick(s.ov, oix), Two(s.oev)))
      v1 == IF cl THEN [v0 EXCEPT ![N-1] = 0] ELSE v0
      h  == FillDepth(h0)
  IN [ dx |-> dx, z |-> z, b |-> b, la |-> la, ll |-> ll, h |-> h, v |-> FillVel(h, v1),
       on |-> on, oix |-> oix, fl |-> fl, closed |-> cl ]

----------------------------------------------------------------------------
(* Back from the channel to shore-parallel storage.                        *)
OfFlag(a, fl, f) == Pick(a, Asc({i \in Dom(a) : fl[i] = f}))

Store(c, z3) ==
  LET n  == Size(z3)
      on == c.on
      lo == MinS(Range(on))  hi == MaxS(Range(on))
      lh == OfFlag(c.h, c.fl, Lagoon)
      own == V([i \in 0..(n-1) |-> IF i \in Range(on)
                  THEN z3[i] + lh[CHOOSE k \in Dom(on) : on[k] = i] ELSE 0])
      blank == Full(n, NaN)
      ends(a) == Pick(a, Asc({i \in Dom(a) : c.fl[i] \in {EndXS, Sea}}))
  IN [ lwl |-> V([i \in 0..(n-1) |-> IF i < lo THEN own[lo] ELSE IF i > hi THEN own[hi] ELSE own[i]]),
       lvl |-> PutAt(blank, on, OfFlag(c.v, c.fl, Lagoon)),
       od  |-> IF c.closed THEN blank ELSE PutAt(blank, c.oix, OfFlag(c.h, c.fl, Outlet)),
       ov  |-> IF c.closed THEN blank ELSE PutAt(blank, c.oix, OfFlag(c.v, c.fl, Outlet)),
       oed |-> IF c.closed THEN Full(2, NaN) ELSE ends(c.h),
       oev |-> IF c.closed THEN Full(2, NaN) ELSE ends(c.v) ]

(* Transport leaving each cross-section, on the transect it belongs to.    *)
StoreBedload(qs, n, c) ==
  LET up(f) == OfFlag(qs, c.fl, f)    \* reaches whose upstream node has flag f
      zero == Full(n, 0)
      lag  == IF c.closed THEN Slice(c.on, 0, Size(c.on)-2) ELSE c.on
  IN [ lag |-> PutAt(zero, lag, up(Lagoon)),
       out |-> IF c.closed THEN zero ELSE PutAt(zero, c.oix, up(Outlet)),
       end |-> IF c.closed THEN 0 ELSE up(EndXS)[0] ]
=============================================================================
