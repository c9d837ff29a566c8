------------------------------ MODULE MC_Morph ------------------------------
(***************************************************************************)
(* Small river mouths of five transects, the three inner ones each in one  *)
(* of nine situations (wide barrier, no lagoon, barrier about to go, open  *)
(* channel, filled channel, channel about to meet sea / lagoon, pinched    *)
(* lagoon, cliff about to meet the sea), every outlet position, direction  *)
(* and status, and a forcing of waves, flow, overwash and water level.     *)
(* One morphological step each.                                            *)
(***************************************************************************)
EXTENDS Morph
CONSTANTS Every, Seed, Thin        \* Thin: model check one state in so many
VARIABLES kind, e0, e1, closed, f, ph, sv, iv, tv, av, rr, rv
vars == <<kind, e0, e1, closed, f, ph, sv, iv, tv, av, rr, rv>>
N == 5
Ts == 0..(N-1)
P == [ Dx |-> 20, MinOutletWidth |-> 2, RiverWidth |-> 40, MaxOutletElev |-> -3/2, SpitWidth |-> 10, BeachTopElev |-> 2,
       BackshoreElev |-> 12, ClosureDepth |-> 6, WidthDepthRatio |-> 25, OutletSedSpreadDist |-> 30, OutletBankEroFac |-> 1/2,
       ShorelineErosionRate |-> 1 ]
Kinds == 0..8
Re(g) == V([i \in Dom(g) |-> g[i] / 1])    \* no integers: states are compared
K(i) == IF i = 0 \/ i = N-1 THEN 1 ELSE kind[i]
Chan == {3, 4, 5, 6}
Nan(i, v) == IF K(i) \in Chan THEN v ELSE NaN
\* a mouth about to pass a transect
Short == IF e1 % 4 # 0 \/ e1 = 4 * e0 THEN 0 ELSE IF e1 > 4 * e0 THEN 0 - 2/1000 ELSE 2/1000
S == [ x |-> V([i \in Ts |-> (i - 2) * P.Dx]),
       y4 |-> V([i \in Ts |-> IF K(i) = 7 THEN -81 ELSE IF K(i) \in {1, 8} THEN -80 ELSE -100]),
       y3 |-> Full(N, -80),
       y2 |-> V([i \in Ts |-> Nan(i, IF K(i) = 6 THEN -80 + 2/1000 ELSE -70)]),
       y1 |-> V([i \in Ts |-> Nan(i, IF K(i) = 4 THEN -70 ELSE -62)]),
       y0 |-> V([i \in Ts |-> CASE K(i) = 2 -> -80 + 2/1000 [] K(i) = 5 -> -62 + 2/1000 [] K(i) = 8 -> -80 + 2/1000 [] OTHER -> -40]),
       z0 |-> V([i \in Ts |-> 3 + i/4]), z1 |-> V([i \in Ts |-> Nan(i, -1)]), z2 |-> V([i \in Ts |-> Nan(i, 13/4)]),
       z3 |-> V([i \in Ts |-> -1 - i/8]),
       e |-> V([j \in 0..1 |-> IF j = 0 THEN (e0 - 2) * P.Dx ELSE ((e1 - 8) * (P.Dx / 4)) + Short]),
       ew |-> 7, ee |-> -2, closed |-> (closed = 1), rz |-> V([i \in 0..1 |-> 1 - i/2]) ]

\* forcing, in base: waves 3, flow 3, overwash 3, level 2, speed 2
L == f % 3   Qf == (f \div 3) % 3   Ow == (f \div 9) % 3   Hi == (f \div 27) % 2   Fast == f \div 54
Mag == IF Fast = 0 THEN 1/1000 ELSE 1/20
Inp(SS, T) == LET m == IF T.closed THEN 0 ELSE Size(T.oix) + 2
         n == Size(T.on)
         fl == Cat(Cat(Full(2, River), Full(n, Lagoon)), IF T.closed THEN << >> ELSE Cat(Full(Size(T.oix), Outlet), Cat(Full(1, EndXS), Full(1, Sea))))
         Z == Size(fl)
     IN [ on |-> T.on, oix |-> T.oix, fl |-> fl, closed |-> T.closed, dt |-> 60,
          b |-> Cat(Cat(Full(2, 40), Pick(LagW(SS), T.on)), IF T.closed THEN << >> ELSE Cat(OutletWidths(SS, T.oix), Full(2, SS.ew))),
          h |-> V([k \in 0..(Z-1) |-> IF k % 2 = 0 THEN 1 ELSE 1/3]),
          qs |-> V([k \in 0..(Z-2) |-> CASE Qf = 0 -> Mag [] Qf = 1 -> Mag * (Z - k) [] Qf = 2 -> Mag * k]),
          lst |-> V([k \in 0..(N-2) |-> CASE L = 0 -> Mag [] L = 1 -> 0 - Mag [] L = 2 -> Mag * (2 - k)]),
          cst |-> V([i \in Ts |-> IF Ow = 0 THEN 0 ELSE Mag / 10]),
          ow |-> V([i \in Ts |-> IF (Ow = 1 \/ (K(i) = 4)) /\ K(i) \notin {1, 8} THEN 1 ELSE 0]),
          lwl |-> V([i \in Ts |-> IF Hi = 1 THEN 33/10 ELSE 1]),
          od |-> V([i \in Ts |-> IF i \in Range(T.oix) THEN (IF Hi = 1 THEN 43/10 ELSE 2) ELSE NaN]) ]
Tm == [lo |-> 60, hi |-> 60, maxchg |-> 1/4]

Hash == f + 108 * (closed + 2 * (e0 + 5 * (e1 + 17 * (kind[1] + 9 * (kind[2] + 9 * kind[3])))))
Pick3 == {k \in [1..3 -> Kinds] : k[2] \notin {1, 7, 8}}
Init == kind = [i \in 1..3 |-> 0] /\ e0 = 0 /\ e1 = 0 /\ closed = 0 /\ f = 0 /\ ph = 0
        /\ sv = 0 /\ iv = 0 /\ tv = 0 /\ av = 0 /\ rr = 0 /\ rv = 0
Shape == ph = 0 /\ ph' = 1 /\ kind' \in Pick3 /\ UNCHANGED <<e0, e1, closed, f, sv, iv, tv, av, rr, rv>>
Crossed == {i \in Ts : i = e0' \/ (4 * e0' < 4 * i /\ 4 * i < e1') \/ (4 * e0' > 4 * i /\ 4 * i > e1')}
Open == /\ ph = 1 /\ ph' = 2 /\ UNCHANGED kind
        /\ e0' \in 1..3 /\ e1' \in 4..12 /\ closed' \in 0..1 /\ f' \in 0..107
        /\ closed' = 0 => \A i \in Crossed : i \in 1..3 /\ kind[i] \in {3, 5, 6}
        /\ closed' = 1 => e1' = 4 * e0'
        /\ (Hash' + Seed) % Thin = 0
        /\ sv' = TLCEval([S EXCEPT !.y0 = Re(@), !.y1 = Re(@), !.y2 = Re(@), !.y3 = Re(@), !.y4 = Re(@), !.z0 = Re(@), !.z1 = Re(@), !.z2 = Re(@), !.z3 = Re(@), !.e = Re(@), !.ew = @ / 1, !.ee = @ / 1, !.rz = Re(@)]') /\ tv' = TLCEval(Topology(sv', P)) /\ iv' = TLCEval(Inp(sv, tv)')
        /\ MorphPre(sv', iv', P)
        /\ av' = TLCEval(Advance(sv', iv', P, Tm)) /\ rr' = TLCEval(Rates(sv', iv', P))
        /\ rv' = TLCEval(Resolve(sv', av'.m, iv', P))
        /\ (Every > 0 /\ (Hash' \div Thin) % Every = 0) => Say("SCN", [s |-> sv', p |-> P, i |-> iv'])
Next == Shape \/ Open
SS == sv
I == iv
T == tv
Spec == Init /\ [][Next]_vars

On == ph = 2
\* leaves are checked, and not kept (no state has successors beyond them)
Keep == ph < 2
R == rr
Ad == av
Rs == rv
Sub(a, b) == REq(a, b) \/ Near(a, b, 1/1000000000, 1/1000000000)
Dxy == P.Dx

\* the sediment the river brings stays in the channel or leaves at its end
RiverBudget == ~On \/
  LET r == R  n == Size(I.qs)
      bed == SumOver(Dom(r.riv), LAMBDA k : r.riv[k] * (P.RiverWidth * Dxy))
      lag == SumOver(Range(I.on), LAMBDA i : (r.z3[i] * ((SS.y3[i] - SS.y4[i]) * Dxy)) + (r.y4[i] * ((P.BackshoreElev - SS.z3[i]) * Dxy)))
      noow == [I EXCEPT !.cst = Zero(@)]
      r0 == TLCEval(Rates(SS, noow, P))
      out == IF I.closed THEN 0 ELSE SumOver(Range(I.oix), LAMBDA i :
               (r.z1[i] * ((SS.y1[i] - SS.y2[i]) * Dxy)) - (r0.y1[i] * ((SS.z0[i] - SS.z1[i]) * Dxy)) + (r.y2[i] * ((SS.z2[i] - SS.z1[i]) * Dxy)))
      bankl == SumOver(Range(I.on), LAMBDA i : r0.y3[i] * (((IF IsNaN(SS.y1[i]) THEN SS.z0[i] ELSE SS.z2[i]) - SS.z3[i]) * Dxy))
      area == (P.BeachTopElev - SS.ee) * P.SpitWidth
      calm == TLCEval(Rates(SS, [noow EXCEPT !.lst = Zero(@)], P))
      end == IF I.closed THEN 0 ELSE (r.agg * (SS.ew * Dxy)) - (calm.wid * area)
      left == I.qs[0] - (IF I.closed THEN 0 ELSE I.qs[n-1])
  IN Sub(bed + lag - bankl + out + end, left)

\* what the waves carry along the shore telescopes; what crosses the mouth is put on its bank
ShoreBudget == ~On \/
  LET still == [I EXCEPT !.cst = Zero(@), !.qs = Zero(@)]
      r == TLCEval(Rates(SS, still, P))  face == FaceHeight(SS, P)
      sh == SumOver(1..(N-2), LAMBDA i : r.y0[i] * (face[i] * Dxy))
      bank == IF I.closed THEN 0 ELSE 0 - r.wid * ((P.BeachTopElev - SS.ee) * P.SpitWidth)
  IN Sub(sh + bank, I.lst[0] - I.lst[N-2]) \/ (~I.closed /\ FirstRight(SS, SS.e[1]) \in {1, N-1})
\* overtopping takes off the front what it puts on top and behind
CrossShoreBudget == ~On \/
  LET r == TLCEval(Rates(SS, [I EXCEPT !.lst = Zero(@), !.qs = Zero(@)], P))
      face == FaceHeight(SS, P)  crw == CrestWidth(SS)  bkh == BackHeight(SS)
  IN \A i \in 1..(N-2) : Sub(r.y0[i] * face[i] + r.z0[i] * crw[i]
                              - (IF IsNaN(SS.y1[i]) THEN r.y3[i] ELSE r.y1[i]) * bkh[i], 0)

\* the adaptive step is within its bounds, and neither shorter nor longer than it has to be
StepBounds == ~On \/ LET fast == Fastest(R) IN
  \A lo \in {15, 60} : \A hi \in {60, 960} : \A d \in {15, 60, 100, 960} : \A mc \in {1, 8} : (d < lo \/ d > hi) \/
    LET t == [lo |-> lo, hi |-> hi, maxchg |-> mc / 8]  nd == NextDt(d, fast, t) IN
      /\ nd >= lo /\ nd <= hi
      /\ (REq(nd, lo) \/ fast * nd <= t.maxchg)
      /\ (REq(nd, hi) \/ fast * nd >= t.maxchg / 2 \/ (fast * nd * 2 > t.maxchg))
      /\ \A r \in {Limited(R, nd, t)} : fast * nd <= t.maxchg \/ Fastest(r) * nd <= t.maxchg * (1 + 1/1000000)

\* what every resolved step leaves behind
\* (pressed against a cliff at the shoreline: for as long as the cliff has not given way)
Squeezed(m, i) == m.y3[i] <= m.y4[i] + 1/1000000000 /\ m.y2[i] - m.y3[i] < 1/1000
Ordered(m) == \A i \in Dom(m.x) : IF IsNaN(m.y1[i]) THEN IsNaN(m.y2[i]) /\ IsNaN(m.z1[i]) /\ IsNaN(m.z2[i]) /\ m.y0[i] > m.y3[i]
                            ELSE m.y0[i] > m.y1[i] /\ (m.y1[i] >= m.y2[i] \/ Squeezed(m, i)) /\ m.y2[i] > m.y3[i]
AllOrdered == ~On \/ \A m \in Rs.m : Ordered(m) \/ (Say("BAD", [why |-> Rs.why, tags |-> Rs.tags, m |-> m, s |-> SS, f |-> f]) /\ FALSE)
MouthInside == ~On \/ \A m \in Rs.m : IsNaN(m.e[1]) \/ (m.x[1] <= m.e[1] /\ m.e[1] <= m.x[N-2])
ChannelLeft == ~On \/ I.closed \/ Rs.breach \/ \A m \in Rs.m : LET o == OutletIx(m.x, m.e) IN Size(o) > 0 /\ \A k \in Dom(o) : ~IsNaN(m.y1[o[k]])
RiverMouth == ~On \/ \A m \in Rs.m : m.y3[2] - m.y4[2] >= P.MinOutletWidth
\* a breach is where the lagoon or a connected channel can reach, one transect wide and open
BreachSound == ~On \/ ~Rs.breach \/
   \A m \in Rs.m : \E at \in Rs.at : REq(m.e[1], m.x[at]) /\ ~IsNaN(m.y1[at])
       /\ (Rs.onchan \/ Rs.why # "spill" \/ I.closed \/ RAbs(m.e[1]) <= RAbs(SS.e[0]) \/ RAbs(m.e[1] - SS.e[0]) < RAbs(Ad.m.e[1] - SS.e[0]))
\* one situation at least of every kind
Reached == ~On \/ ((Hash \div Thin) % 3 # 0) \/ (Say("SEEN", Rs.why) /\ \A t \in Rs.tags : Say("SEEN", t))

\* left and right are alike
Flip(g) == V([i \in Dom(g) |-> g[Size(g)-1-i]])
Neg(g) == V([i \in Dom(g) |-> 0 - g[i]])
MirrorS(s) == [s EXCEPT !.y0 = Flip(@), !.y1 = Flip(@), !.y2 = Flip(@), !.y3 = Flip(@), !.y4 = Flip(@),
                        !.z0 = Flip(@), !.z1 = Flip(@), !.z2 = Flip(@), !.z3 = Flip(@), !.e = Neg(@)]
MirrorI(i) == [i EXCEPT !.on = V([k \in Dom(@) |-> N-1-@[k]]), !.oix = IF Size(@) = 0 THEN @ ELSE V([k \in Dom(@) |-> N-1-@[k]]),
                        !.lwl = Flip(@), !.od = Flip(@), !.lst = Neg(Flip(@)), !.cst = Flip(@), !.ow = Flip(@)]
SameM(a, b) == \A n \in {"y0", "y1", "y2", "y3", "y4", "z0", "z1", "z2", "z3", "rz", "e"} : VNear(a[n], b[n], 1/1000000000, 1/1000000000)
Generic == e1 # 4 * e0 /\ ~REq(SS.e[0], 0)
Mirrored == ~On \/ I.closed \/ ~Generic \/ Rs.breach \/
  LET ms == MirrorS(SS)  mi == MirrorI(I)  am == TLCEval(Advance(ms, mi, P, Tm))  rm == TLCEval(Resolve(ms, am.m, mi, P))
      t == Topology(ms, P)
  IN /\ VNear(t.on, mi.on, 0, 0) /\ (T.closed \/ VNear(t.oix, mi.oix, 0, 0)) /\ t.closed = T.closed
     /\ (\E a \in Rs.m : \E b \in rm.m : SameM(MirrorS(a), b)) /\ REq(am.dt, Ad.dt)
=============================================================================
