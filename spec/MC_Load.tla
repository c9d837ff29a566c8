------------------------------- MODULE MC_Load -------------------------------
(* Configurations with one or two entries changed; series on a coarse grid  *)
(* against every period; shores with their outlets turned and moved; shot   *)
(* noise with few events.                                                   *)
EXTENDS Load
CONSTANTS What, Every, Seed, Deep
VARIABLES c, ph
vars == <<c, ph>>
Is_(w) == ph = 1 /\ What = w

\* ----------------------------------------------------------- configuration
Variants == 1..8
Sections == << BC, SN, HT, "HotStart", SI, IC, "Time", PP, NP, OO >>
NumKind(i) == Table[i].kind \in {"float", "integer"}
Mid(i) == LET k == Table[i] IN IF k.lo # Free /\ k.hi # Free THEN (k.lo[1] + k.hi[1]) / 2 ELSE IF k.lo # Free THEN k.lo[1] + 1 ELSE 1
E_(i, form, v, text) == [s |-> Table[i].s, k |-> Table[i].k, form |-> form, v |-> v, text |-> text]
Good0(i) == CASE Table[i].kind = "float" -> E_(i, "real", Mid(i), "") [] Table[i].kind = "integer" -> E_(i, "int", 1, "") [] OTHER -> E_(i, "word", 0, "abc")
Named(i) == Table[i].k \in {"ModelName", "OutFile", "TsOutFile"}
\* does the variant make sense for the key
Applies(i, j) == LET k == Table[i] IN
  CASE j = 1 -> TRUE [] j = 3 -> TRUE
    [] j = 2 -> NumKind(i) \/ k.kind = "boolean" \/ Named(i)
    [] j \in {4, 5} -> k.lo # Free \/ k.kind = "boolean"
    [] j \in {6, 7} -> k.hi # Free \/ k.kind = "integer"
    [] OTHER -> NumKind(i) \/ k.kind = "boolean"
Fault(i, j) == LET k == Table[i]  form == IF k.kind = "integer" THEN "int" ELSE "real" IN
  CASE j = 1 -> E_(i, "absent", 0, "")
    [] j = 2 -> E_(i, "word", 0, "abc")
    [] j = 3 -> E_(i, "list", 0, "1, 2")
    [] j = 4 -> IF k.kind = "boolean" THEN E_(i, "bool", 0, "yes") ELSE E_(i, form, k.lo[1], "")
    [] j = 5 -> IF k.kind = "boolean" THEN E_(i, "int", 2, "2") ELSE E_(i, form, IF k.kind = "integer" THEN k.lo[1] - 1 ELSE k.lo[1] - 1/1000, "")
    [] j = 6 -> IF k.kind = "integer" THEN E_(i, "real", 3/2, "") ELSE E_(i, form, k.hi[1], "")
    [] j = 7 -> IF k.kind = "integer" THEN E_(i, "int", 77, "") ELSE E_(i, form, k.hi[1] + 1/1000, "")
    [] OTHER -> IF k.kind = "boolean" THEN E_(i, "bool", 0, "Off") ELSE Good0(i)
Fine(i, j) == CASE j = 1 -> Table[i].d # Must [] j = 3 -> FALSE [] j = 2 -> Table[i].kind = "string" [] j = 5 -> FALSE
                [] j = 6 -> Table[i].kind # "integer" [] j = 7 -> Table[i].kind = "integer" [] OTHER -> TRUE
Musts == TLCEval([n \in 1..Cardinality({i \in Keys : Table[i].d = Must}) |-> Asc({i \in Keys : Table[i].d = Must})[n-1]])
Base == [n \in 1..Len(Musts) |-> Good0(Musts[n])]
Apply(g, f) == LET rest == SelectSeq(g, LAMBDA x : ~(x.s = f.s /\ (f.k = "" \/ x.k = f.k))) IN IF f.form = "absent" THEN rest ELSE Append(rest, f)
\* c: one or two of <<key, variant>>, or a section that is not there
Faults1 == {<<i, j>> \in Keys \X Variants : Applies(i, j)}
Hash(p) == p[1] * 8 + p[2]
F(p) == IF p[2] = 0 THEN [s |-> Sections[p[1]], k |-> "", form |-> "absent", v |-> 0, text |-> ""] ELSE Fault(p[1], p[2])
ConfigCase == \/ \E p \in Faults1 : c' = << p >>
              \/ \E n \in 1..Len(Sections) : c' = << <<n, 0>> >>
              \/ \E p \in Faults1, q \in Faults1 : p[1] < q[1] /\ (Hash(p) * 31 + Hash(q) * 17 + Seed) % Every = 0 /\ c' = << p, q >>
Given1 == IF Len(c) = 1 THEN Apply(Base, F(c[1])) ELSE Apply(Apply(Base, F(c[1])), F(c[2]))
DefaultsHold == ~(What = "config" /\ ph = 0) \/
  /\ Bad(Base, Where(Base)) = {}
  /\ \A i \in Keys : Table[i].d \notin {Must, Opt} /\ NumKind(i) => Within(Table[i], Table[i].d[1])
  /\ \A i, j \in Keys : (Table[i].s = Table[j].s /\ Table[i].k = Table[j].k) => i = j
FaultsFound == ~Is_("config") \/ LET g == Given1  bad == Bad(g, Where(g)) IN
  /\ \A m \in 1..Len(c) : c[m][2] # 0 => /\ ((c[m][1] \in bad) = ~Fine(c[m][1], c[m][2]))
                                         /\ Say("SEEN", IF Fine(c[m][1], c[m][2]) THEN "fine" ELSE IF c[m][2] = 1 THEN "missing" ELSE "out of range")
  /\ \A i \in bad : \E m \in 1..Len(c) : IF c[m][2] = 0 THEN Table[i].s = Sections[c[m][1]] \/ (Sections[c[m][1]] = BC /\ Table[i].s \in {SN, HT}) ELSE i = c[m][1]
EmittedConfig == ~Is_("config") \/ Say("SCN", [faults |-> [m \in 1..Len(c) |-> F(c[m])]])

\* ------------------------------------------------------------------ series
Grid == 0..6
SeriesCase == \E T \in {S \in SUBSET Grid : Cardinality(S) >= 2}, a \in Grid, b \in Grid : a < b /\ c' = [t |-> T, a |-> a, b |-> b]
T1 == Asc(c.t)
V1 == V([i \in Dom(T1) |-> (T1[i] * T1[i]) % 5])
\* the samples that matter: up to the one at or before the start, and the one at or behind the end
Kept(t, a, b) == {i \in Dom(t) : (i = Size(t) - 1 \/ t[i+1] > a) /\ (i = 0 \/ t[i-1] < b)}
TrimSafe == ~Is_("series") \/ LET k == Asc(Kept(T1, c.a, c.b)) IN
  IF ~Covers(T1, c.a, c.b) THEN Say("SEEN", "short")
  ELSE /\ Size(k) > 0 /\ Covers(Pick(T1, k), c.a, c.b) /\ SameOver(T1, V1, Pick(T1, k), Pick(V1, k), c.a, c.b)
       \* and nothing less is enough, where the line has a corner there
       /\ \A j \in Dom(k) : LET less == Asc({k[i] : i \in Dom(k) \ {j}}) IN
            (j \in {0, Size(k) - 1} => (Size(less) < 1 \/ ~Covers(Pick(T1, less), c.a, c.b) \/ T1[k[j]] \in {c.a, c.b}))
       /\ (Size(k) < Size(T1) => Say("SEEN", "trimmed"))
EmittedSeries == ~Is_("series") \/ (MaxS(c.t) * 7 + MinS(c.t) * 5 + Cardinality(c.t) * 3 + c.a + c.b * 2 + Seed) % Every # 0
                 \/ \A k \in {"flow", "waves", "sea"} : Say("SCN", [kind |-> k, t |-> T1, a |-> c.a, b |-> c.b, hi |-> 1 + ((c.a + c.b) % 3)])

\* ------------------------------------------------------------------- place
\* a straight shore 14 intervals long, lagoon, cliff, and an outlet to the left, the right, or between two transects
Dx0 == 10
P0 == [SpitWidth |-> 8, RiverWidth |-> 40, UpstreamLength |-> 55, RiverSlope |-> 1/300]
I0 == [OutletWidth |-> 10, OutletBed |-> -1, LagoonBed |-> -2, BarrierElev |-> 3]
Pt(x, y) == V([i \in 0..1 |-> IF i = 0 THEN x ELSE y])
Out0(v) == CASE v = 0 -> << Pt(3, -41), Pt(12, -18), Pt(33, -19), Pt(46, 4) >>
             [] v = 1 -> << Pt(-2, -41), Pt(-13, -22), Pt(-34, -17), Pt(-47, 4) >>
             [] v = 2 -> << Pt(14, -41), Pt(16, 4) >>
             [] OTHER -> << Pt(-13, -41), Pt(-17, 4) >>
Shapes(v, w) == [ shore |-> << Pt(-73, 0), Pt(-18, 0), Pt(28, 0), Pt(67, 0) >>, river |-> Pt(0, -150),
                  lagoon |-> IF w = 0 THEN << Pt(-52, -40), Pt(7, -42), Pt(58, -39) >> ELSE << Pt(-52, -40), Pt(58, -39), Pt(57, -60), Pt(-51, -61), Pt(-52, -40) >>,
                  cliff |-> << Pt(-104, -70), Pt(-7, -74), Pt(103, -71) >>, outlet |-> Out0(v) ]
Each(s, Op(_)) == [ shore |-> [i \in 1..Len(s.shore) |-> Op(s.shore[i])], river |-> Op(s.river), lagoon |-> [i \in 1..Len(s.lagoon) |-> Op(s.lagoon[i])],
                   cliff |-> [i \in 1..Len(s.cliff) |-> Op(s.cliff[i])], outlet |-> [i \in 1..Len(s.outlet) |-> Op(s.outlet[i])] ]
Backwards(s) == [s EXCEPT !.shore = RevSeq(@), !.outlet = RevSeq(@), !.cliff = RevSeq(@), !.lagoon = RevSeq(@)]
Norms == (-7)..7
Angle(k) == IF k > 4 THEN (k * Pi) / 8 + 1 ELSE (k * Pi) / 8
Orig(k) == IF k = 0 THEN Pt(0, 0) ELSE Pt(1570000, 5180000)
PlaceCase == \E n \in Norms, o \in 0..1, v \in 0..3, w \in 0..1, b \in BOOLEAN : c' = [n |-> n, o |-> o, v |-> v, w |-> w, b |-> b]
Og == Orig(c.o)
Nm == Angle(c.n)
Pts == << Pt(0, 0), Pt(3, 4), Pt(-20, 7), Pt(100, -55) >>
Dist(p, q) == Sqrt((p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1]))
Area(p, q, r) == (q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1])
Isometric == ~Is_("place") \/ LET R(k) == ToReal(Og, Nm, Pts[k]) IN
  /\ \A i, j \in 1..4 : Near(Dist(R(i), R(j)), Dist(Pts[i], Pts[j]), 0, 1/1000000)
  /\ Near(Area(R(1), R(2), R(3)), Area(Pts[1], Pts[2], Pts[3]), 0, 1/10000)
  \* out to sea is where the normal points (a bearing: clockwise from north)
  /\ LET s == ToReal(Og, Nm, Pt(0, 1)) IN Near(s[0] - Og[0], Sin(Nm), 0, 1/1000000) /\ Near(s[1] - Og[1], Cos(Nm), 0, 1/1000000)
RoundTrip == ~Is_("place") \/ \A k \in 1..4 : VNear(ToModel(Og, Nm, ToReal(Og, Nm, Pts[k])), Pts[k], 0, 1/1000000)
\* the shore between two walls: trimming it again changes nothing, and a turned map is trimmed alike
TT == V([i \in 0..3 |-> <<-30, -4, 7, 30>>[i+1]])
TA == V([i \in 0..3 |-> <<-9, -12, -4, -10>>[i+1]])
TB == V([i \in 0..3 |-> <<5, 0, 6, 3>>[i+1]])
Slant(v) == << Pt(v - 3, -6), Pt(v, -1), Pt(v + 2, 2) >>
TrimSound == ~Is_("place") \/ \A v \in (-7)..7 : LET t == Trimmed(Slant(v), TT, TA, TB)  u == Trimmed(t, TT, TA, TB) IN
  /\ \A i \in 1..3 : VNear(u[i], t[i], 0, 1/1000000)
  /\ Cardinality(Meets(t[1], t[2], TT, TA)) \in 1..2 /\ Near(Area(t[1], t[2], Slant(v)[1]), 0, 0, 1/1000000) /\ Near(Area(t[2], t[3], Slant(v)[3]), 0, 0, 1/1000000)
  /\ (t[1][1] < Slant(v)[1][1] => Say("SEEN", "extended")) /\ (t[1][1] > Slant(v)[1][1] \/ t[3][1] < Slant(v)[3][1] => Say("SEEN", "cut"))
Steep == RAbs(Cos(Nm)) < 1/10         \* the line is fitted as y against x
Home == FromShapes(Shapes(c.v, c.w), I0, P0, Dx0)
Away == LET s == Each(Shapes(c.v, c.w), LAMBDA p : ToReal(Og, Nm, p)) IN FromShapes(IF c.b THEN Backwards(s) ELSE s, I0, P0, Dx0)
AllOf(f, g, tol) == \A k \in DOMAIN f : IF k \in {"ew", "ee"} THEN Near(f[k], g[k], 0, tol) ELSE VNear(f[k], g[k], 0, tol)
SameModel == ~Is_("place") \/ Steep \/
  (/\ ~Home.tie /\ ~Home.refused /\ ~Away.tie /\ ~Away.refused /\ AllOf(Away.g, Home.g, 1/100000)
   /\ VNear(Away.o, Og, 0, 1/100000) /\ Near(Sin(Away.norm), Sin(Nm), 0, 1/1000000) /\ Near(Cos(Away.norm), Cos(Nm), 0, 1/1000000)
   /\ (c.n # 0 => Say("SEEN", "turned")) /\ (~Away.right => Say("SEEN", "to the left")) /\ (Away.between => Say("SEEN", "between")))
Flip(s) == Each(s, LAMBDA p : Pt(-p[0], p[1]))
Mirrored == ~Is_("place") \/ c.n # 0 \/ c.o # 0 \/
  LET m == FromShapes(Flip(Shapes(c.v, c.w)), I0, P0, Dx0).g  h == Home.g IN
  /\ \A k \in {"y0", "y1", "y2", "y3", "y4", "z0", "z1", "z2", "z3"} : VNear(m[k], Rev(h[k]), 0, 1/1000000)
  /\ VNear(m.x, Rev(V([i \in Dom(h.x) |-> -h.x[i]])), 0, 1/1000000) /\ VNear(m.e, V([i \in 0..1 |-> -h.e[i]]), 0, 1/1000000)
\* what every first state has to be like
Sound(g, Dx) == LET D == Dom(g.x)  chan == {i \in D : ~IsNaN(g.y1[i])} IN
  /\ \A i \in D : i = 0 \/ Near(g.x[i] - g.x[i-1], Dx, 0, 1/1000000)
  /\ \E i \in D : REq(g.x[i], 0)
  /\ chan # {} /\ (\A i \in MinS(chan)..MaxS(chan) : i \in chan)
  /\ \A i \in D : (i \in chan) = (~IsNaN(g.y2[i])) /\ (i \in chan) = (~IsNaN(g.z1[i])) /\ (i \in chan) = (~IsNaN(g.z2[i]))
  /\ \A i \in D : g.y3[i] <= g.y0[i] /\ g.y4[i] <= g.y3[i]
  /\ \A i \in chan : g.y0[i] > g.y1[i] /\ Near(g.y1[i] - g.y2[i], g.ew, 0, 1/1000000) /\ g.y2[i] > g.y3[i] /\ g.y3[i] > g.y4[i]
  \* the outlet leaves the lagoon at its upstream end, and the mouth is past the last transect it crosses
  /\ \E i \in chan : REq(g.x[i], g.e[0])
  /\ (g.e[0] <= g.e[1] => \A i \in chan : g.e[0] <= g.x[i] /\ g.x[i] <= g.e[1])
  /\ (g.e[0] > g.e[1] => \A i \in chan : g.e[0] >= g.x[i] /\ g.x[i] >= g.e[1])
StraightSound == ~Is_("place") \/
  (/\ (~Steep => Sound(Away.g, Dx0))
   /\ \A l \in {0, 4, 55, 100}, r \in {0, 7, 60} : LET S == [ShorelineLengthLeft |-> l, ShorelineLengthRight |-> r, BeachWidth |-> 45] IN
        LET g == Straight(S, I0, P0, Dx0) IN Sound(g, Dx0) /\ g.x[0] <= 0 - l /\ g.x[Size(g.x)-1] >= r /\ g.x[0] > (0 - l) - Dx0 /\ g.x[Size(g.x)-1] < r + Dx0)

\* --------------------------------------------------------- generated series
SynthCase == \E k \in {1, 5, 20}, g \in 1..3, s \in [1..(2 + Deep) -> 0..2], m \in 0..1 : c' = [k |-> k, g |-> g, s |-> s, m |-> m]
Ev(f) == [j \in DOMAIN c.s |-> [at |-> j * (c.g / 2), size |-> f * c.s[j] * 10]]
N1(f) == [m |-> f * (c.m * 10), rate |-> 2 / c.g, p |-> 9/10, k1 |-> c.k / 10, k2 |-> 1/50]
Tiny == 1/10000000
Times == {j * (c.g / 4) : j \in 0..8}
FlowSound == ~Is_("synth") \/
  /\ Near(Flow(Ev(1), 0, N1(1)), (((N1(1).m * (9/10)) * (2 / c.g)) / (c.k / 10)) + (((N1(1).m * (1/10)) * (2 / c.g)) * 50), 0, 1/1000000)
  /\ \A t \in Times : Flow(Ev(1), t, N1(1)) >= 0 /\ Near(Flow(Ev(2), t, N1(2)), 2 * Flow(Ev(1), t, N1(1)), 1/1000000000, 1/1000000000)
  \* every event adds its size at once ..
  /\ \A j \in DOMAIN c.s : Near(Flow(Ev(1), Ev(1)[j].at, N1(1)) - Flow(Ev(1), Ev(1)[j].at - Tiny, N1(1)), Ev(1)[j].size, 0, 1/1000) /\ (c.s[j] > 0 => Say("SEEN", "events"))
  \* .. and it falls otherwise
  /\ \A t1, t2 \in Times : (t1 < t2 /\ ~\E j \in DOMAIN c.s : t1 < Ev(1)[j].at /\ Ev(1)[j].at <= t2) => Flow(Ev(1), t2, N1(1)) <= Flow(Ev(1), t1, N1(1))
Hours == 0..50
TideSound == ~Is_("synth") \/ LET r == c.k  m == c.g - 2  T(s) == Tide(s, m, r) IN
  /\ Near(T(0), m, 0, Tiny) /\ (\A h \in Hours : RAbs(T(h * 3600) - m) <= r / 2 + Tiny /\ Near(T(h * 3600 + TidePeriod), T(h * 3600), 0, Tiny))
  /\ Near(T(TidePeriod / 4), m + r / 2, 0, Tiny) /\ Near(T(3 * (TidePeriod / 4)), m - r / 2, 0, Tiny)
  \* two tides in 24 h 50.4 min
  /\ TidePeriod * 2 = 24 * 3600 + 50 * 60 + 24 /\ Say("SEEN", "tide")

Init == ph = 0 /\ c = << >>
Next == ph = 0 /\ ph' = 1 /\ (CASE What = "config" -> ConfigCase [] What = "series" -> SeriesCase [] What = "place" -> PlaceCase [] OTHER -> SynthCase)
Spec == Init /\ [][Next]_vars
=============================================================================
