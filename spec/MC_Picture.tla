----------------------------- MODULE MC_Picture -----------------------------
(* Every small hapua drawn in plan, and every film of a short record.        *)
EXTENDS Picture
CONSTANTS N, Every, Seed, Depth
VARIABLES pic, film
vars == <<pic, film>>
None == [none |-> TRUE]
Dx == 10
River == N \div 2
Xs == V([i \in 0..(N-1) |-> Dx * (i - River)])
Places == {5 * k : k \in (-2 * River)..(2 * (N - 1 - River))}
Crossed(e0, e1) == IF e0 < e1 THEN Asc({i \in 0..(N-1) : e0 <= Xs[i] /\ Xs[i] <= e1}) ELSE Rev(Asc({i \in 0..(N-1) : e1 <= Xs[i] /\ Xs[i] <= e0}))
\* lag: transects with lagoon, e0 e1 ends of the outlet, w widths of channel and mouth
Hapua(lag, e0, e1, w, ew, closed) ==
  LET ix == IF closed THEN << >> ELSE Crossed(e0, e1)
      cut(i) == \E k \in Dom(ix) : ix[k] = i
      y3(i) == IF i \in lag THEN i - 12 ELSE -20
  IN [ x |-> Xs, y4 |-> Full(N, -20), y3 |-> V([i \in 0..(N-1) |-> y3(i)]), y2 |-> V([i \in 0..(N-1) |-> IF cut(i) THEN y3(i) + 4 ELSE NaN]),
       y1 |-> V([i \in 0..(N-1) |-> IF cut(i) THEN y3(i) + 4 + w ELSE NaN]), y0 |-> V([i \in 0..(N-1) |-> 40 + i]),
       e |-> V([k \in 0..1 |-> IF closed THEN NaN ELSE IF k = 0 THEN e0 ELSE e1]), ew |-> ew, closed |-> closed, oix |-> ix ]
Mirror(s) == LET F(f) == Rev(f)  n == Size(s.x) IN
  [ s EXCEPT !.x = V([i \in 0..(n-1) |-> -(s.x[n-1-i])]), !.y0 = F(@), !.y1 = F(@), !.y2 = F(@), !.y3 = F(@), !.y4 = F(@), !.e = V([i \in 0..1 |-> -(s.e[i])]),
             !.oix = V([k \in Dom(s.oix) |-> n - 1 - s.oix[k]]) ]
Init == pic = None /\ film = None
Draw == /\ pic = None /\ film = None /\ film' = None
        /\ \E lag \in SUBSET (0..(N-1)), e0 \in Places, e1 \in Places, w \in {4, 16}, ew \in {3, 12}, closed \in BOOLEAN :
             /\ River \in lag /\ (closed => e0 = 0 /\ e1 = 0 /\ w = 4 /\ ew = 3)
             /\ \E i \in lag : Xs[i] - Dx <= e0 /\ e0 <= Xs[i] + Dx
             /\ pic' = Hapua(lag, e0, e1, w, ew, closed)
Shoot == /\ pic = None /\ film = None /\ pic' = None
         /\ \E n \in 1..Depth, first \in 0..Depth, end \in -1..(Depth + 2), step \in 1..3 :
              /\ first < n /\ end # 0 /\ film' = [n |-> n, first |-> first, end |-> end, step |-> step]
Next == Draw \/ Shoot
Spec == Init /\ [][Next]_vars
Is == pic # None
OnLine(f, a, b) == \E k \in Dom(f.x) : REq(f.x[k], a) /\ REq(f.y[k], b)
\* all of the shore is in the picture: there still, or in the mouth
ShoreShown == Is => \A i \in Dom(pic.x) : OnLine(ShoreLine(pic), pic.x[i], pic.y0[i]) # OnLine(ShoreDots(pic), pic.x[i], pic.y0[i])
\* the lines that are broken for the outlet are broken between its banks, as wide as the mouth
Gaps(f) == {k \in Dom(f.x) : IsNaN(f.x[k])}
BanksMeet == Is /\ ~pic.closed => LET f == ShoreLine(pic)  g == MinS(Gaps(f)) IN
  /\ Cardinality(Gaps(f)) = 1 /\ REq(f.x[g+1] - f.x[g-1], pic.ew) /\ Cardinality(Gaps(LagoonLine(pic))) = 1
\* banks do not change places; what they pass is on their side
Apart == Is /\ ~pic.closed => /\ Mouth(pic).l < Mouth(pic).r
  /\ \A k \in Dom(Along(pic, "l").x) : \A j \in Dom(Along(pic, "r").x) :
       Regular(pic, "l") /\ Regular(pic, "r") /\ REq(Along(pic, "l").x[k], Along(pic, "r").x[j]) => Along(pic, "l").y[k] # Along(pic, "r").y[j]
FlipX(f) == Line(V([k \in Dom(f.x) |-> -(Rev(f.x)[k])]), Rev(f.y))
SameLine(f, g) == VNear(f.x, g.x, 0, 1/1000000) /\ VNear(f.y, g.y, 0, 1/1000000)
VEq2(f, g) == VNear(V([k \in Dom(f.x) |-> -(f.x[k])]), g.x, 0, 1/1000000) /\ VNear(f.y, g.y, 0, 1/1000000)
Mirrored == Is => LET m == TLCEval(Mirror(pic))  other(a) == IF a = "l" THEN "r" ELSE "l" IN
  /\ SameLine(ShoreLine(m), FlipX(ShoreLine(pic))) /\ SameLine(LagoonLine(m), FlipX(LagoonLine(pic))) /\ SameLine(CliffLine(m, [rw |-> 12]), FlipX(CliffLine(pic, [rw |-> 12])))
  /\ (~pic.closed => \A a \in {"l", "r"} : Runs(pic, a) # 0 => LET f == Along(pic, a)  g == Along(m, other(a)) IN VEq2(f, g))
FramesInOrder == film # None => LET f == Frames(film.n, film.first, film.end, film.step) IN \A k \in Dom(f) : f[k] = film.first + (k * film.step)
FramesWithin == film # None => LET f == Frames(film.n, film.first, film.end, film.step) IN
  /\ \A k \in Dom(f) : f[k] < film.n /\ (film.end = -1 \/ f[k] < film.end)
  /\ (film.end = -1 \/ film.end >= film.n => Size(f) > 0 /\ Last(f) + film.step >= film.n)
Mark == IF film # None THEN "film" ELSE IF ~Is THEN "none" ELSE IF pic.closed THEN "closed" ELSE IF Size(pic.oix) = 0 THEN "straight" ELSE IF pic.e[0] < pic.e[1] THEN "right" ELSE "left"
Hash == IF film # None THEN ((film.n * 31 + film.first * 17) + (film.end * 7 + film.step)) % (Every \div 4 + 1)
        ELSE IF Is /\ ~pic.closed THEN ((Floor(pic.e[0]) * 3 + Floor(pic.e[1]) * 5) + (Floor(Sum(pic.y3)) * 11 + Floor(pic.ew))) % (4 * Every) ELSE Seed
Chosen == IF film # None THEN Hash = Seed % (Every \div 4 + 1) ELSE Is /\ (pic.closed \/ Hash = Seed % (4 * Every))
Emitted == Say("SEEN", Mark) /\ (~Chosen \/ Say("SCN", IF film # None THEN film ELSE pic))
=============================================================================
