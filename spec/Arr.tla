-------------------------------- MODULE Arr --------------------------------
(***************************************************************************)
(* Small vocabulary on zero-based arrays used by all the other modules.    *)
(***************************************************************************)
EXTENDS Real64, TLC, Sequences, FiniteSets

Dom(f)        == 0..(Size(f)-1)
Last(f)       == f[Size(f)-1]
Full(n, v)    == IF n <= 0 THEN << >> ELSE V([i \in 0..(n-1) |-> v])
Pick(f, ix)   == IF Size(ix) = 0 THEN << >> ELSE V([k \in Dom(ix) |-> f[ix[k]]])
Range(f)      == {f[k] : k \in Dom(f)}
\* array g with g[ix[k]] = vals[k], elsewhere f
PutAt(f, ix, vals) ==
  V([i \in Dom(f) |-> IF \E k \in Dom(ix) : ix[k] = i
                      THEN vals[CHOOSE k \in Dom(ix) : ix[k] = i] ELSE f[i]])
SumOver(S, F(_)) == IF S = {} THEN 0 ELSE Sum([k \in Dom(Asc(S)) |-> F(Asc(S)[k])])
MinS(S) == CHOOSE m \in S : \A n \in S : m <= n
MaxS(S) == CHOOSE m \in S : \A n \in S : m >= n
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Half(a) == a / 2

\* piecewise linear interpolation of (xs, ys), constant beyond the ends (numpy.interp)
Interp(x, xs, ys) ==
  LET n == Size(xs) IN
  IF x <= xs[0] THEN ys[0]
  ELSE IF x >= xs[n-1] THEN ys[n-1]
  ELSE LET k == CHOOSE j \in 0..(n-2) : xs[j] <= x /\ x < xs[j+1]
       IN  ys[k] + (ys[k+1] - ys[k]) * ((x - xs[k]) / (xs[k+1] - xs[k]))

AnyNaN(f) == \E i \in Dom(f) : IsNaN(f[i])
\* the clauses of a record of booleans which are FALSE
FalseIn(rec) == {c \in DOMAIN rec : ~rec[c]}
=============================================================================
