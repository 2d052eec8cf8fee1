----------------------------- MODULE Synthetic -----------------------------
(* C30: synthetic series whose labels are known. A table is drawn from a    *)
(* stream of random numbers: first the places of the medoids, then for      *)
(* every row its clustering (k, seed), a cluster of that clustering, one of *)
(* the medoids and the height at which its line starts. Two tables drawn    *)
(* from the same stream are compared (a and b). A profile is delayed by     *)
(* padding it with zeros at both sides.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS KS, SEEDS, SIDE, NMEDOIDS, NROWS, STREAM, HEIGHTS, Within       \* Within = FALSE: clusters are drawn from the largest k
VARIABLES stream, a, b
vars == <<stream, a, b>>
Nth(S, r) == LET n == r % Cardinality(S) IN CHOOSE x \in S : Cardinality({y \in S : y < x}) = n
(* a line tells the cluster and the seed: steeper for earlier clusters,
   rising for odd seeds                                                      *)
Slope(k, seed, c) == (k - c) * (IF seed % 2 = 1 THEN 1 ELSE -1)
Line(row, L, w) == [j \in 1..L |-> row.h + (j - 1) * w * Slope(row.k, row.seed, row.c)]
RowFits(row, ks, seeds, X, Y) == row.k \in ks /\ row.seed \in seeds /\ row.c \in 0..(row.k - 1) /\ row.x \in 0..(X - 1) /\ row.y \in 0..(Y - 1)
FewMedoids(T, n) == Cardinality({<<T[i].x, T[i].y>> : i \in DOMAIN T}) <= n
(* the paddings that are possible for a series of L samples *)
Padding(L) == LET p == (15 * L) \div 100 IN IF p < 30 THEN p ELSE 30
Delayed(f, L, d) == [j \in 1..L |-> IF j <= d \/ j > d + Len(f) THEN 0 ELSE f[j - d]]
----------------------------------------------------------------------------
New == [medoids |-> <<>>, rows |-> <<>>, at |-> 1]
Init == stream \in [1..(2 * NMEDOIDS + 5 * NROWS) -> STREAM] /\ a = New /\ b = New
Draw(t) ==
  LET r(n) == stream[t.at + n] IN
  IF Len(t.medoids) < NMEDOIDS
  THEN [t EXCEPT !.medoids = Append(@, <<r(0) % SIDE, r(1) % SIDE>>), !.at = @ + 2]
  ELSE LET k == Nth(KS, r(0))  m == t.medoids[1 + (r(3) % NMEDOIDS)]
           clusters == IF Within THEN k ELSE CHOOSE x \in KS : \A y \in KS : y <= x IN
       [t EXCEPT !.rows = Append(@, [k |-> k, seed |-> Nth(SEEDS, r(1)), c |-> r(2) % clusters, x |-> m[1], y |-> m[2], h |-> Nth(HEIGHTS, r(4))]), !.at = @ + 5]
Done(t) == Len(t.rows) = NROWS
Next == \/ ~Done(a) /\ a' = Draw(a) /\ UNCHANGED <<stream, b>>
        \/ ~Done(b) /\ b' = Draw(b) /\ UNCHANGED <<stream, a>>
Spec == Init /\ [][Next]_vars
Fits == \A t \in {a, b} : \A i \in DOMAIN t.rows : RowFits(t.rows[i], KS, SEEDS, SIDE, SIDE)
Few == FewMedoids(a.rows, NMEDOIDS)
Repeatable == \A i \in DOMAIN a.rows : i \in DOMAIN b.rows => a.rows[i] = b.rows[i]
(* the slope is never flat, and its sign tells the parity of the seed *)
Told == \A i \in DOMAIN a.rows : LET w == a.rows[i]  s == Slope(w.k, w.seed, w.c) IN s # 0 /\ (s > 0) = (w.seed % 2 = 1)
(* the delayed profile keeps every sample, in order, and the length *)
DelayKeeps == \A L \in 7..9 : LET p == Padding(L)  f == [j \in 1..(L - p) |-> j] IN
  \A d \in 0..p : SelectSeq(Delayed(f, L, d), LAMBDA v : v # 0) = f
=============================================================================
