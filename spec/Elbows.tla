------------------------------- MODULE Elbows -------------------------------
(* Combinations of a suite, costs of partitions, elbows of costs.           *)
EXTENDS Integers, Sequences, FiniteSets
Combos(ks, seeds) == {<<k, sd>> : k \in ks, sd \in seeds}
RECURSIVE SortedK(_)
SortedK(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedK(S \ {m})

(* half the second derivative at interior position i, as <<numerator, positive denominator>> *)
Curv(ks, ys, i) ==
  LET a == ks[i] - ks[i - 1]  b == ks[i + 1] - ks[i]  c == ks[i + 1] - ks[i - 1] IN
  <<ys[i - 1] * b - ys[i] * c + ys[i + 1] * a, a * b * c>>
Geq(p, q) == p[1] * q[2] >= q[1] * p[2]
Elbows(ks, ys) == {ks[i] : i \in {j \in 2..(Len(ks) - 1) : \A l \in 2..(Len(ks) - 1) : Geq(Curv(ks, ys, j), Curv(ks, ys, l))}}
(* cost : combination -> cost *)
ElbowsOfSeed(ks, cost, sd) == LET o == SortedK(ks) IN Elbows(o, [i \in DOMAIN o |-> cost[<<o[i], sd>>]])

RECURSIVE SumF2(_, _)
SumF2(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF2(S \ {x}, f)
(* cost of a partition: squared distances of the members to the medoid of their cluster *)
SquaredCost(d, mem, med) == SumF2(DOMAIN mem, [i \in DOMAIN mem |-> d[med[mem[i] + 1]][i] * d[med[mem[i] + 1]][i]])
TotalCost(d, mem, med) == SumF2(DOMAIN mem, [i \in DOMAIN mem |-> d[med[mem[i] + 1]][i]])
=============================================================================
