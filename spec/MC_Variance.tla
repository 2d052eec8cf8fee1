----------------------------- MODULE MC_Variance -----------------------------
EXTENDS Variance
Small == {<<1, 4>>, <<2, 2>>}
Large == {<<1, 5>>, <<2, 2>>, <<3, 1>>}
(* grids for more panels than are explored *)
GridsEven == \A n \in 1..40 : \A s \in {<<2, 3>>, <<3, 2>>, <<3, 3>>} : LET g == Grid(n, s[1], s[2]) IN
  /\ g[1] * g[2] = n
  /\ \A a \in 1..n : n % a = 0 => LET b == n \div a IN (IF a > b THEN a - b ELSE b - a) >= (IF g[1] > g[2] THEN g[1] - g[2] ELSE g[2] - g[1])
  /\ \A i, j \in 1..n : Panel(n, s[1], s[2], i) = Panel(n, s[1], s[2], j) => i = j
ASSUME GridsEven
=============================================================================
