------------------------------ MODULE Regular ------------------------------
(* Regular partitions: a grid of div_x by div_y rectangles over a region.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MAXAXIS      \* longest axis explored by the design check

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
(* the most balanced factorisation <<d, e>>, d <= e, d * e = k *)
SmallDivisor(k) == CHOOSE d \in 1..k : /\ k % d = 0 /\ d * d <= k
                                       /\ \A f \in 1..k : (k % f = 0 /\ f * f <= k) => f <= d
Balanced(k) == <<SmallDivisor(k), k \div SmallDivisor(k)>>
(* the larger divisor divides the larger axis *)
Grid(k, X, Y) == IF X < Y THEN Balanced(k) ELSE <<Balanced(k)[2], Balanced(k)[1]>>
Fits(k, X, Y) == Grid(k, X, Y)[1] <= X /\ Grid(k, X, Y)[2] <= Y

(* an axis of length n cut in d consecutive pieces: lens[i] is the i-th length *)
RECURSIVE SumTo(_, _)
SumTo(lens, i) == IF i = 0 THEN 0 ELSE lens[i] + SumTo(lens, i - 1)
GoodCut(lens, n, d) == /\ Len(lens) = d
                       /\ \A i \in 1..d : lens[i] >= 1
                       /\ SumTo(lens, d) = n
                       /\ \A i, j \in 1..d : lens[i] - lens[j] <= n % d
PieceOf(lens, x) == CHOOSE i \in DOMAIN lens : SumTo(lens, i - 1) <= x /\ x < SumTo(lens, i)

(* a labelling (row-major sequence) is a regular tiling *)
Label(lab, Y, x, y) == lab[x * Y + y + 1]
RowPiece(lab, Y, dy, x) == Label(lab, Y, x, 0) \div dy
ColPiece(lab, Y, dy, y) == Label(lab, Y, 0, y)
Count(f(_), n, v) == Cardinality({i \in 0..(n - 1) : f(i) = v})
IsTiling(lab, X, Y, k) ==
  LET dx == Grid(k, X, Y)[1]
      dy == Grid(k, X, Y)[2]
      rp(x) == RowPiece(lab, Y, dy, x)
      cp(y) == ColPiece(lab, Y, dy, y)
      rlens == [i \in 1..dx |-> Count(rp, X, i - 1)]
      clens == [i \in 1..dy |-> Count(cp, Y, i - 1)]
  IN /\ Len(lab) = X * Y
     /\ \A x \in 0..(X - 1) : rp(x) \in 0..(dx - 1)
     /\ \A y \in 0..(Y - 1) : cp(y) \in 0..(dy - 1)
     /\ \A x \in 0..(X - 2) : rp(x) <= rp(x + 1)
     /\ \A y \in 0..(Y - 2) : cp(y) <= cp(y + 1)
     /\ GoodCut(rlens, X, dx)
     /\ GoodCut(clens, Y, dy)
     /\ \A x \in 0..(X - 1), y \in 0..(Y - 1) : Label(lab, Y, x, y) = rp(x) * dy + cp(y)

(* which points may represent a cluster: members with least sum of distances.
   D is the matrix of distances between points.                              *)
RECURSIVE SumDist(_, _, _)
SumDist(D, p, S) == IF S = {} THEN 0 ELSE LET q == CHOOSE x \in S : TRUE IN D[p][q] + SumDist(D, p, S \ {q})
MembersOf(lab, c) == {p \in DOMAIN lab : lab[p] = c}
Best(D, S) == {p \in S : \A q \in S : SumDist(D, p, S) <= SumDist(D, q, S)}

----------------------------------------------------------------------------
(* Design: the cutting rule (quotient, plus one when the leftover is large   *)
(* and the pieces still fit; the last piece takes what is left) applied to   *)
(* every axis, and tiling of small regions built from two cuts.              *)
VARIABLES n, d, lens, phase
vars == <<n, d, lens, phase>>
CutRule(m, e) ==
  LET q == m \div e
      r == m % e
      grow == 2 * r > q /\ r > e * (e - q - 1)
      w == IF grow THEN q + 1 ELSE q
  IN [i \in 1..e |-> IF i < e THEN w ELSE m - (e - 1) * w]
Init == n \in 1..MAXAXIS /\ d \in 1..n /\ lens = <<>> /\ phase = "cutting"
(* pieces are laid one after another *)
Next == /\ phase = "cutting"
        /\ LET want == CutRule(n, d) IN
           IF Len(lens) < d THEN lens' = Append(lens, want[Len(lens) + 1]) /\ phase' = "cutting"
           ELSE lens' = lens /\ phase' = "done"
        /\ UNCHANGED <<n, d>>
Spec == Init /\ [][Next]_vars
CutsGood == phase = "done" => GoodCut(lens, n, d)
EveryPositionInOnePiece == phase = "done" =>
   \A x \in 0..(n - 1) : Cardinality({i \in 1..d : SumTo(lens, i - 1) <= x /\ x < SumTo(lens, i)}) = 1
(* the labelling made of two good cuts is a tiling (second axis of length 4) *)
TilingFromCuts ==
  (phase = "done" /\ n <= 6) =>
    \A e \in 1..4 :
      LET k == d * e
          Y == 4
          c == CutRule(Y, e)
          lab == [p \in 1..(n * Y) |-> (PieceOf(lens, (p - 1) \div Y) - 1) * e + PieceOf(c, (p - 1) % Y) - 1]
      IN Grid(k, n, Y) = <<d, e>> =>
           /\ IsTiling(lab, n, Y, k)
           /\ {lab[p] : p \in DOMAIN lab} = 0..(k - 1)
BalancedOK == LET b == Balanced(n) IN b[1] * b[2] = n /\ b[1] <= b[2] /\
                 \A f \in 1..n : n % f = 0 => b[2] - b[1] <= Max2(f, n \div f) - Min2(f, n \div f)
=============================================================================
