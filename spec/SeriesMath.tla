----------------------------- MODULE SeriesMath -----------------------------
(* Arithmetic over series shared by the specifications: sums, squared       *)
(* distances (dynamic time warping by its dynamic program, euclidean).      *)
EXTENDS Integers, Sequences, FiniteSets

----------------------------------------------------------------------------
(* arithmetic over series *)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Abs(a) == IF a < 0 THEN -a ELSE a
Sq(a) == a * a
LastN(s, n) == SubSeq(s, Max2(1, Len(s) - n + 1), Len(s))
(* squared distances: dynamic time warping, euclidean, difference of sums *)
RECURSIVE DTWRow(_, _, _, _, _), DTWRows(_, _, _, _)
(* one row of the dynamic program: prev is the previous row, acc the row so far *)
DTWRow(x, b, prev, acc, j) ==
  IF j > Len(b) THEN acc
  ELSE LET c == Sq(x - b[j])
           m == IF prev = <<>> THEN (IF j = 1 THEN 0 ELSE acc[j - 1])
                ELSE IF j = 1 THEN prev[1]
                ELSE Min2(prev[j], Min2(prev[j - 1], acc[j - 1]))
       IN DTWRow(x, b, prev, Append(acc, c + m), j + 1)
DTWRows(a, b, prev, i) ==
  IF i > Len(a) THEN prev[Len(b)]
  ELSE DTWRows(a, b, DTWRow(a[i], b, prev, <<>>, 1), i + 1)
DTW2(a, b) == DTWRows(a, b, <<>>, 1)
Euclid2(a, b) == SumSeq([i \in DOMAIN a |-> Sq(a[i] - b[i])])
SumDiff(a, b) == Abs(SumSeq(a) - SumSeq(b))
SqSum(s) == SumSeq([i \in DOMAIN s |-> Sq(s[i])])
(* o is the square root of q, rounded up or down *)
IsRoot(o, q) == (o - 1) * (o - 1) <= q /\ q <= (o + 1) * (o + 1)
RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN f[i] + SumF(S \ {i}, f)
=============================================================================
