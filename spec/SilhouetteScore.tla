--------------------------- MODULE SilhouetteScore ---------------------------
(* The silhouette coefficient of a point and the score of a partition, in   *)
(* units of 1/S.                                                            *)
EXTENDS SeriesMath
CONSTANT S
----------------------------------------------------------------------------
(* the definition: dd is a matrix of distances, lab the label of each point *)
Others(lab, p, c) == {q \in DOMAIN lab : q # p /\ lab[q] = c}
Total(dd, p, Q) == SumF(Q, dd[p])
Labels(lab) == {lab[q] : q \in DOMAIN lab}
(* numerator and denominator of the smallest mean distance to another cluster *)
Nearest(dd, lab, p) ==
  LET C == Labels(lab) \ {lab[p]}
      T == [c \in C |-> Total(dd, p, Others(lab, p, c))]
      Z == [c \in C |-> Cardinality(Others(lab, p, c))]
      c == CHOOSE x \in C : \A y \in C : T[x] * Z[y] <= T[y] * Z[x]
  IN <<T[c], Z[c]>>
Coefficient(dd, lab, p) ==
  LET own == Others(lab, p, lab[p])
      ta == Total(dd, p, own)  za == Cardinality(own)
      b == Nearest(dd, lab, p)
      A == ta * b[2]  B == b[1] * za
      m == Max2(A, B)
  IN IF own = {} \/ m = 0 THEN 0
     ELSE IF B >= A THEN ((B - A) * S) \div m ELSE -(((A - B) * S) \div m)
RECURSIVE SumC(_, _, _)
SumC(dd, lab, p) == IF p = 0 THEN 0 ELSE Coefficient(dd, lab, p) + SumC(dd, lab, p - 1)
Total0(dd, lab) == SumC(dd, lab, Len(lab))
Score(dd, lab) == Total0(dd, lab) \div Len(lab)
Scorable(lab) == Cardinality(Labels(lab)) \in 2..(Len(lab) - 1)
(* the same partition under other labels *)
SamePartition(l1, l2) == DOMAIN l1 = DOMAIN l2 /\ \A p, q \in DOMAIN l1 : (l1[p] = l1[q]) = (l2[p] = l2[q])
=============================================================================
