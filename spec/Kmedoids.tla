------------------------------ MODULE Kmedoids ------------------------------
(* k-medoids: swap search over the medoids of a distance matrix.            *)
(* d is a matrix (sequence of rows) over points 1..n; med a sequence of k   *)
(* distinct points.  Tolerances are in tenths.                              *)
EXTENDS SeriesMath, TLC, Json

CONSTANTS KN, KK, KVALS, KTOL10      \* explored by the design check

Range(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Range(s)) = Len(s)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Nearest(d, med, p) == MinOf({d[med[j]][p] : j \in DOMAIN med})
CostOf(d, med) == SumSeq([p \in DOMAIN d |-> Nearest(d, med, p)])
(* labels are acceptable when each is a nearest medoid, and each medoid is in its own cluster *)
GoodLabels(d, med, lab) == /\ Len(lab) = Len(d)
                           /\ \A p \in DOMAIN d : lab[p] \in DOMAIN med /\ d[med[lab[p]]][p] = Nearest(d, med, p)
                           /\ \A j \in DOMAIN med : lab[med[j]] = j
GoodMedoids(med, k, n) == Len(med) = k /\ Distinct(med) /\ Range(med) \subseteq 1..n
Candidates(mode, med, lab, j) ==
  (IF mode = "lite" THEN {p \in DOMAIN lab : lab[p] = j} ELSE DOMAIN lab) \ Range(med)
Swap(med, j, i) == [med EXCEPT ![j] = i]
Gain10(d, med, j, i) == 10 * (CostOf(d, med) - CostOf(d, Swap(med, j, i)))
LocalOptimum(d, med, lab, mode, tol10) ==
  \A j \in DOMAIN med : \A i \in Candidates(mode, med, lab, j) : Gain10(d, med, j, i) <= tol10
ClusterCosts(d, med, lab) == [j \in DOMAIN med |-> SumF({p \in DOMAIN lab : lab[p] = j}, d[med[j]])]

----------------------------------------------------------------------------
(* design check: the search *)
VARIABLES d, mode, first, med, lab, cost, done
vars == <<d, mode, first, med, lab, cost, done>>
Pairs == {<<i, j>> \in (1..KN) \X (1..KN) : i < j}
Matrices == {[i \in 1..KN |-> [j \in 1..KN |-> IF i = j THEN 0 ELSE IF i < j THEN f[<<i, j>>] ELSE f[<<j, i>>]]]
               : f \in [Pairs -> KVALS]}
Labels(dd, mm) == [p \in 1..KN |-> IF p \in Range(mm) THEN CHOOSE j \in DOMAIN mm : mm[j] = p
                     ELSE MinOf({j \in DOMAIN mm : dd[mm[j]][p] = Nearest(dd, mm, p)})]
Init == /\ d \in Matrices /\ mode \in {"lite", "robust"}
        /\ first \in {s \in [1..KK -> 1..KN] : Distinct(s)}
        /\ med = first /\ lab = Labels(d, first) /\ cost = CostOf(d, first) /\ done = FALSE
Improve == /\ ~done
           /\ \E j \in DOMAIN med : \E i \in Candidates(mode, med, lab, j) :
                /\ Gain10(d, med, j, i) > KTOL10
                /\ med' = Swap(med, j, i) /\ lab' = Labels(d, med') /\ cost' = CostOf(d, med')
           /\ UNCHANGED <<d, mode, first, done>>
Stop == /\ ~done /\ LocalOptimum(d, med, lab, mode, KTOL10)
        /\ done' = TRUE /\ UNCHANGED <<d, mode, first, med, lab, cost>>
Next == Improve \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
MedoidsOk == GoodMedoids(med, KK, KN)
LabelsOk == GoodLabels(d, med, lab)
CostOk == cost = CostOf(d, med) /\ cost = SumSeq(ClusterCosts(d, med, lab)) /\ cost <= CostOf(d, first)
Terminal == done => LocalOptimum(d, med, lab, mode, KTOL10)
(* no improvement is lost: a robust optimum is also a lite optimum *)
Modes == LocalOptimum(d, med, lab, "robust", KTOL10) => LocalOptimum(d, med, lab, "lite", KTOL10)
Decreases == [][med' # med => cost' < cost]_vars
Ends == <>done
=============================================================================
