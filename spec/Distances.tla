------------------------------ MODULE Distances ------------------------------
(* The life cycle of a distance matrix (computed, loaded from a file,       *)
(* weighted with the spatial distance), and what is read from it: distances *)
(* to a point, centroids of regions and clusters, intra-cluster cost.       *)
(* Points are numbered 1..X*Y row-major; a matrix is a sequence of rows.    *)
EXTENDS SeriesMath, TLC, Json

CONSTANTS DX, DY, DVALS, DWEIGHT            \* explored by the design check

(* spatial coordinates and squared spatial distance *)
PX(i, Y) == (i - 1) \div Y
PY(i, Y) == (i - 1) % Y
E2(i, j, Y) == Sq(PX(i, Y) - PX(j, Y)) + Sq(PY(i, Y) - PY(j, Y))

(* squared DTW between each two series *)
DTW2Matrix(ser) == [i \in DOMAIN ser |-> [j \in DOMAIN ser |-> DTW2(ser[i], ser[j])]]
(* series of a single sample: the distance itself is an integer *)
DTW1Matrix(ser) == [i \in DOMAIN ser |-> [j \in DOMAIN ser |-> Abs(ser[i] - ser[j])]]

(* an observed entry o, in hundredths, is base plus w times the spatial distance *)
EntryIs(o, base, w, e2) ==
  IF w = 0 \/ e2 = 0 THEN o = 100 * base
  ELSE o >= 100 * base /\ IsRoot(o - 100 * base, 10000 * w * w * e2)
(* ... when X = 1 or Y = 1 (spatial distances are integers) *)
Line(i, j, X, Y) == IF X = 1 THEN Abs(PY(i, Y) - PY(j, Y)) ELSE Abs(PX(i, Y) - PX(j, Y))
LineWeighted(base, w, X, Y) == [i \in DOMAIN base |-> [j \in DOMAIN base |-> base[i][j] + w * Line(i, j, X, Y)]]

(* what is read from a matrix m *)
RowOver(m, p, idx) == [q \in DOMAIN idx |-> m[p][idx[q]]]
SumTo(m, p, S) == SumF(S, m[p])
Centroids(m, S) == {p \in S : \A q \in S : SumTo(m, p, S) <= SumTo(m, q, S)}
ClusterOf(lab, c) == {i \in DOMAIN lab : lab[i] = c}
IntraCost(m, lab, med) == SumF(DOMAIN lab, [i \in DOMAIN lab |-> Sq(m[med[lab[i]]][i])])

RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y IN <<i>> \o SetToSeq2(S \ {i})
Symmetric(m) == \A i, j \in DOMAIN m : m[i][j] = m[j][i]
ZeroDiagonal(m) == \A i \in DOMAIN m : m[i][i] = 0

----------------------------------------------------------------------------
(* The measure: [has, base, wt]. base is the matrix that was adopted last,  *)
(* wt is how many times the weights were added to it.                       *)
NoMatrix == [has |-> 0, base |-> <<>>, wt |-> 0]
Adopt(m, w) == [has |-> 1, base |-> m, wt |-> w]
GoodSize(f, n) == Len(f) = n /\ \A r \in DOMAIN f : Len(f[r]) = n
(* loading: [ok, none, m] *)
LoadOutcome(m, f, n, spatial) ==
  CASE f = <<>> -> [ok |-> 1, none |-> 1, m |-> m]
    [] f # <<>> /\ ~GoodSize(f, n) -> [ok |-> 0, none |-> 1, m |-> m]
    [] OTHER -> [ok |-> 1, none |-> 0, m |-> Adopt(f, IF spatial THEN 1 ELSE 0)]
WeightOutcome(m) == IF m.has = 0 THEN [ok |-> 0, m |-> m] ELSE [ok |-> 1, m |-> [m EXCEPT !.wt = 1]]
(* asking for distances when there may be no matrix yet *)
AskOutcome(m, f, n, spatial, onlyPre, computed) ==
  IF m.has = 1 THEN [ok |-> 1, m |-> m]
  ELSE LET l == LoadOutcome(m, f, n, spatial) IN
       IF l.ok = 1 /\ l.none = 0 THEN [ok |-> 1, m |-> l.m]
       ELSE IF onlyPre THEN [ok |-> 0, m |-> m]
       ELSE [ok |-> 1, m |-> Adopt(computed, 0)]

----------------------------------------------------------------------------
(* design check: a session of one measure over one region *)
VARIABLES ser, spatial, fil, mea, real, last
dvars == <<ser, spatial, fil, mea, real, last>>
DN == DX * DY
Computed == DTW1Matrix(ser)
(* absent, of another region, and of this region *)
Files == {<<>>, <<<<0>>>>, [i \in 1..DN |-> [j \in 1..DN |-> IF i = j THEN 0 ELSE (i * j) % 3]]}
Put(m, r, l) == mea' = m /\ real' = r /\ last' = l /\ UNCHANGED <<ser, spatial, fil>>
DInit == /\ ser \in [1..DN -> DVALS] /\ spatial \in {TRUE, FALSE} /\ fil \in Files
         /\ mea = NoMatrix /\ real = <<>> /\ last = "new"
W == IF spatial THEN DWEIGHT ELSE 0
AddTo(r) == [i \in DOMAIN r |-> [j \in DOMAIN r |-> r[i][j] + W * Line(i, j, DX, DY)]]
(* "real" follows the imperative implementation: it is updated in place *)
Load == LET o == LoadOutcome(mea, fil, DN, spatial) IN
        Put(o.m, IF o.ok = 1 /\ o.none = 0 THEN (IF spatial THEN AddTo(fil) ELSE fil) ELSE real,
            IF o.ok = 0 THEN "refused" ELSE IF o.none = 1 THEN "missing" ELSE "loaded")
ComputeM == Put(Adopt(Computed, 0), Computed, "computed")
Weigh == /\ spatial
         /\ LET o == WeightOutcome(mea) IN
            Put(o.m, IF o.ok = 1 /\ mea.wt = 0 THEN AddTo(real) ELSE real, IF o.ok = 1 THEN "weighted" ELSE "refused")
Ask == \E pre \in {TRUE, FALSE} :
        LET o == AskOutcome(mea, fil, DN, spatial, pre, Computed) IN
        Put(o.m, IF mea.has = 1 \/ o.ok = 0 THEN real
                 ELSE IF GoodSize(fil, DN) THEN (IF spatial THEN AddTo(fil) ELSE fil) ELSE Computed,
            IF o.ok = 1 THEN "asked" ELSE "refused")
PutFile == \E f \in Files : fil' = f /\ last' = "file" /\ UNCHANGED <<ser, spatial, mea, real>>
DNext == Load \/ ComputeM \/ Weigh \/ Ask \/ PutFile
DSpec == DInit /\ [][DNext]_dvars

RealMatches == real = IF mea.has = 0 THEN <<>>
                      ELSE LineWeighted(mea.base, IF mea.wt = 1 THEN W ELSE 0, DX, DY)
WeightsAtMostOnce == mea.wt \in {0, 1} /\ (~spatial => mea.wt = 0)
NoInvention == last \in {"refused", "missing"} => (mea.has = 0 <=> real = <<>>)
ComputedSane == /\ Symmetric(Computed) /\ ZeroDiagonal(Computed)
                /\ mea.has = 1 => Symmetric(real) /\ ZeroDiagonal(real)
CentroidSane == mea.has = 1 =>
   \A S \in (SUBSET (1..DN)) \ {{}} :
      /\ Centroids(real, S) # {} /\ Centroids(real, S) \subseteq S
      (* only the members' own rows and columns matter *)
      /\ Centroids(real, S) = Centroids([i \in DOMAIN real |-> [j \in DOMAIN real |->
                                  IF i \in S /\ j \in S THEN real[i][j] ELSE 7]], S)
IntraSane == mea.has = 1 =>
   \A lab \in [1..DN -> {1, 2}] : \A m1 \in ClusterOf(lab, 1), m2 \in ClusterOf(lab, 2) :
      IntraCost(real, lab, <<m1, m2>>) =
        SqSum(RowOver(real, m1, SetToSeq2(ClusterOf(lab, 1)))) + SqSum(RowOver(real, m2, SetToSeq2(ClusterOf(lab, 2))))
=============================================================================
