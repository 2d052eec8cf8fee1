------------------------------ MODULE Variance ------------------------------
(* C28: the variance analysis of a partition. Every cluster has a panel     *)
(* with the distances of its cells to its medoid and, if asked for, the     *)
(* distances of random cells outside. All panels share the axis, which has  *)
(* to reach the largest distance shown. Cells outside are drawn once (or    *)
(* again for every use: Once = FALSE).                                      *)
EXTENDS FigureGeometry, TLC
CONSTANTS SIZES, D, K, ASKED, Once      \* ASKED: numbers of random cells, 100 for none
VARIABLES size, lab, dist, asked, at, draws, limit, panels
vars == <<size, lab, dist, asked, at, draws, limit, panels>>
X == size[1]
Y == size[2]
N == X * Y
k == 1 + CHOOSE l \in {lab[p] : p \in 1..N} : \A p \in 1..N : lab[p] <= l
Members(i) == {p \in 1..N : lab[p] = i - 1}
Outside(i) == (1..N) \ Members(i)
(* distance of cell p to the medoid of cluster i: outside it may be farther *)
Far(i, p) == IF lab[p] = i - 1 THEN dist[p] % 2 ELSE dist[p]
SetMax(S) == CHOOSE m \in S \cup {0} : \A x \in S : x <= m
Init == /\ size \in SIZES
        /\ lab \in [1..N -> 0..(K - 1)]
        /\ \A i \in 1..k : Members(i) # {}
        /\ k >= 2
        /\ dist \in [1..N -> 0..D]
        /\ asked \in ASKED
        /\ at = 1 /\ draws = <<>> /\ limit = -1 /\ panels = <<>>
World == UNCHANGED <<size, lab, dist, asked>>
Choices(i) == IF asked = 100 THEN {{}} ELSE {S \in SUBSET Outside(i) : Cardinality(S) = Drawn(asked, Cardinality(Members(i)), N)}
DrawCells == /\ Len(draws) < k
             /\ \E S \in Choices(Len(draws) + 1) : draws' = Append(draws, S)
             /\ World /\ UNCHANGED <<at, limit, panels>>
Axis == /\ Len(draws) = k /\ limit = -1
        /\ limit' = SetMax(UNION {{Far(i, p) : p \in Members(i) \cup draws[i]} : i \in 1..k})
        /\ World /\ UNCHANGED <<at, draws, panels>>
Plot == /\ limit >= 0 /\ at <= k
        /\ \E S \in (IF Once THEN {draws[at]} ELSE Choices(at)) :
             panels' = Append(panels, [place |-> Panel(k, X, Y, at), own |-> Members(at), random |-> S])
        /\ at' = at + 1 /\ World /\ UNCHANGED <<draws, limit>>
Next == DrawCells \/ Axis \/ Plot
Spec == Init /\ [][Next]_vars
Reaches == \A i \in DOMAIN panels : \A p \in panels[i].own \cup panels[i].random : Far(i, p) <= limit
Tight == at = k + 1 => limit = SetMax(UNION {{Far(i, p) : p \in panels[i].own \cup panels[i].random} : i \in DOMAIN panels})
RandomOutside == \A i \in DOMAIN panels :
  /\ panels[i].random \cap panels[i].own = {}
  /\ Cardinality(panels[i].random) <= N - Cardinality(panels[i].own)
  /\ asked \notin {0, 100} => Cardinality(panels[i].random) <= asked
  /\ asked = 0 => Cardinality(panels[i].random) <= Cardinality(panels[i].own)
PanelsOnGrid == LET g == Grid(k, X, Y) IN
  /\ g[1] * g[2] = k /\ (X < Y => g[1] <= g[2]) /\ (X > Y => g[1] >= g[2])
  /\ \A i \in DOMAIN panels : panels[i].place \in (0..(g[1] - 1)) \X (0..(g[2] - 1))
  /\ \A i, j \in DOMAIN panels : i # j => panels[i].place # panels[j].place
EveryCellOnce == at = k + 1 => \A p \in 1..N : Cardinality({i \in DOMAIN panels : p \in panels[i].own}) = 1
=============================================================================
