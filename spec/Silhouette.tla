----------------------------- MODULE Silhouette -----------------------------
(* The silhouette analysis of a suite of clusterings (C23).                 *)
(*                                                                          *)
(* The coefficient of a point compares its mean distance a to the others of *)
(* its cluster with the mean distance b to the nearest other cluster:       *)
(* (b - a) / max(a, b), 0 for the only point of a cluster. The score of a   *)
(* partition is the mean over its points. Scores are in units of 1/S. The   *)
(* analysis visits the clusterings of the suite one by one, reports a score *)
(* for each and keeps the best so far. START is the score the best so far   *)
(* begins with.                                                             *)
EXTENDS SilhouetteScore, TLC
CONSTANTS N, D, SUITE, START
VARIABLES d, parts, i, point, acc, reports, best, named
vars == <<d, parts, i, point, acc, reports, best, named>>

----------------------------------------------------------------------------
(* the analysis *)
Pairs == {<<p, q>> \in (1..N) \X (1..N) : p < q}
Matrix(f) == [p \in 1..N |-> [q \in 1..N |-> IF p = q THEN 0 ELSE IF p < q THEN f[<<p, q>>] ELSE f[<<q, p>>]]]
Partitions == {lab \in [1..N -> 1..N] : Scorable(lab)}
Init ==
  /\ \E f \in [Pairs -> 0..D] : d = Matrix(f)
  /\ parts \in [1..SUITE -> Partitions]
  /\ i = 1 /\ point = 1 /\ acc = 0 /\ reports = <<>> /\ best = START /\ named = 0
Add ==
  /\ i <= SUITE /\ point <= N
  /\ acc' = acc + Coefficient(d, parts[i], point) /\ point' = point + 1
  /\ UNCHANGED <<d, parts, i, reports, best, named>>
Report ==
  /\ i <= SUITE /\ point = N + 1
  /\ LET s == acc \div N IN
     /\ reports' = Append(reports, s)
     /\ IF s > best THEN best' = s /\ named' = i ELSE UNCHANGED <<best, named>>
  /\ i' = i + 1 /\ point' = 1 /\ acc' = 0 /\ UNCHANGED <<d, parts>>
Done == i > SUITE /\ UNCHANGED vars
Next == Add \/ Report \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* what the analysis promises *)
EachOnce == Len(reports) = i - 1 /\ \A j \in DOMAIN reports : reports[j] = Score(d, parts[j])
InRange == \A j \in DOMAIN reports : reports[j] \in -S..S
BestNamed ==
  i > SUITE => /\ named \in 1..SUITE /\ best = reports[named]
               /\ \A j \in DOMAIN reports : reports[j] <= best
(* the score depends on the partition, not on labels, nor on the unit of distances *)
Labelling == \A j, k \in DOMAIN reports : SamePartition(parts[j], parts[k]) => reports[j] = reports[k]
Units ==
  \A j \in DOMAIN reports : reports[j] = Score([p \in 1..N |-> [q \in 1..N |-> 3 * d[p][q]]], parts[j])
(* perfect and worst partitions *)
Extremes ==
  \A j \in DOMAIN reports :
    LET lab == parts[j]
        inside == {d[p][q] : <<p, q>> \in {r \in Pairs : lab[r[1]] = lab[r[2]]}}
        across == {d[p][q] : <<p, q>> \in {r \in Pairs : lab[r[1]] # lab[r[2]]}}
        alone == {p \in 1..N : Others(lab, p, lab[p]) = {}}
    IN /\ (alone = {} /\ inside = {0} /\ 0 \notin across) => reports[j] = S
       /\ (alone = {} /\ across = {0} /\ 0 \notin inside) => reports[j] = -S
       /\ (\A x \in inside, y \in across : x = y) => reports[j] = 0
(* for the analysis as the program starts it *)
Lowest == -S - 1
MinusOne == -S
=============================================================================
