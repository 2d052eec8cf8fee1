-------------------------------- MODULE Suite --------------------------------
(* Suites of clusterings: all combinations of cluster counts and seeds, and  *)
(* for each seed the elbow of the costs of that seed. Costs are integers;    *)
(* second derivatives are compared as exact fractions.                       *)
EXTENDS Elbows, TLC

CONSTANTS KVALS, SEEDS, COSTS      \* explored by the design check

----------------------------------------------------------------------------
(* design: a scan that keeps the largest second derivative, seed by seed *)
VARIABLES ks, cost, seed, pos, best, found
vars == <<ks, cost, seed, pos, best, found>>
Todo == {sd \in SEEDS : sd \notin DOMAIN found}
Init == /\ ks \in {K \in SUBSET KVALS : Cardinality(K) >= 3} /\ cost \in [Combos(ks, SEEDS) -> COSTS]
        /\ seed = -1 /\ pos = 0 /\ best = 0 /\ found = <<>>
Ys(sd) == [i \in DOMAIN SortedK(ks) |-> cost[<<SortedK(ks)[i], sd>>]]
Start == /\ seed = -1 /\ Todo # {} /\ seed' \in Todo /\ pos' = 2 /\ best' = 0 /\ UNCHANGED <<ks, cost, found>>
Scan == /\ seed # -1 /\ pos < Cardinality(ks)
        /\ best' = IF best = 0 \/ ~Geq(Curv(SortedK(ks), Ys(seed), best), Curv(SortedK(ks), Ys(seed), pos)) THEN pos ELSE best
        /\ pos' = pos + 1 /\ UNCHANGED <<ks, cost, seed, found>>
Finish == /\ seed # -1 /\ pos = Cardinality(ks)
          /\ found' = [x \in DOMAIN found \cup {seed} |-> IF x = seed THEN SortedK(ks)[best] ELSE found[x]]
          /\ seed' = -1 /\ UNCHANGED <<ks, cost, pos, best>>
Next == Start \/ Scan \/ Finish
Spec == Init /\ [][Next]_vars

ElbowIsLargest == \A sd \in DOMAIN found : found[sd] \in ElbowsOfSeed(ks, cost, sd)
Interior == \A sd \in DOMAIN found : \E a, b \in ks : a < found[sd] /\ found[sd] < b
(* a straight line has no preferred elbow; adding a constant changes nothing *)
Shift == \A sd \in SEEDS : ElbowsOfSeed(ks, cost, sd) = ElbowsOfSeed(ks, [c \in DOMAIN cost |-> cost[c] + 7], sd)
=============================================================================
