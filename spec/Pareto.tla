------------------------------- MODULE Pareto -------------------------------
(* C29: choosing models by prediction time and error. Models are offered    *)
(* one after the other to an archive of the best ones; a model that could   *)
(* not be trained has neither time nor error. Then models are compared for  *)
(* different weights of time and error.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MODELS, TIMES, ERRORS, STEPS, SkipUndefined, OwnCost
VARIABLES rows, at, archive, g, said
vars == <<rows, at, archive, g, said>>
UNDEF == -1
Defined(r) == r[1] # UNDEF /\ r[2] # UNDEF
(* a beats b: not worse in both, better in one *)
Beats(a, b) == a[1] <= b[1] /\ a[2] <= b[2] /\ a # b
Front(R, D) == {i \in D : Defined(R[i]) /\ ~\E j \in D : Defined(R[j]) /\ Beats(R[j], R[i])}
(* weights: step s of STEPS gives s parts to time and STEPS - s parts to     *)
(* error, each relative to the largest of the compared models. Multiplied   *)
(* with steps, largest time and largest error, costs are whole.             *)
Largest(R, D, c) == CHOOSE v \in {R[i][c] : i \in D} : \A i \in D : R[i][c] <= v
CostOf(R, D, S, s, i) == s * R[i][1] * Largest(R, D, 2) + (S - s) * R[i][2] * Largest(R, D, 1)
Cheapest(R, D, S, s) == {i \in D : \A j \in D : CostOf(R, D, S, s, i) <= CostOf(R, D, S, s, j)}
----------------------------------------------------------------------------
Init == /\ rows \in [1..MODELS -> ((TIMES \X ERRORS) \cup {<<UNDEF, UNDEF>>})]
        /\ at = 1 /\ archive = {} /\ g = 0 /\ said = <<>>
(* an undefined number is not better than another one, so a model without
   them is turned away, but also turns away others if it came first          *)
Better(a, b) == Defined(a) /\ Defined(b) /\ (a[1] < b[1] \/ a[2] < b[2])
Offer == /\ at <= MODELS
         /\ LET r == rows[at] IN
            archive' = IF SkipUndefined /\ ~Defined(r) THEN archive
                       ELSE IF \E i \in archive : rows[i] # r /\ ~Better(r, rows[i]) THEN archive
                       ELSE {i \in archive : ~(Defined(rows[i]) /\ Defined(r) /\ Beats(r, rows[i]))} \cup {at}
         /\ at' = at + 1 /\ UNCHANGED <<rows, g, said>>
Good == {i \in archive : Defined(rows[i])}
Sweep == /\ at > MODELS /\ g < STEPS /\ Good # {}
         /\ LET B == Cheapest(rows, Good, STEPS, g)
                last == CHOOSE i \in Good : \A j \in Good : j <= i IN
            said' = Append(said, [best |-> B, cost |-> CostOf(rows, Good, STEPS, g, IF OwnCost THEN CHOOSE i \in B : TRUE ELSE last)])
         /\ g' = g + 1 /\ UNCHANGED <<rows, at, archive>>
Next == Offer \/ Sweep
Spec == Init /\ [][Next]_vars
(* the archive holds the models offered so far that no other one beats *)
Exact == archive = Front(rows, 1..(at - 1))
(* what is said to be the cost of the best models is their cost, the lowest *)
CostTrue == \A s \in DOMAIN said : \A i \in said[s].best : said[s].cost = CostOf(rows, Good, STEPS, s - 1, i)
CostLowest == \A s \in DOMAIN said : \A i \in Good : said[s].cost <= CostOf(rows, Good, STEPS, s - 1, i)
(* without weight for time the most accurate model is the best; the more
   weight it gets, the faster (and the less accurate) is the best            *)
AccurateFirst == said # <<>> => \A i \in said[1].best : \A j \in Good : rows[i][2] <= rows[j][2]
Trade == \A s \in DOMAIN said : \A q \in DOMAIN said : s < q /\ q > 1 =>
           \A i \in said[s].best : \A j \in said[q].best : rows[j][1] <= rows[i][1] /\ rows[j][2] >= rows[i][2]
=============================================================================
