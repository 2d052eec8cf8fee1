----------------------------- MODULE T_Kmedoids -----------------------------
EXTENDS Kmedoids, TraceLib

(* s.d: the distances; s.seen: results of earlier runs, by their settings *)
XStart == [d |-> <<>>, seen |-> {}]
Result(e) == [med |-> e.med, lab |-> e.lab, costs |-> e.costs, total |-> e.total]
Settings(e) == [k |-> e.k, seed |-> e.seed, mode |-> e.mode, init |-> e.init, maxiter |-> e.maxiter, tol10 |-> e.tol10]
Long(e) == e.maxiter >= 500
XStep(s, e) ==
  CASE e.op = "data" -> [st |-> [d |-> e.d, seen |-> {}], bad |-> {}]
    [] e.op = "run" ->
         IF e.ok = 0 THEN [st |-> s, bad |-> {"run-failed"}] ELSE
         LET structure == GoodMedoids(e.med, e.k, Len(s.d))
             before == {r \in s.seen : r.key = Settings(e)}
             (* the same run with a smaller limit *)
             earlier == {r \in s.seen : [r.key EXCEPT !.maxiter = 0] = [Settings(e) EXCEPT !.maxiter = 0] /\ r.key.maxiter < e.maxiter}
         IN [st |-> [s EXCEPT !.seen = @ \cup {[key |-> Settings(e), res |-> Result(e)]}],
             bad |-> Need(structure, "k-distinct-medoids") \cup
               (IF ~structure THEN {} ELSE
                  Need(GoodLabels(s.d, e.med, e.lab), "nearest-labels")
                  \cup Need(e.total = CostOf(s.d, e.med), "total-cost")
                  \cup (IF GoodLabels(s.d, e.med, e.lab)
                        THEN Need(e.costs = ClusterCosts(s.d, e.med, e.lab), "cluster-costs")
                             \cup (IF Long(e) THEN Need(LocalOptimum(s.d, e.med, e.lab, e.mode, e.tol10), "local-optimum") ELSE {})
                        ELSE {})
                  \cup (IF e.init # <<>> THEN Need(e.total <= CostOf(s.d, e.init), "above-initial-cost") ELSE {})
                  \cup Need(\A r \in before : r.res = Result(e), "not-reproducible")
                  \cup Need(\A r \in earlier : e.total <= r.res.total, "cost-increased")
                  \cup Need(e.same = 1, "input-modified"))]
    [] e.op = "partition" ->      \* through the clustering algorithm: memberships and medoid points
         IF e.ok = 0 THEN [st |-> s, bad |-> {"partition-failed"}] ELSE
         LET before == {r \in s.seen : r.key = Settings(e)} IN
         [st |-> s, bad |-> Need(e.k = e.pk, "partition-clusters")
            \cup (IF e.withmed = 1
                  THEN Need(GoodMedoids(e.med, e.k, Len(s.d)) /\ GoodLabels(s.d, e.med, e.lab), "partition-labels")
                       \cup Need(\A r \in before : r.res.med = e.med /\ r.res.lab = e.lab, "partition-of-another-run")
                  ELSE Need(\A r \in before : r.res.lab = e.lab, "partition-of-another-run"))]
    [] e.op = "many" ->           \* many clusters of numbers on a line, by run (total >= 0) or by partition
         IF e.ok = 0 THEN [st |-> s, bad |-> {"many-clusters-failed"}] ELSE
         LET n == Len(e.vals)
             apart(a, b) == IF e.vals[a] < e.vals[b] THEN e.vals[b] - e.vals[a] ELSE e.vals[a] - e.vals[b]
             good == GoodMedoids(e.med, e.k, n) /\ e.pk = e.k
             labelled == Len(e.lab) = n /\ \A p \in 1..n : e.lab[p] \in DOMAIN e.med
             own == [p \in 1..n |-> apart(p, e.med[e.lab[p]])]
         IN [st |-> s, bad |-> Need(good, "many-k-distinct-medoids") \cup
              (IF ~good THEN {} ELSE Need(labelled, "many-labels") \cup
                 (IF ~labelled THEN {} ELSE
                    Need(\A p \in 1..n : \A m \in Range(e.med) : own[p] <= apart(p, m), "many-nearest-labels")
                    \cup Need(\A j \in DOMAIN e.med : e.lab[e.med[j]] = j, "many-medoid-in-own-cluster")
                    \cup Need(e.total = -1 \/ (e.total = SumSeq(own) /\ SumSeq(e.costs) = e.total), "many-costs")))]
    [] OTHER -> Unknown(s, e)
THInit == d = <<>> /\ mode = "" /\ first = <<>> /\ med = <<>> /\ lab = <<>> /\ cost = 0 /\ done = FALSE /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
