----------------------------- MODULE T_Partition -----------------------------
EXTENDS Partition, TraceLib
NoPart == [X |-> 0, Y |-> 0, k |-> 0, lab |-> <<>>, med |-> <<>>]

ClusterObs(q, o) ==   \* a cluster of the partition observed by iteration
  LET ms == MemberSeq(q, o.c) IN
  Need(o.pts = [i \in DOMAIN ms |-> PointOf(q, ms[i])], "cluster-iteration")
  \cup Need(o.vals = [i \in DOMAIN ms |-> o.data[ms[i]]], "cluster-values")
  \cup Need(o.len = Len(ms), "cluster-size")
  \cup Need(o.idx = <<-1>> \/ o.idx = [i \in DOMAIN ms |-> ms[i] - 1], "cluster-indices")

PStep(q, e) ==
  CASE e.op = "create" ->     \* constructor; k must match the labels
         LET n == [X |-> e.X, Y |-> e.Y, k |-> e.k, lab |-> e.lab, med |-> e.med]
             okk == (\E p \in DOMAIN e.lab : e.lab[p] = e.k - 1) /\ (\A p \in DOMAIN e.lab : e.lab[p] < e.k) IN
         [st |-> IF e.ok = 1 THEN n ELSE q,
          bad |-> Need((e.ok = 1) = okk, "create")]
    [] e.op = "member" ->     \* is_member for all points and clusters; sizes
         [st |-> q, bad |->
           Need(e.ok = 1 /\ Len(e.m) = N(q) /\ \A p \in Pts(q) :
                  Len(e.m[p]) = q.k /\ \A c \in 0..(q.k - 1) : (e.m[p][c + 1] = 1) = IsMember(q, p, c), "is-member")
           \cup Need(e.len = [c \in 1..q.k |-> Size(q, c - 1)], "cluster-len")
           \cup Need(e.none = 0, "member-none")]
    [] e.op = "indices" ->    \* membership of indices / of the same points
         [st |-> q, bad |-> Need(e.ok = 1 /\ e.byidx = [i \in DOMAIN e.q |-> q.lab[e.q[i] + 1]], "membership-of-indices")
                     \cup Need(e.bypt = [i \in DOMAIN e.q |-> q.lab[e.q[i] + 1]], "membership-of-points")]
    [] e.op = "cluster" -> [st |-> q, bad |-> Need(e.ok = 1, "cluster") \cup (IF e.ok = 1 THEN ClusterObs(q, e.c) ELSE {})]
    [] e.op = "all" ->        \* create_all_*: one cluster per index, in order, with its medoid
         [st |-> q, bad |-> Need(e.ok = 1 /\ Len(e.cs) = q.k, "all-clusters") \cup
            (IF e.ok = 1 /\ Len(e.cs) = q.k
             THEN UNION {ClusterObs(q, e.cs[i]) \cup Need(e.cs[i].c = i - 1, "all-clusters-order")
                          \cup Need(e.med = <<>> \/ e.cs[i].cen = e.med[i], "cluster-centroid") : i \in 1..q.k}
             ELSE {})]
    [] e.op = "touch" ->
         [st |-> q, bad |->
            Need(e.ok = 1 /\ {e.cl[i] : i \in DOMAIN e.cl} = Touching(q, e.a)
                 /\ Len(e.cl) = Cardinality(Touching(q, e.a)), "touching-clusters")
            \cup (IF q.med = <<>> THEN Need(e.mok = 0, "medoids-missing")
                  ELSE Need(e.mok = 1 /\ Len(e.md) = Cardinality(Touching(q, e.a))
                            /\ {e.md[i] : i \in DOMAIN e.md} = {q.med[c + 1] : c \in Touching(q, e.a)}, "touching-medoids"))]
    [] e.op = "merge" ->
         LET okk == Complete(q, e.cs) IN
         [st |-> q, bad |-> Need((e.ok = 1) = okk, IF okk THEN "merge-refused" ELSE "merge-accepted")
            \cup (IF okk /\ e.ok = 1 THEN Need(e.v = Merge(q, e.cs) /\ e.pts = [p \in Pts(q) |-> PointOf(q, p)], "merge-value") ELSE {})
            \cup Need(e.same = 1, "merge-alters-input")]
    [] e.op = "mergereps" ->
         LET okk == RepsOK(q, e.cs, e.reps) IN
         [st |-> q, bad |-> Need((e.ok = 1) = okk, IF okk THEN "reps-refused" ELSE "reps-accepted")
            \cup (IF okk /\ e.ok = 1 THEN Need(e.v = MergeReps(q, e.cs, e.reps), "reps-value") ELSE {})
            \cup Need(e.same = 1, "merge-alters-input")]
    [] e.op = "wrongshape" -> [st |-> q, bad |-> Need(e.ok = 0, "wrong-shape-accepted")]
    [] e.op = "copy" ->       \* clone or pickle round trip: same labels, k, medoids
         [st |-> q, bad |-> Need(e.ok = 1 /\ e.lab = q.lab /\ e.k = q.k /\ e.X = q.X /\ e.Y = q.Y, "copy")
                    \cup Need(e.med = <<>> \/ e.med = q.med, "copy-medoids")]
    [] OTHER -> Unknown(q, e)
PStart == NoPart
THInit == g = NoPart /\ cs = <<>> /\ out = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
