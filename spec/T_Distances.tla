---------------------------- MODULE T_Distances ----------------------------
EXTENDS Distances, TraceLib

(* state: the region (X, Y, ser: one integer per point), the measure (spatial, w, mea), *)
(* the file of the region, and the centroids already found (cent: set of [who, p])      *)
XStart == [X |-> 1, Y |-> 1, ser |-> <<>>, spatial |-> FALSE, w |-> 0, mea |-> NoMatrix, fil |-> <<>>, cent |-> {}]
N(s) == s.X * s.Y
WOf(s) == IF s.mea.wt = 1 THEN s.w ELSE 0
RowsAre(o, base, w, Y) == /\ Len(o) = Len(base)
                          /\ \A i \in DOMAIN base : Len(o[i]) = Len(base) /\
                               \A j \in DOMAIN base : EntryIs(o[i][j], base[i][j], w, E2(i, j, Y))
(* the observed matrix of the measure (hundredths), or nothing *)
MatIs(s, e) == IF s.mea.has = 0 THEN e.has = 0
               ELSE e.has = 1 /\ RowsAre(e.mat, s.mea.base, WOf(s), s.Y)
Exact(s) == LineWeighted(s.mea.base, WOf(s), s.X, s.Y)     \* only used when X=1, Y=1 or unweighted
After(s, e, bad) == [st |-> s, bad |-> bad \cup Need(MatIs(s, e), "matrix")]
Range(q) == {q[i] : i \in DOMAIN q}
Members(e) == Range(e.idx)
FoundFor(s, who) == {c \in s.cent : c.who = who}

XStep(s, e) ==
  CASE e.op = "dtwmatrix" ->
         LET want == DTW2Matrix(e.ser) IN
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.d2 = want, "dtw-matrix") \cup Need(e.same = 1, "input-modified")]
    [] e.op = "measure" ->
         [st |-> s, bad |-> Need(e.ok = 1 /\ (IF e.kind = "dtw" THEN e.d2 = DTW2(e.a, e.b) ELSE e.d2 = Euclid2(e.a, e.b)), "measure")]
    [] e.op = "measurenan" -> [st |-> s, bad |-> Need(e.ok = 1 /\ e.nan = 1, "measure-of-undefined-series")]
    [] e.op = "combinenan" -> [st |-> s, bad |-> Need(e.ok = 1 /\ e.nan = 1, "undefined-distance-left-out")]
    [] e.op = "combine" ->
         [st |-> s, bad |-> Need(e.ok = 1 /\ (IF e.kind = "dtw" THEN e.val = SumSeq(e.ds) ELSE e.val = SqSum(e.ds)), "combine")]
    [] e.op = "setup" ->
         [st |-> [XStart EXCEPT !.X = e.X, !.Y = e.Y, !.ser = e.ser], bad |-> {}]
    [] e.op = "newmeasure" ->
         [st |-> [s EXCEPT !.spatial = (e.spatial = 1), !.w = e.w, !.mea = NoMatrix], bad |-> {}]
    [] e.op = "putfile" -> [st |-> [s EXCEPT !.fil = e.file], bad |-> {}]
    [] e.op = "load" ->
         LET o == IF e.md = 0 THEN [ok |-> 1, none |-> 1, m |-> s.mea] ELSE LoadOutcome(s.mea, s.fil, N(s), s.spatial)
             n == [s EXCEPT !.mea = o.m]
         IN After(n, e, Need(e.ok = o.ok, "load-outcome")
              \cup (IF e.ok = 1 /\ o.ok = 1 THEN Need(e.none = o.none, "load-reported") \cup
                      (IF o.none = 0 /\ e.none = 0 THEN Need(RowsAre(e.ret, n.mea.base, WOf(n), s.Y), "load-result") ELSE {})
                    ELSE {}))
    [] e.op = "compute" ->
         LET n == [s EXCEPT !.mea = Adopt(DTW1Matrix(s.ser), 0)]
         IN After(n, e, Need(e.ok = 1 /\ RowsAre(e.ret, n.mea.base, 0, s.Y), "compute"))
    [] e.op = "weigh" ->
         LET o == WeightOutcome(s.mea)  n == [s EXCEPT !.mea = o.m]
         IN After(n, e, Need(e.ok = o.ok, "weigh-outcome")
              \cup (IF o.ok = 1 /\ e.ok = 1 THEN Need(RowsAre(e.ret, n.mea.base, WOf(n), s.Y), "weigh-result") ELSE {}))
    [] e.op = "dist" ->
         LET o == AskOutcome(s.mea, IF e.md = 1 THEN s.fil ELSE <<>>, N(s), s.spatial, e.pre = 1, DTW1Matrix(s.ser))
             n == [s EXCEPT !.mea = o.m]
         IN After(n, e, Need(e.ok = o.ok, "distances-outcome")
              \cup (IF o.ok = 1 /\ e.ok = 1 THEN
                      Need(Len(e.out) = Len(e.idx) /\
                           \A q \in DOMAIN e.idx : EntryIs(e.out[q], n.mea.base[e.p][e.idx[q]], WOf(n), E2(e.p, e.idx[q], s.Y)),
                           "distances") ELSE {}))
    [] e.op = "centroid" ->
         LET o == AskOutcome(s.mea, IF e.md = 1 THEN s.fil ELSE <<>>, N(s), s.spatial, TRUE, <<>>)
             n == [s EXCEPT !.mea = o.m]
         IN After(n, e, Need(e.ok = o.ok, "centroid-outcome")
              \cup (IF o.ok = 1 /\ e.ok = 1 THEN
                      Need(e.p \in Centroids(Exact(n), Members(e)), "centroid")
                      \cup Need(e.p \in Members(e) /\ e.out = [q \in DOMAIN e.idx |-> 100 * Exact(n)[e.p][e.idx[q]]], "centroid-distances")
                    ELSE {}))
    [] e.op = "getcentroid" ->     \* the centroid kept in the region or cluster named who
         LET known == FoundFor(s, e.who)
             o == IF known # {} THEN [ok |-> 1, m |-> s.mea]
                  ELSE IF e.measure = 0 THEN [ok |-> 0, m |-> s.mea]
                  ELSE AskOutcome(s.mea, IF e.md = 1 THEN s.fil ELSE <<>>, N(s), s.spatial, TRUE, <<>>)
             n == [s EXCEPT !.mea = o.m,
                            !.cent = IF o.ok = 1 /\ known = {} /\ e.ok = 1 THEN s.cent \cup {[who |-> e.who, p |-> e.p]} ELSE s.cent]
         IN After(n, e, Need(e.before = IF known = {} THEN 0 ELSE 1, "has-centroid")
              \cup Need(e.ok = o.ok, "get-centroid-outcome")
              \cup (IF o.ok = 1 /\ e.ok = 1 THEN
                      Need(IF known # {} THEN [who |-> e.who, p |-> e.p] \in known
                           ELSE e.p \in Centroids(Exact(n), Members(e)), "get-centroid") ELSE {}))
    [] e.op = "intra" ->
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.cost = IntraCost(Exact(s), e.lab, e.med), "intra-cluster-cost")]
    [] e.op = "hist" ->     \* distances of a cluster to its medoid, and of random points outside it
         LET S == Members(e)  rest == (1..N(s)) \ S
             want == IF e.n = 0 THEN Cardinality(S) ELSE e.n
         IN [st |-> s, bad |-> Need(e.ok = 1 /\ e.out = [q \in DOMAIN e.idx |-> Exact(s)[e.p][e.idx[q]]], "histogram-distances")
              \cup Need(/\ Len(e.rnd) = Min2(want, Cardinality(rest)) /\ Range(e.rnd) \subseteq rest
                        /\ Cardinality(Range(e.rnd)) = Len(e.rnd), "histogram-random-points")
              \cup Need(e.rout = [q \in DOMAIN e.rnd |-> Exact(s)[e.p][e.rnd[q]]], "histogram-random-distances")]
    [] OTHER -> Unknown(s, e)
THInit == /\ ser = <<>> /\ spatial = FALSE /\ fil = <<>> /\ mea = NoMatrix /\ real = <<>> /\ last = "" /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED dvars]_<<tvars, dvars>>
=============================================================================
