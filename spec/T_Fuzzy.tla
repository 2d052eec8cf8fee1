------------------------------ MODULE T_Fuzzy ------------------------------
EXTENDS Fuzzy, TraceLib

M == 1000000
XStart == [d |-> <<>>, seen |-> {}, u |-> <<>>, X |-> 1, Y |-> 1, unit |-> 1]
Near(a, b, tol) == Abs(a - b) <= tol
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
Settings(e) == [k |-> e.k, m10 |-> e.m10, seed |-> e.seed, init |-> e.init, maxiter |-> e.maxiter, tol10 |-> e.tol10]
(* memberships in millionths *)
Normalised(uij, k) == \A i \in DOMAIN uij : Len(uij[i]) = k /\ (\A j \in 1..k : uij[i][j] >= 0 /\ uij[i][j] <= M)
                                            /\ Near(SumSeq(uij[i]), M, k + 1)
FullAtMedoids(uij, med) == \A j \in DOMAIN med : uij[med[j]][j] = M
NearerLarger(dd, uij, med) == \A i \in DOMAIN uij : \A a, b \in DOMAIN med :
   (i \notin SetOf(med) /\ dd[med[a]][i] < dd[med[b]][i]) =>
      IF \E z \in DOMAIN med : dd[med[z]][i] = 0 THEN uij[i][a] >= uij[i][b] ELSE uij[i][a] > uij[i][b]
(* for m = 2 (and few clusters, for the range of integers), memberships inversely proportional to the distances *)
Inverse(dd, uij, med) == Len(med) <= 3 => \A i \in DOMAIN uij : LET row == [j \in DOMAIN med |-> dd[med[j]][i]] IN
   (i \notin SetOf(med) /\ ~(\E j \in DOMAIN row : row[j] = 0)) =>
      \A j \in DOMAIN row : Near(uij[i][j] \div 100, (MemberNum(row, j) * 10000) \div MemberDen(row), 2)
(* cost of cluster j in thousandths: a sum of n products *)
Milli(x) == x \div 1000
CostOk(dd, uij, med, costs) == \A j \in DOMAIN med :
   Near(costs[j], SumSeq([i \in DOMAIN uij |-> (uij[i][j] * dd[med[j]][i]) \div 1000]), Len(uij) + 2)

XStep(s, e) ==
  CASE e.op = "data" -> [st |-> [s EXCEPT !.d = e.d, !.seen = {}], bad |-> {}]
    [] e.op = "fuzzy" ->
         IF e.ok = 0 THEN [st |-> s, bad |-> {"fuzzy-run-failed"}] ELSE
         LET structure == Len(e.med) = e.k /\ Distinct(e.med) /\ SetOf(e.med) \subseteq DOMAIN s.d /\ Len(e.uij) = Len(s.d)
             before == {r \in s.seen : r.key = Settings(e)}
             earlier == {r \in s.seen : [r.key EXCEPT !.maxiter = 0] = [Settings(e) EXCEPT !.maxiter = 0] /\ r.key.maxiter < e.maxiter}
         IN [st |-> [s EXCEPT !.seen = @ \cup {[key |-> Settings(e), med |-> e.med, total |-> e.total, uij |-> e.uij]}],
             bad |-> Need(structure, "k-distinct-medoids") \cup
               (IF ~structure THEN {} ELSE
                  Need(Normalised(e.uij, e.k) /\ \A i \in DOMAIN e.sums : e.sums[i] = 1, "memberships-not-normalised")
                  \cup (IF Normalised(e.uij, e.k) THEN
                          Need(FullAtMedoids(e.uij, e.med), "medoid-membership")
                          \cup Need(NearerLarger(s.d, e.uij, e.med), "nearer-medoid-larger-membership")
                          \cup Need(e.m10 = 20 => Inverse(s.d, e.uij, e.med), "membership-inverse-to-distance")
                          \cup Need(CostOk(s.d, e.uij, e.med, e.costs), "fuzzy-cost")
                        ELSE {})
                  \cup Need(Near(e.total, SumSeq(e.costs), e.k + 1), "fuzzy-total-cost")
                  \cup Need(e.total <= e.initcost + 1, "above-initial-cost")
                  \cup Need(\A i \in DOMAIN e.swaps : e.total - e.swaps[i] <= e.tol10 \div 10 + 2, "swap-lowers-cost")
                  \cup Need(\A r \in before : r.med = e.med /\ r.total = e.total /\ r.uij = e.uij, "not-reproducible")
                  \cup Need(\A r \in earlier : e.total <= r.total + 1, "cost-increased")
                  \cup Need(e.same = 1, "input-modified"))]
    [] e.op = "memberships" ->
         [st |-> [s EXCEPT !.u = e.u, !.X = e.X, !.Y = e.Y, !.unit = e.unit], bad |-> {}]
    [] e.op = "mask" ->
         LET k == Len(s.u[1])  fits == e.X * e.Y = Len(s.u)  good == ValidMask(k, e.c, e.thr, s.unit) /\ fits IN
         [st |-> s, bad |-> Need(e.ok = (IF good THEN 1 ELSE 0), IF good THEN "mask-refused" ELSE "mask-not-refused")
           \cup (IF good /\ e.ok = 1 THEN
                  LET want == Mask(s.u, e.c, e.thr) IN
                  Need(e.iter = want, "mask-iteration") \cup Need(e.again = want, "mask-iteration-repeated")
                  \cup Need(e.len = Len(want), "mask-size")
                  \cup Need(\A i \in DOMAIN s.u : e.member[i] = IF i \in SetOf(want) THEN 1 ELSE 0, "mask-membership")
                  \cup Need(e.none = 0, "mask-membership-of-nothing")
                  \cup Need(e.clone = want, "mask-clone")
                  \cup Need(e.same = 1, "mask-input-modified")
                 ELSE {})]
    [] OTHER -> Unknown(s, e)
THInit == u = <<>> /\ c = 0 /\ thr = 0 /\ prev = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
