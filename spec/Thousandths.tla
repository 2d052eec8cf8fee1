----------------------------- MODULE Thousandths -----------------------------
(* Numbers with three decimals, as the programs print and write them, and   *)
(* what the exact integers of Models.tla are in them.                       *)
EXTENDS Models
(* n / d in thousandths, rounded down; n may be negative *)
FloorK(n, d) ==
  LET D3(r) == r * 10
      q0 == n \div d   r0 == n % d
      q1 == D3(r0) \div d  r1 == D3(r0) % d
      q2 == D3(r1) \div d  r2 == D3(r1) % d
      q3 == D3(r2) \div d IN
  q0 * 1000 + q1 * 100 + q2 * 10 + q3
Near3(r, n, d) ==
  IF n >= 2000000000 THEN r = n ELSE r < 2000000000 /\ Abs(r - FloorK(n, d)) <= 1
(* the forecast error (thousandths) of forecasts f (over d, exact up to tol)
   at the cell p: from lo to hi, or a value that is no number *)
ErrorRange(w, q, p, f, d, tol) ==
  LET o == TestPart(w.data[p], q.tl)   n == Len(o)
      t == TrainPart(w.data[p], q.tl)
      diff == [j \in DOMAIN o |-> Abs(f[j] - d * o[j])] IN
  IF Len(f) # n THEN [lo |-> 1, hi |-> 0]
  ELSE IF \E j \in DOMAIN f : f[j] >= 2000000000 THEN [lo |-> 2000000001, hi |-> 2000000001]
  ELSE CASE q.err = "MASE" ->
              LET sd == Steps(t)  a == SumSeq(diff) IN
              IF sd = 0 THEN [lo |-> 2000000001, hi |-> 2000000002]
              ELSE [lo |-> FloorK((a - tol * n) * (Len(t) - 1), n * sd * d) - 1, hi |-> FloorK((a + tol * n) * (Len(t) - 1), n * sd * d) + 2]
         [] q.err = "sMAPE" ->
              LET low(j) == FloorK(200 * (diff[j] - tol), f[j] + d * o[j] + tol)
                  high(j) == FloorK(200 * (diff[j] + tol), f[j] + d * o[j] - tol) + 1
                  a == SumSeq([j \in DOMAIN o |-> low(j)])   b == SumSeq([j \in DOMAIN o |-> high(j)]) IN
              [lo |-> (a - n) \div n, hi |-> (b + n) \div n]
         [] q.err = "MSE" ->      \* squares only with d = U
              LET a == SumSeq([j \in DOMAIN o |-> Sq(diff[j])]) IN
              [lo |-> FloorK(a, d * d * n) - 1, hi |-> FloorK(a, d * d * n) + 1]
         [] OTHER -> [lo |-> 1, hi |-> 0]
Within(r, e) == r >= e.lo /\ r <= e.hi
(* r is the root mean square of errors; undefined ones are left out *)
NotNumber(e) == e.lo >= 2000000000
Overall(es) ==      \* es: a sequence of error ranges
  LET D == SelectSeq(es, LAMBDA e : ~NotNumber(e)) IN
  IF D = <<>> THEN [und |-> 1, unit |-> 1, n |-> 1, lo |-> 0, hi |-> 0]
  ELSE LET top == FoldLeft(LAMBDA acc, e : Max2(acc, e.hi), 0, D)
           u == top \div 12000 + 1 IN
       [und |-> 0, unit |-> u, n |-> Len(D),
        lo |-> SumSeq([i \in DOMAIN D |-> Sq(Max2(0, D[i].lo) \div u)]),
        hi |-> SumSeq([i \in DOMAIN D |-> Sq(D[i].hi \div u + 1)])]
IsOverallOf(r, v) ==
  IF v.und = 1 THEN r = 2000000001
  ELSE /\ r >= 0 /\ r < 2000000000 /\ r \div v.unit < 14000
       /\ v.n * Sq(r \div v.unit + 2) >= v.lo
       /\ v.n * Sq(Max2(0, r \div v.unit - 1)) <= v.hi
=============================================================================
