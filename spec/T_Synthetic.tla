----------------------------- MODULE T_Synthetic -----------------------------
(* Recorded synthetic tables, series, groups and regions (C30); all values  *)
(* in thousandths.                                                          *)
EXTENDS Synthetic, TraceLib
XStart == [e |-> <<>>, rows |-> <<>>]
SetOf(q) == {q[i] : i \in DOMAIN q}
Close(x, y, t) == x - y <= t /\ y - x <= t
RECURSIVE Sum(_, _)
Sum(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + Sum(q, i + 1)
(* e: ks, seeds, X, Y, medoids, n, L, w, low, high, noise; a row: k, seed,  *)
(* c, x, y and its series v                                                 *)
LineBad(e, row) ==
  IF Len(row.v) # e.L THEN {"series-length"}
  ELSE LET want == Line([k |-> row.k, seed |-> row.seed, c |-> row.c, h |-> row.v[1]], e.L, e.w) IN
       Need(\A j \in 1..e.L : Close(row.v[j], want[j], 12 * e.noise + 2), "series-line")
       \cup Need(row.v[1] >= e.low - 8 * e.noise - 1 /\ row.v[1] <= e.high + 8 * e.noise + 1, "series-height")
(* steps of the noise, squared: twice the variance on average *)
Steps(e, row) == [j \in 1..(e.L - 1) |-> LET u == row.v[j + 1] - row.v[j] - e.w * Slope(row.k, row.seed, row.c) IN IF Close(u, 0, 1500) THEN u * u ELSE 2250000]
NoiseBad(e, rows) ==
  LET count == Len(rows) * (e.L - 1) IN
  IF e.noise < 10 \/ count < 200 THEN {}
  ELSE LET all == [i \in DOMAIN rows |-> Sum(Steps(e, rows[i]), 1)]  mean == Sum(all, 1) \div count IN
       Need(5 * mean >= 4 * e.noise * e.noise /\ mean <= 4 * e.noise * e.noise, "series-noise")
RowsBad(e, rows) ==
  IF \E i \in DOMAIN rows : ~RowFits(rows[i], SetOf(e.ks), SetOf(e.seeds), e.X, e.Y) THEN {"table-labels"}
  ELSE Need(Len(rows) = e.n, "table-rows")
  \cup Need(FewMedoids(rows, e.medoids), "table-medoids")
  \cup LET lines == UNION {LineBad(e, rows[i]) : i \in DOMAIN rows} IN IF lines = {} THEN NoiseBad(e, rows) ELSE lines
SameLabels(r, q) == <<r.k, r.seed, r.c, r.x, r.y>> = <<q.k, q.seed, q.c, q.x, q.y>>
SameBad(s, e, t, name) ==
  Need(Len(t) = Len(s.rows) /\ \A i \in DOMAIN t : SameLabels(t[i], s.rows[i]) /\ (s.e.noise = 0 => Len(t[i].v) = Len(s.rows[i].v) /\ \A j \in DOMAIN t[i].v : Close(t[i].v[j], s.rows[i].v[j], 1)), name)
(* ------------------------------------------------------------------------ *)
DelayBad(L, f, v) ==
  IF Len(v) # L THEN {"delay-length"}
  ELSE LET near == {d \in 0..Padding(L) : LET g == Delayed(f, L, d) IN \A j \in 1..L : Close(v[j], g[j], 160)} IN
       IF near = {} THEN {"delay-profile"}
       ELSE IF L < 60 THEN {}
       ELSE LET d == CHOOSE d \in near : TRUE  g == Delayed(f, L, d)
                m == Sum([j \in 1..L |-> (v[j] - g[j]) * (v[j] - g[j])], 1) \div L IN
            Need(\E x \in near : LET h == Delayed(f, L, x)  mm == Sum([j \in 1..L |-> (v[j] - h[j]) * (v[j] - h[j])], 1) \div L IN mm >= 100 /\ mm <= 1000, "delay-noise")
Flat(L, h) == [j \in 1..(L - Padding(L)) |-> h]
(* one of several constant functions *)
OneBad(L, heights, which, v) == IF which \notin DOMAIN heights THEN {"group-function"} ELSE DelayBad(L, Flat(L, heights[which]), v)
GroupBad(e) ==
  IF e.ok = 0 THEN {"group-failed"}
  ELSE Need(Len(e.v) = e.n, "group-rows") \cup UNION {OneBad(e.L, e.heights, 1 + ((i - 1) % Len(e.heights)), e.v[i]) : i \in DOMAIN e.v}
RegionBad(e) ==
  IF e.ok = 0 THEN {"region-failed"}
  ELSE IF Len(e.mask) # e.X \/ Len(e.v) # e.X \/ \E i \in 1..e.X : Len(e.mask[i]) # e.Y \/ Len(e.v[i]) # e.Y THEN {"region-shape"}
  ELSE UNION {UNION {OneBad(e.L, e.heights, 1 + e.mask[i][j], e.v[i][j]) : j \in 1..e.Y} : i \in 1..e.X}
(* the named profiles: f[j + 1] is the value at place j of n *)
SineBad(n, f) ==
  Need(\A j \in 1..(n - 1) : Close(f[j + 1], 0 - f[n - j + 1], 2), "sine-odd")
  \cup Need(f[1] = 0 /\ \A j \in 0..(n - 1) : 4 * (j + 1) <= n => f[j + 2] > f[j + 1], "sine-rises")
  \cup (IF n % 4 = 0 THEN Need(\A j \in 0..(n - 1 - (n \div 4)) : Close(f[j + 1] * f[j + 1] + f[j + 1 + (n \div 4)] * f[j + 1 + (n \div 4)], 1000000, 3000), "sine-one") ELSE {})
  \cup (IF n % 12 = 0 THEN Need(Close(f[1 + (n \div 12)], 500, 1), "sine-half") ELSE {})
SquareBad(n, f) == Need(f[1] = 0 /\ \A j \in 1..(n - 1) : (2 * j < n => f[j + 1] = 1000) /\ (2 * j > n => f[j + 1] = 0 - 1000), "square")
GaussianBad(n, f) ==
  Need(\A j \in 1..(n - 1) : Close(f[j + 1], f[n - j + 1], 1), "gaussian-even")
  \cup Need(\A j \in 0..(n - 1) : 2 * (j + 1) <= n => f[j + 2] >= f[j + 1], "gaussian-rises")
  \cup Need(Close(f[1], 4, 1), "gaussian-edge")
  \cup (IF n % 6 = 0 THEN Need(Close(f[1 + (n \div 6)], 54, 1) /\ Close(f[1 + (n \div 3)], 242, 1) /\ Close(f[1 + (n \div 2)], 399, 1), "gaussian-known") ELSE {})
ProfileBad(e) ==
  IF e.ok = 0 THEN {"profile-failed"}
  ELSE IF Len(e.v) # e.n \/ \E j \in DOMAIN e.v : ~Close(e.v[j], 0, 1000) THEN {"profile-range"}
  ELSE CASE e.name = "sine" -> SineBad(e.n, e.v) [] e.name = "square" -> SquareBad(e.n, e.v) [] OTHER -> GaussianBad(e.n, e.v)
XStep(s, e) ==
  CASE e.op = "synthetic" -> IF e.ok = 0 THEN [st |-> s, bad |-> {"synthetic-failed"}]
                             ELSE [st |-> [e |-> e, rows |-> e.rows], bad |-> RowsBad(e, e.rows)]
    [] e.op = "again" -> [st |-> s, bad |-> IF e.ok = 0 THEN {"again-failed"} ELSE SameBad(s, s.e, e.rows, "again-same") \cup RowsBad(s.e, e.rows)]
    [] e.op = "csv" -> [st |-> s, bad |-> IF e.ok = 0 THEN {"csv-failed"}
                                         ELSE Need(e.header = 1, "csv-header") \cup Need(e.named = 1, "csv-names") \cup Need(e.decimals = 1, "csv-decimals")
                                              \cup SameBad(s, s.e, e.rows, "csv-same") \cup RowsBad(s.e, e.rows)]
    [] e.op = "delayed" -> [st |-> s, bad |-> IF e.ok = 0 THEN {"delay-failed"} ELSE DelayBad(e.L, e.f, e.v)]
    [] e.op = "group" -> [st |-> s, bad |-> GroupBad(e)]
    [] e.op = "region" -> [st |-> s, bad |-> RegionBad(e)]
    [] e.op = "profile" -> [st |-> s, bad |-> ProfileBad(e)]
    [] OTHER -> Unknown(s, e)
THInit == stream = <<>> /\ a = <<>> /\ b = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
