------------------------------ MODULE Windows ------------------------------
(* Sliding windows over series and labelled tables, and the two baselines   *)
(* that are defined by windows: mean of the past, and k nearest windows.    *)
EXTENDS SeriesMath, TLC, Json

CONSTANTS VALS, MAXLEN, MAXWIN      \* explored by the design check

----------------------------------------------------------------------------
(* windows *)
NumWindows(n, w, stride) == IF n < w THEN 0 ELSE ((n - w) \div stride) + 1
Window(s, w, i, stride) == SubSeq(s, (i - 1) * stride + 1, (i - 1) * stride + w)
Windows(s, w, stride) == [i \in 1..NumWindows(Len(s), w, stride) |-> Window(s, w, i, stride)]
(* labelled table: rows [label, s]; output rows [label, window, offset] *)
RowWindows(r, w) == [i \in 1..NumWindows(Len(r.s), w, 1) |->
                       [label |-> r.label, window |-> Window(r.s, w, i, 1), offset |-> i - 1]]
RECURSIVE TableWindows(_, _)
TableWindows(t, w) == IF t = <<>> THEN <<>> ELSE RowWindows(Head(t), w) \o TableWindows(Tail(t), w)

----------------------------------------------------------------------------
(* mean of the past: as numerator and denominator *)
MeanNum(s, past) == SumSeq(LastN(s, past))
MeanDen(s, past) == Min2(past, Len(s))

Dist(kind, a, b) == CASE kind = "dtw" -> DTW2(a, b)
                      [] kind = "rmse" -> Euclid2(a, b)
                      [] OTHER -> SumDiff(a, b)

(* k nearest earlier windows of the last window *)
Earlier(s, L) == LET w == Windows(s, L, 1) IN SubSeq(w, 1, Len(w) - 1)
KNNPossible(s, k, L) == NumWindows(Len(s), L, 1) - 1 >= k
NearestSets(s, k, L, kind) ==
  LET ws == Earlier(s, L)
      last == SubSeq(s, Len(s) - L + 1, Len(s))
      d == [i \in DOMAIN ws |-> Dist(kind, last, ws[i])]
      t == CHOOSE x \in {d[i] : i \in DOMAIN ws} :
             /\ Cardinality({i \in DOMAIN ws : d[i] < x}) < k
             /\ Cardinality({i \in DOMAIN ws : d[i] <= x}) >= k
      must == {i \in DOMAIN ws : d[i] < t}
      ties == {i \in DOMAIN ws : d[i] = t}
  IN {must \cup T : T \in {Q \in SUBSET ties : Cardinality(Q) = k - Cardinality(must)}}
RECURSIVE SumOver(_, _, _)
SumOver(S, ws, j) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN ws[i][j] + SumOver(S \ {i}, ws, j)
(* k times each acceptable forecast *)
KNNForecasts(s, k, L, kind) ==
  LET ws == Earlier(s, L) IN {[j \in 1..L |-> SumOver(S, ws, j)] : S \in NearestSets(s, k, L, kind)}

----------------------------------------------------------------------------
(* design: a cursor that slides over one row of a table after another *)
VARIABLES table, win, row, off, emitted
vars == <<table, win, row, off, emitted>>
Rows == UNION {[1..n -> VALS] : n \in 1..MAXLEN}
Tables == UNION { {[i \in 1..2 |-> [label |-> 10 + (i % m), s |-> x[i]]] :
                     x \in {<<a, b>> : a \in [1..n -> VALS], b \in [1..n -> VALS]}, m \in {1, 2}}
                  : n \in 1..MAXLEN }
Init == table \in Tables /\ win \in 1..MAXWIN /\ win <= Len(table[1].s) /\ row = 1 /\ off = 0 /\ emitted = <<>>
Emit == /\ row <= Len(table)
        /\ off + win <= Len(table[row].s)
        /\ emitted' = Append(emitted, [label |-> table[row].label, window |-> SubSeq(table[row].s, off + 1, off + win), offset |-> off])
        /\ off' = off + 1
        /\ UNCHANGED <<table, win, row>>
NextRow == /\ row <= Len(table)
           /\ off + win > Len(table[row].s)
           /\ row' = row + 1 /\ off' = 0
           /\ UNCHANGED <<table, win, emitted>>
Next == Emit \/ NextRow
Spec == Init /\ [][Next]_vars
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
EmittedInOrder == IsPrefixOf(emitted, TableWindows(table, win))
AllEmitted == row > Len(table) => emitted = TableWindows(table, win)
(* an element of a series is in exactly the windows whose span covers it *)
Coverage == \A r \in DOMAIN table : LET ws == Windows(table[r].s, win, 1) IN
   \A p \in DOMAIN table[r].s :
     Cardinality({i \in DOMAIN ws : i <= p /\ p < i + win}) =
       Min2(p, Len(table[r].s) - win + 1) - Max2(1, p - win + 1) + 1
(* dtw never exceeds euclidean, is symmetric, and zero on equal series *)
DTWSane == LET a == table[1].s  b == table[2].s IN
   DTW2(a, b) <= Euclid2(a, b) /\ DTW2(a, b) = DTW2(b, a) /\ DTW2(a, a) = 0
KNNSane == \A L \in 1..2, k \in 1..2 : LET s == table[1].s \o table[2].s IN
   KNNPossible(s, k, L) => NearestSets(s, k, L, "dtw") # {} /\
     \A S \in NearestSets(s, k, L, "dtw") :
       LET ws == Earlier(s, L)  last == SubSeq(s, Len(s) - L + 1, Len(s)) IN
       Cardinality(S) = k /\ \A i \in S, o \in (DOMAIN ws) \ S : DTW2(last, ws[i]) <= DTW2(last, ws[o])
=============================================================================
