-------------------------------- MODULE Fuzzy --------------------------------
(* Fuzzy k-medoids memberships, and masks that threshold them.              *)
(* For masks, u[i][j] is the membership of point i in cluster j (integers). *)
EXTENDS SeriesMath, TLC, Json

CONSTANTS FN, FK, UNIT              \* explored by the design check

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Best(row) == MaxOf({row[j] : j \in DOMAIN row})
InMask(row, c, thr) == Best(row) - row[c] <= thr
RECURSIVE MaskFrom(_, _, _, _)
MaskFrom(u, c, thr, i) == IF i > Len(u) THEN <<>>
                          ELSE (IF InMask(u[i], c, thr) THEN <<i>> ELSE <<>>) \o MaskFrom(u, c, thr, i + 1)
Mask(u, c, thr) == MaskFrom(u, c, thr, 1)
ValidMask(k, c, thr, unit) == 0 <= thr /\ thr <= unit /\ 1 <= c /\ c <= k

(* memberships for the exponent m = 2, as numerator and denominator:        *)
(* the inverse of the distance, normalised; dd[j] are the distances to the medoids *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Others(dd, j) == [i \in DOMAIN dd |-> IF i = j THEN 1 ELSE dd[i]]
MemberNum(dd, j) == Prod(Others(dd, j))
MemberDen(dd) == SumSeq([j \in DOMAIN dd |-> MemberNum(dd, j)])

----------------------------------------------------------------------------
(* design check: a mask while its threshold grows *)
VARIABLES u, c, thr, prev
vars == <<u, c, thr, prev>>
Rows == {r \in [1..FK -> 0..UNIT] : SumSeq(r) = UNIT}
Init == u \in [1..FN -> Rows] /\ c \in 1..FK /\ thr = 0 /\ prev = Mask(u, c, 0)
Raise == thr < UNIT /\ thr' = thr + 1 /\ prev' = Mask(u, c, thr) /\ UNCHANGED <<u, c>>
Spec == Init /\ [][Raise]_vars
SetOf(s) == {s[i] : i \in DOMAIN s}
Nested == SetOf(prev) \subseteq SetOf(Mask(u, c, thr))
ZeroIsBest == thr = 0 => \A i \in 1..FN : i \in SetOf(Mask(u, c, 0)) <=> u[i][c] = Best(u[i])
UnitIsAll == thr = UNIT => SetOf(Mask(u, c, thr)) = 1..FN
EveryoneSomewhere == \A i \in 1..FN : \E cc \in 1..FK : i \in SetOf(Mask(u, cc, thr))
(* memberships: normalised, and larger in nearer medoids *)
MemberSane == \A dd \in [1..FK -> 1..3] :
   /\ MemberDen(dd) > 0
   /\ \A i, j \in 1..FK : dd[i] < dd[j] => MemberNum(dd, i) > MemberNum(dd, j)
=============================================================================
