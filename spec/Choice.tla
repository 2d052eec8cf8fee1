------------------------------- MODULE Choice -------------------------------
(* C18: choosing a medoid of a suite for a point, under a limit of uses.    *)
(* A suite is a sequence of clusterings, each with a number of medoids; a   *)
(* medoid is known as <<clustering, index>>.  The chooser works clustering  *)
(* by clustering (as the program does); the requirement is about all        *)
(* medoids of the suite at once, and about whole histories of choices.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIZES,        \* medoids per clustering
          VALUES,       \* defined scores
          LIMITS,       \* 0: no limit
          DEPTH,
          ONLYONE,      \* TRUE: one medoid per clustering has a score, which may be undefined
          LATE          \* TRUE: exhaustion is only looked at after the best one was found (a faulty chooser)
Inf == 2000000002
NaN == 2000000001
VARIABLES limit, hist, steps, last, trail
vars == <<limit, hist, steps, last, trail>>

Medoids(z) == {<<c, i>> : c \in DOMAIN z, i \in 1..10} \cap UNION {{<<c, i>> : i \in 1..z[c]} : c \in DOMAIN z}
(* a history: the choices made so far, one entry per choice *)
Used(h, m) == Cardinality({n \in DOMAIN h : h[n] = m})
Defined(v) == v # Inf /\ v # NaN
Scored(sc, m) == sc[m[1]][m[2]]
Available(z, sc, h, lim) == {m \in Medoids(z) : Defined(Scored(sc, m)) /\ (lim = 0 \/ Used(h, m) < lim)}
(* what the requirement allows; {} : the request is refused *)
Best(z, sc, h, lim) == LET A == Available(z, sc, h, lim) IN {m \in A : \A o \in A : Scored(sc, m) <= Scored(sc, o)}
(* documented: among equal scores of different clusterings the first clustering is kept *)
Allowed(z, sc, h, lim) == LET B == Best(z, sc, h, lim) IN {m \in B : \A o \in B : m[1] <= o[1]}

(* the program: lowest score of each clustering (an undefined one counts as lowest, the first on ties), *)
(* then strict improvement over the clusterings before                                                   *)
Lowest(s) == IF \E i \in DOMAIN s : s[i] = NaN THEN CHOOSE i \in DOMAIN s : s[i] = NaN /\ \A j \in 1..(i-1) : s[j] # NaN
             ELSE CHOOSE i \in DOMAIN s : (\A j \in DOMAIN s : s[i] <= s[j]) /\ (\A j \in 1..(i-1) : s[i] < s[j])
Suppressed(z, sc, h, lim) == [c \in DOMAIN z |-> [i \in 1..z[c] |-> IF lim > 0 /\ Used(h, <<c, i>>) >= lim THEN Inf ELSE sc[c][i]]]
RECURSIVE Improve(_, _, _)
Improve(s, c, best) ==
  IF c > Len(s) THEN best
  ELSE LET i == Lowest(s[c])  v == s[c][i]
           cur == IF best = <<>> THEN Inf ELSE s[best[1]][best[2]] IN
       Improve(s, c + 1, IF v # NaN /\ v < cur THEN <<c, i>> ELSE best)
Program(z, sc, h, lim) ==
  IF LATE THEN LET b == Improve(sc, 1, <<>>) IN IF b # <<>> /\ lim > 0 /\ Used(h, b) >= lim THEN <<>> ELSE b
  ELSE Improve(Suppressed(z, sc, h, lim), 1, <<>>)

Scores == IF ONLYONE
          THEN {s \in [DOMAIN SIZES -> UNION {[1..n -> VALUES \cup {Inf, NaN}] : n \in {SIZES[c] : c \in DOMAIN SIZES}}] :
                  \A c \in DOMAIN SIZES : Len(s[c]) = SIZES[c] /\ Cardinality({i \in DOMAIN s[c] : s[c][i] # Inf}) = 1}
          ELSE {s \in [DOMAIN SIZES -> UNION {[1..n -> VALUES] : n \in {SIZES[c] : c \in DOMAIN SIZES}}] :
                  \A c \in DOMAIN SIZES : Len(s[c]) = SIZES[c]}
Nothing == [sc |-> <<>>, got |-> <<>>, before |-> <<>>]
Init == limit \in LIMITS /\ hist = <<>> /\ steps = 0 /\ last = Nothing /\ trail = <<>>
Choose(sc) == LET m == Program(SIZES, sc, hist, limit) IN
  /\ steps < DEPTH /\ steps' = steps + 1
  /\ hist' = IF m = <<>> THEN hist ELSE Append(hist, m)
  /\ last' = [sc |-> sc, got |-> m, before |-> hist]
  /\ trail' = Append(trail, sc)
  /\ UNCHANGED limit
Next == \E sc \in Scores : Choose(sc)
Spec == Init /\ [][Next]_vars
Counts == [m \in Medoids(SIZES) |-> Used(hist, m)]
BeforeCounts == [m \in Medoids(SIZES) |-> Used(last.before, m)]
View == <<limit, Counts, steps, last.sc, last.got, BeforeCounts>>

WithinLimit == limit > 0 => \A m \in Medoids(SIZES) : Used(hist, m) <= limit
ChosenIsBest == last.sc # <<>> => (IF Allowed(SIZES, last.sc, last.before, limit) = {} THEN last.got = <<>>
                                   ELSE last.got \in Allowed(SIZES, last.sc, last.before, limit))
Recorded == steps > 0 => Len(hist) = Len(last.before) + (IF last.got = <<>> THEN 0 ELSE 1)
(* with a limit, only so many requests can be answered *)
Exhausts == limit > 0 => Len(hist) <= limit * Cardinality(Medoids(SIZES))
GenHistory == (steps = DEPTH) => PrintT("GEN " \o ToJson([limit |-> limit, sizes |-> SIZES, scores |-> trail]))
Two == <<2, 1>>
Three == <<2, 3, 1>>
=============================================================================
