----------------------------- MODULE T_Regular -----------------------------
EXTENDS Regular, TraceLib
RStep(s, e) ==
  CASE e.op = "balanced" ->
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.out = Balanced(e.k), "balanced-divisors")
                     \cup Need(e.ok = 1 /\ e.xy = Grid(e.k, e.X, e.Y), "divisor-order")
                     \cup Need(e.ok = 1 /\ {e.divs[i] : i \in DOMAIN e.divs} = {f \in 1..e.k : e.k % f = 0}, "divisors")]
    [] e.op = "regular" ->      \* labels of the partition, its k, its cluster sizes
         LET can == Fits(e.k, e.X, e.Y) IN
         [st |-> [X |-> e.X, Y |-> e.Y, k |-> e.k, lab |-> e.lab],
          bad |-> Need((e.ok = 1) = can, IF can THEN "refused" ELSE "too-small-accepted")
            \cup (IF can /\ e.ok = 1 THEN Need(IsTiling(e.lab, e.X, e.Y, e.k), "tiling")
                                     \cup Need(e.pk = e.k, "number-of-clusters") ELSE {})]
    [] e.op = "sizes" ->
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.out = [c \in 1..s.k |-> Cardinality(MembersOf(s.lab, c - 1))], "sizes")
                     \cup Need(\A c \in DOMAIN e.out : e.out[c] > 0, "empty-cluster")]
    [] e.op = "medoids" ->      \* meds[c]: position (1..n) of the medoid of cluster c - 1
         [st |-> s, bad |-> Need(e.ok = 1 /\ Len(e.meds) = s.k, "medoids") \cup
            (IF e.ok = 1 /\ Len(e.meds) = s.k
             THEN Need(\A c \in 1..s.k : e.meds[c] \in MembersOf(s.lab, c - 1), "medoid-not-member")
                  \cup Need(\A c \in 1..s.k : e.meds[c] \in Best(e.D, MembersOf(s.lab, c - 1)), "medoid-not-best")
             ELSE {})]
    [] e.op = "points" ->       \* every point, in the order of the labels
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.out = [i \in 1..(e.X * e.Y) |-> <<(i - 1) \div e.Y, (i - 1) % e.Y>>], "points-of-region")]
    [] e.op = "away" ->         \* distances of the points to one of them, in thousandths
         [st |-> s, bad |-> Need(e.ok = 1 /\ Len(e.out) = e.X * e.Y /\ \A i \in 1..(e.X * e.Y) :
              LET dx == (i - 1) \div e.Y - e.i
                  dy == ((i - 1) % e.Y) - e.j
                  v == e.out[i]
              IN  v >= 0 /\ v < 2000000 /\ (LET q == v \div 1000 IN q * q <= dx * dx + dy * dy /\ dx * dx + dy * dy <= (q + 1) * (q + 1))
                  /\ (v <= 40000 => v * v - 1000000 * (dx * dx + dy * dy) <= v + 1 /\ 1000000 * (dx * dx + dy * dy) - v * v <= v + 1), "distance-to-point")]
    [] OTHER -> Unknown(s, e)
RStart == [X |-> 0, Y |-> 0, k |-> 0, lab |-> <<>>]
THInit == n = 0 /\ d = 0 /\ lens = <<>> /\ phase = "" /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
