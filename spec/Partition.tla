------------------------------ MODULE Partition ------------------------------
(* Crisp partitions of a region (spta.region.partition): membership, cluster *)
(* sizes, clusters touching an area, merging of clusters and merging with    *)
(* representatives.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json

CONSTANTS XS, YS, KS, MergeExtra

\* a partition: [X, Y, k, lab] with lab[p] \in 0..k-1, points row-major from 1
N(g) == g.X * g.Y
Pts(g) == 1..N(g)
IsMember(g, p, c) == g.lab[p] = c
MembersOf(g, c) == {p \in Pts(g) : g.lab[p] = c}
MemberSeq(g, c) == SelectSeq([p \in Pts(g) |-> p], LAMBDA p : g.lab[p] = c)
Size(g, c) == Cardinality(MembersOf(g, c))
PointOf(g, p) == <<(p - 1) \div g.Y, (p - 1) % g.Y>>
IndexOf(g, pt) == pt[1] * g.Y + pt[2] + 1
Area(g, a) == {p \in Pts(g) : /\ a[1] <= PointOf(g, p)[1] /\ PointOf(g, p)[1] < a[2]
                              /\ a[3] <= PointOf(g, p)[2] /\ PointOf(g, p)[2] < a[4]}
Touching(g, a) == {g.lab[p] : p \in Area(g, a)}

(* A cluster handed to a merge: [c |-> index, v |-> values at all points].   *)
(* A merge is defined iff the sequence holds each cluster exactly once.      *)
Complete(g, cs) == /\ Len(cs) = g.k
                   /\ {cs[i].c : i \in DOMAIN cs} = 0..(g.k - 1)
Merge(g, cs) ==
  [p \in Pts(g) |-> LET i == CHOOSE j \in DOMAIN cs : cs[j].c = g.lab[p] IN cs[i].v[p]]

\* representatives: one point per given cluster, paired by position
RepsOK(g, cs, reps) == /\ Complete(g, cs) /\ Len(reps) = Len(cs)
                       /\ \A i \in DOMAIN cs : g.lab[reps[i]] = cs[i].c
MergeReps(g, cs, reps) ==
  [p \in Pts(g) |-> LET i == CHOOSE j \in DOMAIN cs : cs[j].c = g.lab[p] IN cs[i].v[reps[i]]]

(* -------------------------------------------------- the state machine ---- *)
(* build clusters one after the other, in any order and possibly with        *)
(* repetitions, then merge them                                              *)
VARIABLES g, cs, out
vars == <<g, cs, out>>
Init == /\ \E x \in XS, y \in YS, k \in KS :
             /\ k <= x * y
             /\ \E lab \in [1..(x * y) -> 0..(k - 1)] :
                  /\ \E p \in 1..(x * y) : lab[p] = k - 1
                  /\ g = [X |-> x, Y |-> y, k |-> k, lab |-> lab]
        /\ cs = <<>> /\ out = [done |-> FALSE, ok |-> FALSE, v |-> <<>>]
ValueOf(c, p) == 100 * (c + 1) + p
AddCluster(c) == /\ ~out.done /\ Len(cs) < g.k + MergeExtra
                 /\ cs' = Append(cs, [c |-> c, v |-> [p \in Pts(g) |-> ValueOf(c, p)]])
                 /\ UNCHANGED <<g, out>>
DoMerge == /\ ~out.done /\ cs # <<>>
           /\ out' = IF Complete(g, cs) THEN [done |-> TRUE, ok |-> TRUE, v |-> Merge(g, cs)]
                     ELSE [done |-> TRUE, ok |-> FALSE, v |-> <<>>]
           /\ UNCHANGED <<g, cs>>
Next == DoMerge \/ \E c \in 0..(g.k - 1) : AddCluster(c)
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][FALSE]_vars

Cover == \A p \in Pts(g) : Cardinality({c \in 0..(g.k - 1) : IsMember(g, p, c)}) = 1
SizesAddUp == LET RECURSIVE Sum(_) Sum(c) == IF c < 0 THEN 0 ELSE Size(g, c) + Sum(c - 1)
              IN Sum(g.k - 1) = N(g)
MergedOwner == out.ok => \A p \in Pts(g) : out.v[p] = ValueOf(g.lab[p], p)
RefusedExactly == out.done => (out.ok <=> /\ Len(cs) = g.k
                                          /\ \A i, j \in DOMAIN cs : i # j => cs[i].c # cs[j].c)
TouchWhole == Touching(g, <<0, g.X, 0, g.Y>>) = {g.lab[p] : p \in Pts(g)}

\* all labelings, as scenarios
GenOut == (cs = <<>> /\ ~out.done) => PrintT("GEN " \o ToJson(g))
=============================================================================
