------------------------------- MODULE Regions -------------------------------
(* The region algebra of spta.region: plain regions, clusters, scaled        *)
(* regions and their combinations, as a heap of immutable values.  Every     *)
(* public operation appends a new value to the heap and may never change an  *)
(* older one.                                                                *)
(*                                                                           *)
(* A value at a point is the rational d/den (den > 1 after scaling), or the  *)
(* sentinel NaN.  Points are numbered row-major from 1: Pt(p) = <<x, y>>.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json

NaN == 2000000001
Inf == 2000000002
NInf == 2000000004

Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* ------------------------------------------------------------ objects ---- *)
\* kind  "st" | "sp"        spatio-temporal / spatial
\* X, Y, T                  dimensions (T = 1 for "sp")
\* d                        d[p][t], numerators;   den[p] denominators
\* mem                      mem[p] is TRUE iff p belongs to the view
\* cl                       cluster index or -1;  k  clusters of its partition
\* sc, lo, hi               scaled?  per-point minimum and maximum
\* outer                    "P" plain, "C" cluster, "S" scaled,
\*                          "CS" cluster over scaled, "SC" scaled over cluster, "E" error map
\* src, tim                 (ghost) where point p / sample t came from in the
\*                          root object; pure: no function changed the values
N(o) == o.X * o.Y
Pts(o) == 1..N(o)
Members(o) == {p \in Pts(o) : o.mem[p]}
PtX(o, p) == (p - 1) \div o.Y
PtY(o, p) == (p - 1) % o.Y
Idx(o, x, y) == x * o.Y + y + 1
MemberSeq(o) == SelectSeq([p \in Pts(o) |-> p], LAMBDA p : o.mem[p])

Root(kind, X, Y, T, data, id) ==
  [kind |-> kind, X |-> X, Y |-> Y, T |-> T, d |-> data,
   den |-> [p \in 1..(X * Y) |-> 1], mem |-> [p \in 1..(X * Y) |-> TRUE],
   cl |-> -1, k |-> 0, sc |-> FALSE, lo |-> <<>>, hi |-> <<>>, outer |-> "P",
   src |-> [p \in 1..(X * Y) |-> p], tim |-> [t \in 1..T |-> t], root |-> id, pure |-> TRUE]

(* ---------------------------------------------------------- refusals ----- *)
IsC(o) == o.cl # -1

(* --------------------------------------------------------- subsetting ---- *)
ISub(o, t1, t2) ==
  [o EXCEPT !.T = t2 - t1, !.d = [p \in Pts(o) |-> SubSeq(o.d[p], t1 + 1, t2)],
            !.tim = SubSeq(o.tim, t1 + 1, t2)]

RSub(o, x1, x2, y1, y2) ==
  LET W == y2 - y1
      from == [q \in 1..((x2 - x1) * W) |->
                  Idx(o, x1 + ((q - 1) \div W), y1 + ((q - 1) % W))]
      Re(s) == [q \in DOMAIN from |-> s[from[q]]]
  IN [o EXCEPT !.X = x2 - x1, !.Y = W, !.d = Re(o.d), !.den = Re(o.den), !.mem = Re(o.mem),
               !.lo = IF o.sc THEN Re(o.lo) ELSE o.lo, !.hi = IF o.sc THEN Re(o.hi) ELSE o.hi,
               !.src = Re(o.src)]

Cluster(o, labels, k, c) ==
  [o EXCEPT !.mem = [p \in Pts(o) |-> labels[p] = c], !.cl = c, !.k = k,
            !.outer = IF o.outer = "S" THEN "CS" ELSE "C"]

(* --------------------------------------------------------- repetition ---- *)
RepeatSeries(o, s) ==      \* s: integers in the units of the object
  [o EXCEPT !.T = Len(s), !.d = [p \in Pts(o) |-> s], !.den = [p \in Pts(o) |-> 1],
            !.tim = s, !.pure = FALSE]
RepeatPoint(o, p) ==
  [o EXCEPT !.d = [q \in Pts(o) |-> o.d[p]], !.den = [q \in Pts(o) |-> o.den[p]], !.pure = FALSE]

(* ------------------------------------------------- per-point functions --- *)
HasNaN(s) == \E i \in DOMAIN s : s[i] = NaN
Clean(s) == {s[i] : i \in {j \in DOMAIN s : s[j] # NaN}}

ScalarFn(f, a, o, p) ==
  LET s == o.d[p] IN
  CASE f = "sum"   -> IF HasNaN(s) THEN NaN ELSE SumSeq(s)
    [] f = "min"   -> IF HasNaN(s) THEN NaN ELSE MinOf(Clean(s))
    [] f = "max"   -> IF HasNaN(s) THEN NaN ELSE MaxOf(Clean(s))
    [] f = "first" -> s[1]
    [] f = "last"  -> s[Len(s)]
    [] f = "pos"   -> IF s[1] = NaN THEN NaN ELSE s[1] + p * o.den[p]   \* differs per point
ScalarFns == {"sum", "min", "max", "first", "last", "pos"}

SeriesFn(f, a, o, p) ==
  LET s == o.d[p]
      L(v, w) == IF v = NaN THEN NaN ELSE w
  IN CASE f = "rev"  -> Reverse(s)
       [] f = "neg"  -> [t \in DOMAIN s |-> L(s[t], -s[t])]
       [] f = "add"  -> [t \in DOMAIN s |-> L(s[t], s[t] + a * o.den[p])]
       [] f = "head" -> SubSeq(s, 1, a)
       [] f = "pos"  -> [t \in DOMAIN s |-> L(s[t], s[t] + p * o.den[p])]
       [] f = "rep"  -> [t \in 1..a |-> s[1]]
SeriesFns == {"rev", "neg", "add", "head", "pos", "rep"}
OutLen(f, a, o) == IF f \in {"head", "rep"} THEN a ELSE o.T

\* values outside the view are not observable; the code leaves zeros there
ApplyScalar(o, f, a) ==
  [o EXCEPT !.kind = "sp", !.T = 1, !.sc = FALSE, !.lo = <<>>, !.hi = <<>>, !.tim = <<1>>,
            !.outer = IF IsC(o) THEN "C" ELSE "P", !.pure = FALSE,
            !.d = [p \in Pts(o) |-> IF o.mem[p] THEN <<ScalarFn(f, a, o, p)>> ELSE <<0>>]]
ApplySeries(o, f, a) ==
  [o EXCEPT !.kind = "st", !.T = OutLen(f, a, o), !.pure = FALSE,
            !.tim = [t \in 1..OutLen(f, a, o) |-> t],
            !.d = [p \in Pts(o) |-> IF o.mem[p] THEN SeriesFn(f, a, o, p)
                                    ELSE [t \in 1..OutLen(f, a, o) |-> 0]]]

(* ------------------------------------------------------------- scaling --- *)
Scale(o) ==
  LET S(p) == Clean(o.d[p])
      lo == [p \in Pts(o) |-> IF ~o.mem[p] THEN 0 ELSE IF S(p) = {} THEN NaN ELSE MinOf(S(p))]
      hi == [p \in Pts(o) |-> IF ~o.mem[p] THEN 0 ELSE IF S(p) = {} THEN NaN ELSE MaxOf(S(p))]
  IN [o EXCEPT
        !.sc = TRUE, !.lo = lo, !.hi = hi, !.outer = IF IsC(o) THEN "SC" ELSE "S",
        !.den = [p \in Pts(o) |-> IF lo[p] = hi[p] THEN 1 ELSE hi[p] - lo[p]],
        !.d = [p \in Pts(o) |-> [t \in 1..o.T |->
                 IF ~o.mem[p] THEN 0
                 ELSE IF S(p) = {} THEN NaN
                 ELSE IF lo[p] = hi[p] THEN 0      \* constant series become zeros
                 ELSE IF o.d[p][t] = NaN THEN NaN
                 ELSE o.d[p][t] - lo[p]]]]

\* value * (hi - lo) + lo
DescalePoint(o, p) ==
  LET r == o.hi[p] - o.lo[p] IN
  [den |-> IF o.lo[p] = NaN \/ r = o.den[p] THEN 1 ELSE o.den[p],
   d |-> [t \in 1..o.T |->
            IF o.lo[p] = NaN \/ o.d[p][t] = NaN THEN NaN
            ELSE IF r = o.den[p] THEN o.d[p][t] + o.lo[p]
            ELSE o.d[p][t] * r + o.lo[p] * o.den[p]]]
Descale(o) ==
  [o EXCEPT !.sc = FALSE, !.lo = <<>>, !.hi = <<>>, !.outer = IF IsC(o) THEN "C" ELSE "P",
            !.den = [p \in Pts(o) |-> IF o.mem[p] THEN DescalePoint(o, p).den ELSE 1],
            !.d = [p \in Pts(o) |-> IF o.mem[p] THEN DescalePoint(o, p).d
                                    ELSE [t \in 1..o.T |-> 0]]]

(* ----------------------------------------------------- the operations ---- *)
\* op = [op, o (heap index), a (sequence of integers), f (function name), l (labels / data)]
RootData(op, n, T) == [p \in 1..n |-> SubSeq(op.l, (p - 1) * T + 1, p * T)]

InRect(o, a) == /\ 0 <= a[1] /\ a[1] < a[2] /\ a[2] <= o.X
                /\ 0 <= a[3] /\ a[3] < a[4] /\ a[4] <= o.Y
InTime(o, t1, t2) == 0 <= t1 /\ t1 < t2 /\ t2 <= o.T

\* Which requests are meaningful.  Others are never issued by the scenarios.
Enabled(h, op) ==
  \/ op.op = "new"
  \/ /\ op.o \in DOMAIN h
     /\ LET o == h[op.o] IN
        CASE op.op = "isub"    -> o.kind = "st" /\ InTime(o, op.a[1], op.a[2])
          [] op.op = "rsub"    -> InRect(o, op.a)
          [] op.op = "sub"     -> o.kind = "st" /\ InRect(o, op.a) /\ InTime(o, op.a[5], op.a[6])
          [] op.op = "cluster" -> ~IsC(o) /\ Len(op.l) = N(o)
          [] op.op = "reps"    -> o.kind = "st"
          [] op.op = "repp"    -> op.a[1] \in Pts(o)
          [] op.op = "repv"    -> o.kind = "sp"
          [] op.op = "fsca"    -> o.kind = "st" \/ op.f \in {"first", "pos"}
          [] op.op = "fser"    -> (o.kind = "st" /\ (op.f = "head" => op.a[1] <= o.T))
                                  \/ (o.kind = "sp" /\ op.f \in {"rep"})
          [] op.op = "scale"   -> o.kind = "st" /\ ~o.sc /\ \A p \in Pts(o) : o.den[p] = 1
          [] op.op = "descale" -> o.kind = "st"
          [] op.op = "extrema" -> o.kind = "sp"
          [] op.op = "errreg"  -> o.kind = "sp"
          [] op.op = "pickle"  -> TRUE
          [] op.op = "disk"    -> o.kind = "st" /\ o.outer \in {"P", "S"}
          [] op.op = "look"    -> TRUE
          [] OTHER -> FALSE

\* Requests that must be refused with an error.
Refused(h, op) ==
  op.op # "new" /\
  LET o == h[op.o] IN
  CASE op.op \in {"rsub", "sub"} -> IsC(o)
    [] op.op = "repp"    -> ~o.mem[op.a[1]]
    [] op.op = "descale" -> ~o.sc
    [] OTHER -> FALSE

Creates(op) == op.op \notin {"extrema", "disk", "look"}

\* operations on an error map are those of the spatial region it decorates
Undecorated(o) == IF o.outer = "E" THEN [o EXCEPT !.outer = IF IsC(o) THEN "C" ELSE "P"] ELSE o

\* the value created by an operation that is not refused
Do(h, op) ==
  IF op.op = "new" THEN Root(op.f, op.a[1], op.a[2], op.a[3],
                             RootData(op, op.a[1] * op.a[2], op.a[3]), Len(h) + 1)
  ELSE LET o == Undecorated(h[op.o]) IN
  CASE op.op = "isub"    -> ISub(o, op.a[1], op.a[2])
    [] op.op = "rsub"    -> RSub(o, op.a[1], op.a[2], op.a[3], op.a[4])
    [] op.op = "sub"     -> ISub(RSub(o, op.a[1], op.a[2], op.a[3], op.a[4]), op.a[5], op.a[6])
    [] op.op = "cluster" -> Cluster(o, op.l, op.a[1], op.a[2])
    [] op.op = "reps"    -> RepeatSeries(o, op.l)
    [] op.op = "repv"    -> RepeatSeries(o, <<op.a[1]>>)
    [] op.op = "repp"    -> RepeatPoint(o, op.a[1])
    [] op.op = "fsca"    -> ApplyScalar(o, op.f, op.a[1])
    [] op.op = "fser"    -> ApplySeries(o, op.f, op.a[1])
    [] op.op = "scale"   -> Scale(o)
    [] op.op = "descale" -> Descale(o)
    [] op.op = "pickle"  -> h[op.o]
    [] op.op = "errreg"  -> [o EXCEPT !.outer = "E"]   \* error map: a decorated spatial region

(* ------------------------------------------------- the state machine ----- *)
CONSTANTS XS, YS, TS, MaxHeap, Depth, OpNames, Prefix
PrefixNone == <<>>
PrefixScale == <<"scale">>
PrefixClusterScale == <<"cluster", "scale">>
PrefixScaleCluster == <<"scale", "cluster">>
PrefixCluster == <<"cluster">>
PrefixScalar == <<"fsca">>

VARIABLES heap, hist
vars == <<heap, hist>>
HeapView == <<heap, Len(hist)>>

\* deterministic data / label patterns for the design model (the conformance
\* driver replaces them by random ones)
Pattern(n, T) == [i \in 1..(n * T) |-> ((i * 37) % 101) - 20]
LabelPattern(n, k, s) ==
  [p \in 1..n |-> IF p <= k THEN (p - 1 + s) % k ELSE (p * (s + 1) + p * p * s) % k]

MkOp(name, o, a, f, l) == [op |-> name, o |-> o, a |-> a, f |-> f, l |-> l]

CandidatesOf(o, i, name) ==
  CASE name = "isub"    -> {MkOp("isub", i, <<t1, t2>>, "", <<>>) : t1 \in 0..(o.T - 1), t2 \in 1..o.T}
    [] name = "rsub"    -> {MkOp("rsub", i, <<x1, x2, y1, y2>>, "", <<>>) :
                              x1 \in 0..(o.X - 1), x2 \in 1..o.X, y1 \in 0..(o.Y - 1), y2 \in 1..o.Y}
    [] name = "sub"     -> {MkOp("sub", i, <<x1, o.X, y1, o.Y, t1, o.T>>, "", <<>>) :
                              x1 \in 0..(o.X - 1), y1 \in 0..(o.Y - 1), t1 \in 0..(o.T - 1)}
    [] name = "cluster" -> {MkOp("cluster", i, <<k, c>>, "", LabelPattern(N(o), k, s)) :
                              k \in 1..(IF N(o) < 3 THEN N(o) ELSE 3), c \in 0..2,
                              s \in 0..(IF Depth > 5 THEN 6 ELSE 1)}
    [] name = "reps"    -> {MkOp("reps", i, <<>>, "", [t \in 1..o.T |-> 3 * t])}
    [] name = "repv"    -> {MkOp("repv", i, <<7>>, "", <<>>)}
    [] name = "repp"    -> {MkOp("repp", i, <<p>>, "", <<>>) : p \in Pts(o)}
    [] name = "fsca"    -> {MkOp("fsca", i, <<1>>, f, <<>>) : f \in ScalarFns}
    [] name = "fser"    -> {MkOp("fser", i, <<2>>, f, <<>>) : f \in SeriesFns}
    [] OTHER            -> {MkOp(name, i, <<>>, "", <<>>)}

OpsFor(h, i, name) == {op \in CandidatesOf(h[i], i, name) :
                         Enabled(h, op) /\ (name = "cluster" => op.a[2] < op.a[1])}
Ops(h) == UNION {OpsFor(h, i, name) : i \in DOMAIN h, name \in OpNames}

Init == /\ hist = <<>>
        /\ \E x \in XS, y \in YS, t \in TS, kind \in {"st"} :
             heap = <<Root(kind, x, y, t, RootData([l |-> Pattern(x * y, t)], x * y, t), 1)>>

Perform(op) ==
  /\ hist' = Append(hist, op)
  /\ heap' = IF Creates(op) /\ ~Refused(heap, op) THEN Append(heap, Do(heap, op)) ELSE heap

Next == /\ Len(hist) < Depth /\ Len(heap) < MaxHeap
        /\ \E op \in Ops(heap) : Perform(op)

Spec == Init /\ [][Next]_vars

(* ------------------------------------------------ design properties ------ *)
TypeOK == \A i \in DOMAIN heap : LET o == heap[i] IN
            /\ DOMAIN o.d = Pts(o) /\ DOMAIN o.mem = Pts(o)
            /\ \A p \in Pts(o) : DOMAIN o.d[p] = 1..o.T /\ o.den[p] >= 1
            /\ o.sc => DOMAIN o.lo = Pts(o) /\ DOMAIN o.hi = Pts(o)

\* C04: whatever the sequence of subsets, clusterings and scalings, undoing the
\* scaling restores the root's value at exactly the points and samples left
OriginalUnits(o) == IF o.sc THEN Descale(o) ELSE o
ScalingReversible ==
  \A i \in DOMAIN heap : LET o == heap[i] IN
    o.pure => LET u == OriginalUnits(o) IN
      \A p \in Members(o), t \in 1..o.T :
        u.d[p][t] = heap[o.root].d[o.src[p]][o.tim[t]] * u.den[p]

ScaledInUnit ==
  \A i \in DOMAIN heap : LET o == heap[i] IN
    (o.pure /\ o.sc) => \A p \in Members(o), t \in 1..o.T :
        o.d[p][t] = NaN \/ (0 <= o.d[p][t] /\ o.d[p][t] <= o.den[p])

\* a view never gains points: a cluster view has the members of its label only
ViewStable == \A i \in DOMAIN heap : LET o == heap[i] IN
                (o.outer = "E" \/ (IsC(o) <=> o.outer \in {"C", "CS", "SC"})) /\ (o.sc <=> o.outer \in {"S", "CS", "SC"})

\* C01: no operation alters an existing value
Immutable == [][\A i \in DOMAIN heap : heap'[i] = heap[i]]_vars

\* C03: extrema come from members
ExtremaMembers ==
  \A i \in DOMAIN heap : LET o == heap[i] IN
     (o.kind = "sp" /\ Members(o) # {}) =>
        \E p \in Members(o) : \A q \in Members(o) :
            o.d[p][1] * o.den[q] <= o.d[q][1] * o.den[p]

(* ---------------------------------------------- scenario generation ------ *)
(* random behaviours (tlc -simulate): pick the kind of operation first, so    *)
(* that operations with many parameters do not dominate                       *)
GenTarget == IF Len(hist) >= Len(Prefix) /\ RandomElement(1..3) = 1 THEN RandomElement(DOMAIN heap) ELSE Len(heap)
GenStep(i, name) ==
  LET S == OpsFor(heap, i, name) IN
  Perform(IF S = {} THEN MkOp("look", i, <<>>, "", <<>>) ELSE RandomElement(S))
GenDone == /\ Len(hist) = Depth
           /\ PrintT("GEN " \o ToJson([dim |-> <<heap[1].X, heap[1].Y, heap[1].T>>, ops |-> hist]))
           /\ hist' = Append(hist, MkOp("end", 0, <<>>, "", <<>>)) /\ UNCHANGED heap
NextName == IF Len(hist) < Len(Prefix) THEN Prefix[Len(hist) + 1] ELSE RandomElement(OpNames)
GenNext == IF Len(hist) < Depth THEN \E i \in {GenTarget}, name \in {NextName} : GenStep(i, name) ELSE GenDone
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
