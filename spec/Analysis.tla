------------------------------- MODULE Analysis -------------------------------
(* C26: the programs that analyse the clusterings of a suite. A program     *)
(* goes through the clusterings of its suite; for each it takes the stored  *)
(* partition or makes and stores it, and appends what it found to a table:  *)
(* costs and medoids, distances between medoids, errors of the models of    *)
(* medoids at medoids and at members, summaries of clusters. Programs run   *)
(* at the same time over one store, and may die and be started again.       *)
(*                                                                          *)
(* A clustering is [lab, rep]; D are the distances between cells, E[p][q]   *)
(* the error of the model trained at p when it forecasts q.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS CLUSTERINGS,      \* sequence of [lab, rep]: what each clustering of the suite gives
          DIST, ERR,        \* worlds
          KINDS, PROCS, RUNS, Fresh
VARIABLES world, store, procs, tables, runs
vars == <<world, store, procs, tables, runs>>
RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(S \ {x}, f)
Members(c, i) == {p \in DOMAIN c.lab : c.lab[p] = i - 1}
Of(c, p) == c.rep[c.lab[p] + 1]
(* squared overall error of the model at p over a set of cells *)
Over(E, S, p) == SumF(S, [q \in S |-> E[p][q] * E[p][q]])
Least(S, f) == CHOOSE v \in {f[x] : x \in S} : \A y \in S : v <= f[y]
Most(S, f) == CHOOSE v \in {f[x] : x \in S} : \A y \in S : v >= f[y]
(* what each program says of a clustering *)
Says(kind, D, E, c) ==
  CASE kind = "costs" -> [cost |-> SumF(DOMAIN c.lab, [p \in DOMAIN c.lab |-> D[p][Of(c, p)]]), medoids |-> c.rep]
    [] kind = "distances" -> [i \in DOMAIN c.rep |-> [j \in DOMAIN c.rep |-> D[c.rep[i]][c.rep[j]]]]
    [] kind = "between" -> [i \in DOMAIN c.rep |-> [j \in DOMAIN c.rep |-> E[c.rep[i]][c.rep[j]]]]
    [] kind = "members" -> [i \in DOMAIN c.rep |-> [p \in Members(c, i) |-> <<D[p][c.rep[i]], E[c.rep[i]][p]>>]]
    [] kind = "summary" -> [i \in DOMAIN c.rep |->
          LET M == Members(c, i)  over == [p \in M |-> Over(E, M, p)]
              own == [p \in M |-> E[p][p]] IN
          [size |-> Cardinality(M), each |-> SumF(M, [p \in M |-> own[p] * own[p]]), min |-> Least(M, over), max |-> Most(M, over),
           medoid |-> over[c.rep[i]], local |-> {over[p] : p \in {x \in M : own[x] = Least(M, own)}}]]
----------------------------------------------------------------------------
N == Len(CLUSTERINGS)
Init == /\ world \in [D : DIST, E : ERR] /\ store = [i \in 1..N |-> 0] /\ tables = <<>> /\ runs = 0
        /\ procs = [p \in PROCS |-> [kind |-> "", at |-> 0, part |-> 0, rows |-> <<>>]]
Start(p, k) == /\ procs[p].kind = "" /\ runs < RUNS /\ runs' = runs + 1
               /\ procs' = [procs EXCEPT ![p] = [kind |-> k, at |-> 1, part |-> 0, rows |-> <<>>]]
               /\ UNCHANGED <<world, store, tables>>
(* take the partition: the stored one, or make it; Fresh = FALSE keeps the one in memory *)
Take(p) == /\ procs[p].kind # "" /\ procs[p].at \in 1..N
           /\ (Fresh \/ procs[p].part = 0)
           /\ procs[p].part # procs[p].at
           /\ LET i == procs[p].at IN
              /\ procs' = [procs EXCEPT ![p].part = IF store[i] # 0 THEN store[i] ELSE i]
              /\ store' = [store EXCEPT ![i] = i]
           /\ UNCHANGED <<world, tables, runs>>
Ready(p) == IF Fresh THEN procs[p].part = procs[p].at ELSE procs[p].part # 0
Report(p) == /\ procs[p].kind # "" /\ procs[p].at \in 1..N /\ Ready(p)
             /\ procs' = [procs EXCEPT ![p].at = @ + 1,
                            ![p].rows = Append(@, [of |-> procs[p].at, says |-> Says(procs[p].kind, world.D, world.E, CLUSTERINGS[procs[p].part])])]
             /\ UNCHANGED <<world, store, tables, runs>>
Finish(p) == /\ procs[p].kind # "" /\ procs[p].at > N
             /\ tables' = [k \in DOMAIN tables \cup {procs[p].kind} |-> IF k = procs[p].kind THEN procs[p].rows ELSE tables[k]]
             /\ procs' = [procs EXCEPT ![p] = [kind |-> "", at |-> 0, part |-> 0, rows |-> <<>>]]
             /\ UNCHANGED <<world, store, runs>>
(* it dies: before or after the partition was stored *)
Die(p) == /\ procs[p].kind # ""
          /\ procs' = [procs EXCEPT ![p] = [kind |-> "", at |-> 0, part |-> 0, rows |-> <<>>]]
          /\ UNCHANGED <<world, store, tables, runs>>
Next == \E p \in PROCS : (\E k \in KINDS : Start(p, k)) \/ Take(p) \/ Report(p) \/ Finish(p) \/ Die(p)
Spec == Init /\ [][Next]_vars

(* a finished table says of every clustering, once, what holds for its own partition *)
TablesComplete == \A k \in DOMAIN tables :
  /\ Len(tables[k]) = N
  /\ \A i \in 1..N : Cardinality({j \in DOMAIN tables[k] : tables[k][j].of = i}) = 1
TablesTrue == \A k \in DOMAIN tables : \A j \in DOMAIN tables[k] :
  tables[k][j].says = Says(k, world.D, world.E, CLUSTERINGS[tables[k][j].of])
Row(k, i) == LET j == CHOOSE j \in DOMAIN tables[k] : tables[k][j].of = i IN tables[k][j].says
Both(a, b) == a \in DOMAIN tables /\ b \in DOMAIN tables
(* tables of different programs agree *)
Agree == \A i \in 1..N : LET c == CLUSTERINGS[i]  K == DOMAIN c.rep IN
  /\ Both("costs", "members") => Row("costs", i).cost = SumF(K, [x \in K |-> LET m == Row("members", i)[x] IN SumF(DOMAIN m, [p \in DOMAIN m |-> m[p][1]])])
  /\ Both("between", "members") => \A x \in K : Row("between", i)[x][x] = Row("members", i)[x][c.rep[x]][2]
  /\ Both("summary", "members") => \A x \in K : LET m == Row("members", i)[x] IN
        Row("summary", i)[x].medoid = SumF(DOMAIN m, [p \in DOMAIN m |-> m[p][2] * m[p][2]])
  /\ "distances" \in DOMAIN tables => \A x, y \in K : Row("distances", i)[x][y] = Row("distances", i)[y][x] /\ Row("distances", i)[x][x] = 0
  /\ "summary" \in DOMAIN tables => \A x \in K : LET r == Row("summary", i)[x] IN
        /\ r.min <= r.medoid /\ r.medoid <= r.max
        /\ \A l \in r.local : r.min <= l /\ l <= r.max
StoreTrue == \A i \in 1..N : store[i] \in {0, i}
=============================================================================
