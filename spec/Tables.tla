------------------------------- MODULE Tables -------------------------------
(* C24: the tables a classifier is trained with. The report of a suite      *)
(* lists its clusterings with their medoids; the medoid table has one row   *)
(* for each of them; a row is turned into a label that names a clustering   *)
(* and a cluster; the label is turned back when the classifier answers.     *)
(* Reports and tables are files, kept for several places (region, suite,    *)
(* output location); a table is written row by row, while other reports and *)
(* tables come and go.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PLACES, KS, SEEDS, CELLS, STEPS, SHARED
VARIABLES reports, files, job, steps
vars == <<reports, files, job, steps>>

----------------------------------------------------------------------------
(* rows of the table of a report: a report is a sequence of [k, seed, medoids] *)
RECURSIVE RowsOf(_)
RowsOf(r) ==
  IF r = <<>> THEN <<>>
  ELSE [i \in 1..Len(Head(r).medoids) |-> [k |-> Head(r).k, seed |-> Head(r).seed, i |-> i, cell |-> Head(r).medoids[i]]] \o RowsOf(Tail(r))
(* labels: decimal digits, with a separator between the numbers *)
Dash == 10
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
Label(k, seed, c) == Digits(k) \o <<Dash>> \o Digits(seed) \o <<Dash>> \o Digits(c)
RECURSIVE Value(_), Split(_)
Value(q) == IF q = <<>> THEN 0 ELSE 10 * Value(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)]
Split(q) ==
  LET D == {j \in DOMAIN q : q[j] = Dash} IN
  IF D = {} THEN <<q>>
  ELSE LET j == CHOOSE x \in D : \A y \in D : x <= y
       IN <<SubSeq(q, 1, j - 1)>> \o Split(SubSeq(q, j + 1, Len(q)))
FromLabel(q) == LET p == Split(q) IN [k |-> Value(p[1]), seed |-> Value(p[2]), c |-> Value(p[3])]

----------------------------------------------------------------------------
Clusterings == {[k |-> k, seed |-> s, medoids |-> m] : k \in KS, s \in SEEDS, m \in UNION {[1..n -> CELLS] : n \in KS}}
Fits(c) == Len(c.medoids) = c.k /\ \A i, j \in DOMAIN c.medoids : c.medoids[i] = c.medoids[j] => i = j
Reports == {r \in UNION {[1..n -> {c \in Clusterings : Fits(c)}] : n \in 1..2} :
              \A i, j \in DOMAIN r : (r[i].k = r[j].k /\ r[i].seed = r[j].seed) => i = j}
(* the file of a place: with SHARED all places have the same *)
File(p) == IF SHARED THEN "table" ELSE p
Init == reports = [p \in PLACES |-> <<>>] /\ files = <<>> /\ job = <<>> /\ steps = 0
Analyse(p) == /\ job = <<>> /\ \E r \in Reports : reports' = [reports EXCEPT ![p] = r]
              /\ UNCHANGED <<files, job>>
Start(p) == /\ job = <<>> /\ reports[p] # <<>>
            /\ job' = [p |-> p, r |-> reports[p], c |-> 1, i |-> 1, rows |-> <<>>]
            /\ UNCHANGED <<reports, files>>
Finished == job.c > Len(job.r)
Row == /\ job # <<>> /\ ~Finished
       /\ LET c == job.r[job.c] IN
          IF job.i > Len(c.medoids) THEN job' = [job EXCEPT !.c = @ + 1, !.i = 1]
          ELSE job' = [job EXCEPT !.i = @ + 1, !.rows = Append(@, [k |-> c.k, seed |-> c.seed, i |-> job.i, cell |-> c.medoids[job.i]])]
       /\ UNCHANGED <<reports, files>>
Close == /\ job # <<>> /\ Finished
         /\ files' = [f \in DOMAIN files \cup {File(job.p)} |-> IF f = File(job.p) THEN [of |-> job.p, r |-> job.r, rows |-> job.rows] ELSE files[f]]
         /\ job' = <<>> /\ UNCHANGED reports
Next == \/ steps < STEPS /\ steps' = steps + 1 /\ \E p \in PLACES : Analyse(p) \/ Start(p)
        \/ steps' = steps /\ (Row \/ Close)
Spec == Init /\ [][Next]_vars /\ WF_vars(steps' = steps /\ (Row \/ Close))

TablesSay == \A f \in DOMAIN files : files[f].rows = RowsOf(files[f].r)
EachMedoidOnce == \A f \in DOMAIN files : LET t == files[f] IN
  \A a \in DOMAIN t.r : \A i \in 1..t.r[a].k :
    Cardinality({j \in DOMAIN t.rows : t.rows[j].k = t.r[a].k /\ t.rows[j].seed = t.r[a].seed /\ t.rows[j].i = i}) = 1
LabelsLead == \A f \in DOMAIN files : LET t == files[f].rows IN
  \A a, b \in DOMAIN t : LET l == Label(t[a].k, t[a].seed, t[a].i - 1) IN
    /\ FromLabel(l) = [k |-> t[a].k, seed |-> t[a].seed, c |-> t[a].i - 1]
    /\ l = Label(t[b].k, t[b].seed, t[b].i - 1) => a = b
(* the table found for a place was made of a report of that place *)
OwnTable == \A p \in PLACES : File(p) \in DOMAIN files => files[File(p)].of = p
Ends == job # <<>> ~> job = <<>>
=============================================================================
