--------------------------- MODULE PartitionStore ---------------------------
(* Partitions saved for later: one file per textual identity of            *)
(* <location, region, distance, clustering description>. A request returns  *)
(* what the clustering would compute, however often files vanish or break.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS HOMES, REGIONS, DISTS, KS, SEEDS, MODES, INITS, DEPTH

(* --- textual form of a description and its recovery --- *)
RECURSIVE JoinDash(_)
JoinDash(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "-" \o JoinDash(Tail(s))
Text(d) == IF d.algo = "regular" THEN "regular_k" \o ToString(d.k)
           ELSE "kmedoids_k" \o ToString(d.k) \o "_seed" \o ToString(d.seed) \o "_" \o d.mode
                \o (IF d.init = <<>> THEN "" ELSE "_im" \o JoinDash(d.init))
Regular(k) == [algo |-> "regular", k |-> k, seed |-> 0, mode |-> "", init |-> <<>>]
Descs == {Regular(k) : k \in KS}
         \cup {[algo |-> "kmedoids", k |-> k, seed |-> sd, mode |-> m, init |-> i] : k \in KS, sd \in SEEDS, m \in MODES, i \in INITS}
ASSUME \A a, b \in Descs : (Text(a) = Text(b)) => a = b        \* the text loses nothing

MCInits == {<<>>, <<1, 2>>, <<12>>, <<1>>}
Keys == [home : HOMES, region : REGIONS, dist : DISTS, desc : Descs]
PathOf(key) == <<key.home, key.region, key.dist, Text(key.desc)>>
ASSUME \A a, b \in Keys : (PathOf(a) = PathOf(b)) => a = b

(* --- abstract store: entries [key, med, ok] --- *)
Entry(st, key) == {r \in st : r.key = key}
Good(st, key) == \E r \in Entry(st, key) : r.ok = 1
Usable(st, key, wm) == \E r \in Entry(st, key) : r.ok = 1 /\ (wm = 1 => r.med = 1)
AfterRequest(st, key, wm) ==
  IF Usable(st, key, wm) THEN st ELSE (st \ Entry(st, key)) \cup {[key |-> key, med |-> wm, ok |-> 1]}
AfterDelete(st, key) == st \ Entry(st, key)
AfterCorrupt(st, key) == {IF r.key = key THEN [r EXCEPT !.ok = 0] ELSE r : r \in st}

----------------------------------------------------------------------------
(* design: files by path against the abstract store *)
VARIABLES files, store, ret, steps
vars == <<files, store, ret, steps>>
Broken == [of |-> <<>>, med |-> 2]
Init == files = <<>> /\ store = {} /\ ret = <<>> /\ steps = 0
Put(f, p, v) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN v ELSE f[x]]
Computed(key, wm) == [of |-> <<key.region, key.dist, key.desc>>, med |-> wm]
Request(key, wm) ==
  LET p == PathOf(key)
      loaded == p \in DOMAIN files /\ files[p] # Broken /\ (wm = 1 => files[p].med = 1)
      got == IF loaded THEN files[p] ELSE Computed(key, wm) IN
  /\ files' = IF loaded THEN files ELSE Put(files, p, got)
  /\ ret' = <<key, wm, got>>
  /\ store' = AfterRequest(store, key, wm)
Delete(key) == /\ files' = [x \in DOMAIN files \ {PathOf(key)} |-> files[x]]
               /\ store' = AfterDelete(store, key) /\ UNCHANGED ret
Corrupt(key) == /\ PathOf(key) \in DOMAIN files /\ files' = Put(files, PathOf(key), Broken)
                /\ store' = AfterCorrupt(store, key) /\ UNCHANGED ret
Next == /\ steps < DEPTH /\ steps' = steps + 1
        /\ \E key \in Keys : (\E wm \in {0, 1} : Request(key, wm)) \/ Delete(key) \/ Corrupt(key)
Spec == Init /\ [][Next]_vars

AnswersAsked == ret # <<>> =>
  LET key == ret[1] IN ret[3].of = <<key.region, key.dist, key.desc>> /\ (ret[2] = 1 => ret[3].med = 1)
FilesAreStore == {PathOf(r.key) : r \in store} = DOMAIN files
  /\ \A r \in store : LET f == files[PathOf(r.key)] IN
       IF r.ok = 1 THEN f = Computed(r.key, r.med) ELSE f = Broken
=============================================================================
