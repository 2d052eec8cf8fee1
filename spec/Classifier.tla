----------------------------- MODULE Classifier -----------------------------
(* C21: a solver that asks a classifier, point by point, which stored model *)
(* to answer with. A label names the settings of a stored solver and one of *)
(* its clusters. Solvers are loaded when a label needs them and kept. Other *)
(* programs may store and remove solvers at any time.                       *)
(* BIND says when the region whose series the classifier reads is chosen:   *)
(* "each" query, or only by the "first". KEEP says what is kept of a solver *)
(* that could not be loaded: "nothing", or that it is "missing".            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS POINTS, SETTINGS, CLUSTERS, TARGETS, ASKS, MOVES, BIND, KEEP
VARIABLES stored, ever, cache, missing, loads, bound, query, given, got, ph, asks, moves
vars == <<stored, ever, cache, missing, loads, bound, query, given, got, ph, asks, moves>>
None == "none"
Labels == SETTINGS \X CLUSTERS
(* the classifier is any function of the series it is given: here, of the place they come from *)
Areas == SUBSET POINTS \ {{}}
Init ==
  /\ stored \in SUBSET SETTINGS /\ ever = stored /\ cache = {} /\ missing = {} /\ loads = [s \in SETTINGS |-> 0]
  /\ bound = None /\ query = [target |-> None, area |-> {}, lab |-> <<>>] /\ given = {} /\ got = <<>> /\ ph = "idle" /\ asks = 0 /\ moves = 0
Store(s) == /\ moves < MOVES /\ moves' = moves + 1 /\ s \notin stored /\ stored' = stored \cup {s} /\ ever' = ever \cup {s}
            /\ UNCHANGED <<cache, missing, loads, bound, query, given, got, ph, asks>>
Remove(s) == /\ moves < MOVES /\ moves' = moves + 1 /\ s \in stored /\ stored' = stored \ {s}
             /\ UNCHANGED <<ever, cache, missing, loads, bound, query, given, got, ph, asks>>
Ask(t, a, lab) ==
  /\ ph \in {"idle", "answered", "refused"} /\ asks < ASKS /\ asks' = asks + 1
  /\ bound' = IF BIND = "each" \/ bound = None THEN t ELSE bound
  /\ query' = [target |-> t, area |-> a, lab |-> lab] /\ given' = {} /\ got' = <<>> /\ ph' = "classify"
  /\ UNCHANGED <<stored, ever, cache, missing, loads, moves>>
(* the labels of all points, then the models *)
Classify(p) == /\ ph = "classify" /\ p \in query.area \ {g[2] : g \in given}
               /\ given' = given \cup {<<bound, p>>}
               /\ UNCHANGED <<stored, ever, cache, missing, loads, bound, query, got, ph, asks, moves>>
Classified == /\ ph = "classify" /\ {g[2] : g \in given} = query.area /\ ph' = "fetch"
              /\ UNCHANGED <<stored, ever, cache, missing, loads, bound, query, given, got, asks, moves>>
Fetch(p) ==
  /\ ph = "fetch" /\ p \in query.area \ DOMAIN got
  /\ LET s == query.lab[p][1] IN
     IF s \in cache THEN got' = (p :> query.lab[p]) @@ got /\ UNCHANGED <<cache, missing, loads, ph>>
     ELSE IF s \in stored /\ s \notin missing
          THEN got' = (p :> query.lab[p]) @@ got /\ cache' = cache \cup {s} /\ loads' = [loads EXCEPT ![s] = @ + 1] /\ UNCHANGED <<missing, ph>>
          ELSE ph' = "refused" /\ missing' = (IF KEEP = "missing" THEN missing \cup {s} ELSE missing) /\ UNCHANGED <<got, cache, loads>>
  /\ UNCHANGED <<stored, ever, bound, query, given, asks, moves>>
Answer == /\ ph = "fetch" /\ DOMAIN got = query.area /\ ph' = "answered"
          /\ UNCHANGED <<stored, ever, cache, missing, loads, bound, query, given, got, asks, moves>>
Next ==
  \/ \E s \in SETTINGS : Store(s) \/ Remove(s)
  \/ \E t \in TARGETS, a \in Areas : \E lab \in [a -> Labels] : Ask(t, a, lab)
  \/ \E p \in POINTS : Classify(p) \/ Fetch(p)
  \/ Classified \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Classified \/ Answer \/ \E p \in POINTS : Classify(p) \/ Fetch(p))

OwnSeries == ph \in {"answered", "refused", "fetch"} => given = {<<query.target, p>> : p \in query.area}
LabelModel == ph = "answered" => got = query.lab
LoadedOnce == \A s \in SETTINGS : loads[s] <= 1 /\ (loads[s] = 1) = (s \in cache)
OnlyStored == cache \subseteq ever
StoredServes == [][(ph = "fetch" /\ ph' = "refused") => \E p \in query.area : query.lab[p][1] \notin cache \cup stored]_vars
Terminates == (ph = "classify") ~> (ph \in {"answered", "refused"})
=============================================================================
