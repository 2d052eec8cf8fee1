------------------------------- MODULE T_Suite -------------------------------
EXTENDS Suite, TraceLib
SetOf(q) == {q[i] : i \in DOMAIN q}
XStart == [ks |-> {}, seeds |-> {}, d |-> <<>>, parts |-> {}, cost |-> <<>>]
Ascending(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
NoRepeat(q) == Cardinality(SetOf(q)) = Len(q)
Part(s, k, sd) == CHOOSE p \in s.parts : p.k = k /\ p.seed = sd
Has(s, k, sd) == \E p \in s.parts : p.k = k /\ p.seed = sd
ElbowsGood(kset, seeds, costs, elbows) ==
  /\ NoRepeat(elbows) /\ {e[1] : e \in SetOf(elbows)} = seeds
  /\ \A e \in SetOf(elbows) : e[3] = e[1] /\ e[2] \in ElbowsOfSeed(kset, costs, e[1])

XStep(s, e) ==
  CASE e.op = "suite" ->
         LET want == Combos(SetOf(e.ks), SetOf(e.seeds))
             good(items) == NoRepeat(items) /\ SetOf(items) = {<<c[1], c[2], e.mode>> : c \in want} IN
         IF e.ok = 0 THEN [st |-> s, bad |-> {"suite-failed"}]
         ELSE [st |-> [s EXCEPT !.ks = SetOf(e.ks), !.seeds = SetOf(e.seeds), !.parts = {}],
               bad |-> Need(good(e.items), "suite-combinations") \cup Need(good(e.again), "suite-iterated-again")]
    [] e.op = "regular-suite" ->
         [st |-> s, bad |-> Need(e.ok = 1 /\ NoRepeat(e.items) /\ SetOf(e.items) = SetOf(e.ks), "regular-suite")]
    [] e.op = "organize" ->
         [st |-> s, bad |-> Need(e.ok = 1, "organize-failed")
           \cup Need({g[1] : g \in SetOf(e.groups)} = s.seeds /\ Len(e.groups) = Cardinality(s.seeds), "organize-seeds")
           \cup Need(\A g \in SetOf(e.groups) : SetOf(g[2]) = s.ks /\ Ascending(g[2]) /\ \A x \in SetOf(g[3]) : x = g[1], "organize-counts")]
    (* elbows of given costs: cost[i] belongs to combination keys[i] *)
    [] e.op = "elbow-of-costs" ->
         LET given == [c \in Combos(s.ks, s.seeds) |-> e.costs[CHOOSE i \in DOMAIN e.keys : e.keys[i] = c]] IN
         [st |-> s, bad |-> IF Cardinality(s.ks) < 3 THEN Need(e.ok = 0, "elbow-of-two-points")
                            ELSE Need(e.ok = 1 /\ ElbowsGood(s.ks, s.seeds, given, e.elbows), "elbow-of-costs")]
    [] e.op = "distances" -> [st |-> [s EXCEPT !.d = e.d], bad |-> {}]
    [] e.op = "partition" ->
         [st |-> [s EXCEPT !.parts = @ \cup {[k |-> e.k, seed |-> e.seed, mem |-> e.mem, med |-> e.med]}],
          bad |-> Need(e.ok = 1, "partition-failed")]
    [] e.op = "elbow" ->
         LET given == [c \in Combos(s.ks, s.seeds) |-> LET p == Part(s, c[1], c[2]) IN SquaredCost(s.d, p.mem, p.med)] IN
         [st |-> s, bad |-> Need(e.ok = 1 /\ ElbowsGood(s.ks, s.seeds, given, e.elbows), "elbow-of-suite")]
    (* the report of a suite: [k, seed, total in thousandths, medoids] rows, read back by the library *)
    [] e.op = "report" ->
         [st |-> s, bad |-> Need(e.ok = 1, "report-failed") \cup
           (IF e.ok = 0 THEN {} ELSE
             Need(NoRepeat(e.rows) /\ {<<r.k, r.seed>> : r \in SetOf(e.rows)} = Combos(s.ks, s.seeds)
                  /\ Len(e.rows) = Cardinality(Combos(s.ks, s.seeds)), "report-combinations")
             \cup Need(\A r \in SetOf(e.rows) : Has(s, r.k, r.seed) => r.med = [i \in DOMAIN Part(s, r.k, r.seed).med |->
                         <<e.x1 + (Part(s, r.k, r.seed).med[i] - 1) \div e.y, e.y1 + ((Part(s, r.k, r.seed).med[i] - 1) % e.y)>>],
                       "report-medoids")
             \cup Need(\A t \in SetOf(e.totals) : Has(s, t[1], t[2]) =>
                         t[3] = 1000 * TotalCost(s.d, Part(s, t[1], t[2]).mem, Part(s, t[1], t[2]).med), "report-cost"))]
    (* a report written for arbitrary medoids is read back the same *)
    [] e.op = "read-report" -> [st |-> s, bad |-> Need(e.ok = 1 /\ e.read = e.written, "report-read-back")]
    [] e.op = "no-report" -> [st |-> s, bad |-> Need(e.ok = 0, "report-from-nowhere")]
    [] OTHER -> Unknown(s, e)
THInit == ks = {} /\ cost = <<>> /\ seed = 0 /\ pos = 0 /\ best = 0 /\ found = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
