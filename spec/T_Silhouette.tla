---------------------------- MODULE T_Silhouette ----------------------------
EXTENDS Silhouette, TraceLib
(* the distances and the partition of each clustering of the suite *)
XStart == [d |-> <<>>, parts |-> <<>>, score |-> <<>>]
Near(a, b, tol) == Abs(a - b) <= tol
(* reports: <<clustering, score in thousandths>>, in any order *)
ReportsOk(s, r) ==
  /\ Len(r) = Len(s.parts) /\ {r[j][1] : j \in DOMAIN r} = DOMAIN s.parts
ScoresOk(s, r) == \A j \in DOMAIN r : r[j][1] \in DOMAIN s.parts => Near(r[j][2] * 100, s.score[r[j][1]], 53)
XStep(s, e) ==
  CASE e.op = "suite" ->
         [st |-> [d |-> e.d, parts |-> e.parts, score |-> [j \in DOMAIN e.parts |-> IF Scorable(e.parts[j]) THEN Score(e.d, e.parts[j]) ELSE 0]],
          bad |-> {}]
    [] e.op = "analysis" ->
         [st |-> s, bad |->
            IF e.ok = 0 THEN {"analysis-refused"}
            ELSE Need(ReportsOk(s, e.reports), "each-once") \cup Need(ScoresOk(s, e.reports), "score")
                 \cup Need(e.same = 1, "input-modified")
                 \cup (IF e.named \notin DOMAIN s.parts THEN {"no-best"}
                       ELSE Need(\A j \in DOMAIN s.score : s.score[j] <= s.score[e.named] + 4, "best-named")
                            \cup Need(e.best = 2000000003 \/ Near(e.best, s.score[e.named], 3), "best-score")
                            \cup Need(e.labels = <<>> \/ SamePartition(e.labels, s.parts[e.named]), "best-labels"))]
    \* the program saved the region and the distances that its analysis reads
    [] e.op = "prepared" -> [st |-> s, bad |-> Need(e.ok = 1, "saved-distances")]
    [] OTHER -> Unknown(s, e)
THInit == d = <<>> /\ parts = <<>> /\ i = 0 /\ point = 0 /\ acc = 0 /\ reports = <<>> /\ best = 0 /\ named = 0 /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
