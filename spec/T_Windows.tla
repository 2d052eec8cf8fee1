----------------------------- MODULE T_Windows -----------------------------
EXTENDS Windows, TraceLib

(* the state of a session of models: [X, Y, member, data, params]           *)
(* data[i] is the training series at point i of the region (row-major)      *)
NoModel == [data |-> <<>>, member |-> <<>>, par |-> 0, kind |-> ""]
Members(s) == {i \in DOMAIN s.data : s.member[i] = 1}

NaN == 2000000001
WStep(s, e) ==
  CASE e.op = "windows" ->
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.out = Windows(e.s, e.w, e.stride), "windows")
                     \cup Need(e.same = 1, "windows-input-modified")]
    [] e.op = "table" ->
         LET want == TableWindows(e.rows, e.w) undefined == \E i \in DOMAIN e.rows : \E j \in DOMAIN e.rows[i].s : e.rows[i].s[j] = NaN
         IN \* a table with undefined values may be refused; it is never completed with invented ones
         [st |-> s, bad |-> Need(e.ok = 1 \/ undefined, "table-failed") \cup
            (IF e.ok = 0 THEN {} ELSE
               Need(Len(e.out) = Len(want), "table-count")
               \cup Need([i \in DOMAIN e.out |-> e.out[i].label] = [i \in DOMAIN want |-> want[i].label], "table-labels")
               \cup Need([i \in DOMAIN e.out |-> e.out[i].window] = [i \in DOMAIN want |-> want[i].window], "table-values")
               \cup Need([i \in DOMAIN e.out |-> e.out[i].offset] = [i \in DOMAIN want |-> want[i].offset], "table-offsets"))
            \cup Need(e.same = 1, "table-input-modified")]
    [] e.op = "trainmean" ->
         [st |-> [data |-> e.data, member |-> e.member, par |-> e.past, kind |-> "mean"],
          bad |-> Need(e.ok = 1 /\ e.missing = 0, "train-mean")]
    [] e.op = "trainknn" ->
         [st |-> [data |-> e.data, member |-> e.member, par |-> e.k, kind |-> e.kind],
          bad |-> Need(e.ok = 1 /\ e.missing = 0, "train-knn")]
    [] e.op = "fmean" ->     \* out[i]: the forecast at member i times the number of averaged samples
         [st |-> s, bad |-> Need(e.ok = 1 /\ \A i \in Members(s) :
             e.out[i] = [j \in 1..e.len |-> MeanNum(s.data[i], s.par)], "mean-forecast")]
    [] e.op = "fknn" ->      \* out[i]: k times the forecast at member i
         LET can == \A i \in Members(s) : KNNPossible(s.data[i], s.par, e.len) IN
         [st |-> s, bad |-> IF can
             THEN Need(e.ok = 1 /\ \A i \in Members(s) :
                         e.out[i] \in KNNForecasts(s.data[i], s.par, e.len, s.kind), "knn-forecast")
             ELSE Need(e.ok = 0, "knn-not-refused")]
    [] e.op = "knn" ->       \* the algorithm for one series
         LET can == KNNPossible(e.s, e.k, e.len) IN
         [st |-> s, bad |-> (IF can THEN Need(e.ok = 1 /\ e.out \in KNNForecasts(e.s, e.k, e.len, e.kind), "knn-series")
                                    ELSE Need(e.ok = 0, "knn-not-refused"))
                     \cup Need(e.same = 1, "knn-input-modified")]
    [] OTHER -> Unknown(s, e)
WStart == NoModel
THInit == table = <<>> /\ win = 0 /\ row = 0 /\ off = 0 /\ emitted = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
