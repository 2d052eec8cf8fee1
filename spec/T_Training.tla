----------------------------- MODULE T_Training -----------------------------
(* Recorded trainings of the real code (C13) against Training/Models.       *)
EXTENDS Training, TraceLib

XStart == [none |-> 0]
Ok(s, bad) == [st |-> s, bad |-> bad]
Undefs(n) == [j \in 1..n |-> Undefined]
\* parameters of a point: -1 when there are none
ModelsOf(e) == [p \in DOMAIN e.data |-> IF p \in {e.at[i] : i \in DOMAIN e.at} THEN Fit(e.data[p], e.par[p], e.fm) ELSE NoModel]
Missing(m) == Cardinality({p \in DOMAIN m : m[p].ok = 0})
NearMean(f, series, past) ==     \* f in units of 1/64, samples integers
  LET last == IF past >= Len(series) \/ past = 0 THEN series ELSE LastN(series, past)
  IN Abs(f * Len(last) - U * SumSeq(last)) <= Len(last)

SetOf(q) == {q[i] : i \in DOMAIN q}
World(e) == [data |-> e.data]
Settings(e) == [scaled |-> e.scaled, tl |-> e.tl, par |-> e.par, fm |-> e.fm, rf |-> e.rf, err |-> e.err, lab |-> e.lab, rep |-> e.rep]

XStep(s, e) ==
  CASE e.op = "split" ->
         IF e.ok = 0 THEN Ok(s, {"split-failed"})
         ELSE Ok(s, Need(\A p \in DOMAIN e.data : e.train[p] = TrainPart(e.data[p], e.tl), "training-samples")
             \cup Need(\A p \in DOMAIN e.data : e.test[p] = TestPart(e.data[p], e.tl), "test-samples")
             \cup Need(DOMAIN e.train = DOMAIN e.data /\ DOMAIN e.test = DOMAIN e.data, "split-points")
             \cup Need(e.after = e.data, "split-changed-the-region")
             \* both parts of a scaled region return to original units
             \cup Need(\A p \in DOMAIN e.orig : e.otrain[p] = TrainPart(e.orig[p], e.tl) /\ e.otest[p] = TestPart(e.orig[p], e.tl), "split-scaling"))
    [] e.op = "train" ->
         IF e.ok = 0 THEN Ok(s, {"training-failed"})
         ELSE LET m == ModelsOf(e) IN
           Ok(s, Need(e.counted = 0 \/ e.missing = Missing(m), "missing-count")
             \cup Need(\A p \in DOMAIN e.data : e.fc[p] = Forecast(m[p], e.len), "forecast-of-trained-model"))
    [] e.op = "refit" ->
         IF e.ok = 0 THEN Ok(s, {"refit-failed"})
         ELSE LET m == [p \in DOMAIN e.data |-> Refit(Fit(e.data[p], e.par[p], e.fm), e.whole[p], e.fm)] IN
           Ok(s, Need(\A p \in DOMAIN e.data : e.fc[p] = Forecast(m[p], e.len), "forecast-of-refitted-model"))
    [] e.op = "mean" ->
         IF e.ok = 0 THEN Ok(s, {"mean-failed"})
         ELSE Ok(s, Need(\A p \in DOMAIN e.data : Len(e.fc[p]) = e.len /\ \A j \in 1..e.len : NearMean(e.fc[p][j], e.data[p], e.past), "mean-of-past"))
    [] e.op = "solver" ->
         IF e.ok = 0 THEN Ok(s, {"solver-training-failed"})
         ELSE LET w0 == World(e)  q == Settings(e)
                  tm == TrainingModels(w0, q)  wm == WholeModels(w0, q, tm)
                  n == Len(e.data[1]) IN
           Ok(s, Need(\A p \in DOMAIN e.data : e.infc[p] = AnswerSeries(w0, q, tm, p, e.tl), "held-out-forecast")
             \cup Need(\A p \in DOMAIN e.data : e.fut[p] = AnswerSeries(w0, q, wm, p, e.len), "future-forecast")
             \cup Need(\A p \in DOMAIN e.data : e.test[p] = Observed(w0, q, p), "held-out-observation")
             \cup Need(\A p \in DOMAIN e.data : ErrorAt(w0, q, tm, p, e.errs[p]), "generalization-error")
             \* what training functions were given: the training samples of the representatives,
             \* or whole series (for future forecasts only)
             \cup Need({t[1] : t \in SetOf(e.seen)} \subseteq {n - e.tl, n}, "trained-with-other-samples")
             \cup Need({t[2] : t \in {x \in SetOf(e.seen) : x[1] = n - e.tl}}
                        = (IF e.par < 0 THEN {} ELSE {Sig(TrainPart(Series(w0, q, e.rep[c]), e.tl)) : c \in DOMAIN e.rep}), "trained-elsewhere")
             \cup Need(\A c \in DOMAIN e.rep : e.lab[e.rep[c]] = c - 1, "representative-of-another-cluster"))
    (* two runs of a real trainer with data that differs in one sample *)
    [] e.op = "pair" ->
         IF e.ok = 0 THEN Ok(s, {"training-failed"})
         ELSE LET test(p) == e.at[2] > e.n - e.tl  rp(p) == e.rep[e.lab[p] + 1] IN
           Ok(s, Need(\A p \in DOMAIN e.lab : e.din[p] = 1 => (e.at[1] = rp(p) /\ ~test(p)), "held-out-forecast-depends")
             \cup Need(\A p \in DOMAIN e.lab : e.dfut[p] = 1 => e.at[1] = rp(p), "future-forecast-depends")
             \cup Need(\A p \in DOMAIN e.lab : e.derr[p] = 1 => (e.at[1] = rp(p) /\ ~test(p)) \/ (e.at[1] = p /\ test(p)) \/ (e.mase = 1 /\ e.at[1] = p), "error-depends")
             \cup Need(\A p, q \in DOMAIN e.lab : e.lab[p] = e.lab[q] => e.inid[p] = e.inid[q] /\ e.futid[p] = e.futid[q], "one-model-per-cluster")
             \cup Need(\A c \in DOMAIN e.rep : e.ordt[c] # <<>> /\ e.ordw[c] # <<>> => e.ordt[c] = e.ordw[c], "settings-found-in-training")
             \* the mean of a series can always be fitted again
             \cup Need(\A c \in DOMAIN e.rep : e.ordt[c] = <<0, 0, 0>> => e.ordw[c] = <<0, 0, 0>>, "model-lost")
             \* the same question asked again
             \cup Need(e.again = 1, "training-not-repeatable"))
    (* real trainers on series too short to train: no model there, and only there *)
    [] e.op = "short" ->
         IF e.ok = 0 THEN Ok(s, {"training-failed"})
         ELSE Ok(s, Need(e.missing = Cardinality({p \in DOMAIN e.fin : e.fin[p] = 0}), "missing-count")
             \cup Need(\A p \in DOMAIN e.fin : e.flen[p] = e.len, "forecast-length")
             \cup Need(\A p \in DOMAIN e.fin : e.same[p] = 1, "neighbour-disturbed"))
    [] OTHER -> Unknown(s, e)
THInit == d = <<>> /\ w = <<>> /\ cfg = 0 /\ ph = "" /\ tr = 0 /\ te = 0 /\ mr = 0 /\ mt = 0 /\ er = 0 /\ wh = 0 /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
