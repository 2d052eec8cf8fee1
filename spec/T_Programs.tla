----------------------------- MODULE T_Programs -----------------------------
(* Recorded runs of the solver programs: command lines, what was printed    *)
(* and what was written, over several options that share one store.         *)
EXTENDS Programs, Thousandths, TraceLib

XStart == [w |-> <<>>, set |-> <<>>, trained |-> {}, maybe |-> {}, paths |-> {}, targets |-> <<>>]
Count(e) == (e.x2 - e.x1) * (e.y2 - e.y1)
\* rows name absolute points
PX(s, e, r) == r.ax - s.w.x0 - e.x1
PY(s, e, r) == r.ay - s.w.y0 - e.y1
EachOnce(s, e, rows) == /\ Len(rows) = Count(e)
  /\ (\A i \in DOMAIN rows : PX(s, e, rows[i]) \in 0..(e.x2 - e.x1 - 1) /\ PY(s, e, rows[i]) \in 0..(e.y2 - e.y1 - 1))
  /\ Cardinality({<<rows[i].ax, rows[i].ay>> : i \in DOMAIN rows}) = Len(rows)
PointOf(s, r) == (r.ax - s.w.x0) * s.w.Y + (r.ay - s.w.y0) + 1
AnswerLen(q, tf) == IF tf = 0 THEN q.tl ELSE tf
----------------------------------------------------------------------------
(* forecasts: numbers over a common denominator                             *)
LastOf(t, n) == IF n >= Len(t) THEN t ELSE SubSeq(t, Len(t) - n + 1, Len(t))
Den(q) == CASE q.model = "hash" -> U
            [] q.model = "mean" -> U * q.past
            [] q.model = "knn" -> 1000
Source(w, q, p, tf) ==      \* the series behind the model
  LET t == Series(w, q, q.rep[ClusterOf(q, p)]) IN IF tf = 0 THEN TrainPart(t, q.tl) ELSE t
Forecasts(s, S, e, p, tf, lib) ==
  LET q == S.q  n == AnswerLen(q, tf) IN
  CASE q.model = "hash" -> AnswerSeries(s.w, q, IF tf = 0 THEN S.tm ELSE S.wm, p, n)
    [] q.model = "mean" -> LET m == SumSeq(LastOf(Source(s.w, q, p, tf), q.past))
                               v == IF q.scaled = 0 THEN m ELSE m * Rg(s.w, p) + Den(q) * Lo(s.w, p)
                           IN [j \in 1..n |-> v]
    [] q.model = "knn" -> lib
Lib(s, e, p) == LET i == CHOOSE i \in DOMAIN e.lib : PointOf(s, e.lib[i]) = p IN e.lib[i].fc
Lib0(s, e, p) == LET i == CHOOSE i \in DOMAIN e.lib : PointOf(s, e.lib[i]) = p IN e.lib[i].held
NearSeries(rs, ns, d) == Len(rs) = Len(ns) /\ \A j \in DOMAIN ns : Near3(rs[j], ns[j], d)
(* the error r (thousandths) of forecasts f (over d, exact up to tol) at p *)
ErrorNear(s, q, p, r, f, d, tol) == Within(r, ErrorRange(s.w, q, p, f, d, tol))
RowsBad(s, e, S, rows, name) ==
  LET q == S.q IN
  Need(EachOnce(s, e, rows), name \o "-points")
  \cup (IF ~EachOnce(s, e, rows) THEN {} ELSE
     LET P(i) == PointOf(s, rows[i])
         F(i, tf) == Forecasts(s, S, e, P(i), tf, IF q.model # "knn" THEN <<>> ELSE IF tf = e.tf THEN Lib(s, e, P(i)) ELSE Lib0(s, e, P(i))) IN
     Need(\A i \in DOMAIN rows : rows[i].c = (IF q.each = 1 THEN -1 ELSE q.lab[P(i)]), name \o "-cluster")
     \cup Need(\A i \in DOMAIN rows : NearSeries(rows[i].fc, F(i, e.tf), Den(q)), name \o "-forecast")
     \cup Need(\A i \in DOMAIN rows : NearSeries(rows[i].test, IF e.tf = 0 THEN Observed(s.w, q, P(i)) ELSE <<>>, U), name \o "-observation")
     \cup Need(\A i \in DOMAIN rows : ErrorNear(s, q, P(i), rows[i].err, F(i, 0), Den(q), IF q.model = "knn" THEN 1 ELSE 0), name \o "-error"))
AnswerBad(s, e, mine) ==
  LET S == s.set[e.sid]  q == S.q IN
  IF e.ok = 0 THEN {"query-failed"}
  ELSE RowsBad(s, e, S, e.rows, "printed") \cup RowsBad(s, e, S, e.csv, "report")
    \cup Need(Len(e.files) = 2, "report-files")
    \cup Need(\A t \in s.paths : t[1] \in {e.files[i] : i \in DOMAIN e.files} => t[2] = mine, "report-overwritten")
    \cup Need(e.sum.tp = q.tl, "summary-held-out")
    \cup Need(q.each = 0 => e.sum.k = S.key.k, "summary-k")
    \cup Need(q.each = 0 /\ S.key.kind = "kmedoids" => e.sum.seed = S.key.seed, "summary-seed")
    \cup Need(q.each = 0 /\ q.tl <= 40 /\ EachOnce(s, e, e.rows) => DistanceToRepsIs(s.w, q, {PointOf(s, e.rows[i]) : i \in DOMAIN e.rows}, e.sum.rm), "summary-distance")
    \cup Need(q.each = 0 /\ EachOnce(s, e, e.rows) => e.sum.clusters = Cardinality({q.lab[PointOf(s, e.rows[i])] : i \in DOMAIN e.rows}), "summary-clusters")
Near(s, i, j) == \A f \in {"region", "scaled", "kind", "k", "seed"} : s.set[i].key[f] = s.set[j].key[f]

(* the classifier program: each point by the model that the label given for
   the last samples of its own series names                                 *)
Input(s, e, p) ==
  LET tg == IF e.target = 0 THEN [data |-> s.w.data, scaled |-> e.key.scaled] ELSE s.targets[e.target]
      t == Series([data |-> tg.data], [scaled |-> tg.scaled], p)
  IN LastOf(t, e.tp)
NamedBy(s, key, l) == {i \in DOMAIN s.set : s.set[i].key = [key EXCEPT !.k = l[1], !.seed = l[2]] /\ l[3] < s.set[i].key.k}
Known(s, e, l, S) == \E i \in NamedBy(s, e.key, l) : i \in S
LabelledRowBad(s, e, r, name) ==
  LET p == PointOf(s, r)
      l == (CHOOSE c \in {e.calls[i] : i \in DOMAIN e.calls} : c.s = Input(s, e, p)).l
      i == CHOOSE i \in NamedBy(s, e.key, l) : TRUE
      S == [s.set[i] EXCEPT !.q.lab = [x \in DOMAIN s.w.data |-> l[3]]]
      F == Forecasts(s, S, e, p, 0, <<>>)
  IN Need(r.l = l, name \o "-label")
     \cup Need(NearSeries(r.fc, F, Den(S.q)), name \o "-forecast")
     \cup Need(NearSeries(r.test, Observed(s.w, S.q, p), U), name \o "-observation")
     \cup Need(ErrorNear(s, S.q, p, r.err, F, Den(S.q), 0), name \o "-error")
LabelledRowsBad(s, e, rows, name) ==
  IF ~EachOnce(s, e, rows) THEN {name \o "-points"} ELSE UNION {LabelledRowBad(s, e, rows[i], name) : i \in DOMAIN rows}
LabelledBad(s, e, mine) ==
  LET P == {x * s.w.Y + y + 1 : x \in e.x1..(e.x2 - 1), y \in e.y1..(e.y2 - 1)}
      inputs == {Input(s, e, p) : p \in P}
      ls == {e.calls[i].l : i \in DOMAIN e.calls}
      may == \A l \in ls : Known(s, e, l, s.trained \cup s.maybe)
      must == \A l \in ls : Known(s, e, l, s.trained)
  IN IF {e.calls[i].s : i \in DOMAIN e.calls} # inputs THEN {"classifier-input"}
     ELSE IF e.ok = 0 THEN Need(~must, "query-failed") \cup Need(e.files = <<>>, "report-from-nowhere")
     ELSE IF ~may THEN {"answer-from-nowhere"}
     ELSE LabelledRowsBad(s, e, e.rows, "printed") \cup LabelledRowsBad(s, e, e.csv, "report")
          \cup Need(Len(e.files) = 2, "report-files")
          \cup Need(\A t \in s.paths : t[1] \in {e.files[i] : i \in DOMAIN e.files} => t[2] = mine, "report-overwritten")
          \cup Need(e.sum.tp = e.key.tl, "summary-held-out")

XStep(s, e) ==
  CASE e.op = "world" -> [st |-> [s EXCEPT !.w = [data |-> e.data, x0 |-> e.x0, y0 |-> e.y0, X |-> e.X, Y |-> e.Y]], bad |-> {}]
    [] e.op = "settings" ->
         LET q == [scaled |-> e.scaled, tl |-> e.tl, par |-> e.par, fm |-> e.fm, rf |-> e.rf, err |-> e.err, lab |-> e.lab, rep |-> e.rep,
                   model |-> e.model, each |-> e.each, past |-> e.past, knn |-> e.knn]
             tm == IF e.model = "hash" THEN TrainingModels(s.w, q) ELSE <<>> IN
         [st |-> [s EXCEPT !.set = Append(@, [q |-> q, key |-> e.key, tm |-> tm, wm |-> IF e.model = "hash" /\ e.each = 0 THEN WholeModels(s.w, q, tm) ELSE <<>>])],
          bad |-> Need(\A i \in DOMAIN s.set : s.set[i].key # e.key, "driver-settings")]
    [] e.op = "train" -> [st |-> [s EXCEPT !.trained = @ \cup {e.sid}, !.maybe = @ \ {e.sid}], bad |-> Need(e.ok = 1, "training-failed")]
    (* a program that died: what it was storing may be there or not, also for
       options that share some of its files; it died or it is trained       *)
    [] e.op = "crash" ->
         [st |-> IF e.ok = 1 THEN [s EXCEPT !.trained = @ \cup {e.sid}, !.maybe = @ \ {e.sid}]
                 ELSE LET near == {i \in DOMAIN s.set : Near(s, i, e.sid)} IN
                      [s EXCEPT !.maybe = @ \cup {e.sid} \cup (near \cap s.trained), !.trained = @ \ near],
          bad |-> {}]
    [] e.op = "predict" ->
         LET mine == <<e.sid, e.x1, e.x2, e.y1, e.y2, e.tf>> IN
         IF e.sid \in s.trained \/ (e.sid \in s.maybe /\ e.ok = 1)
         THEN [st |-> [s EXCEPT !.paths = @ \cup {<<f, mine>> : f \in {e.files[i] : i \in DOMAIN e.files}}], bad |-> AnswerBad(s, e, mine)]
         ELSE [st |-> s, bad |-> Need(e.ok = 0, "answer-from-nowhere") \cup Need(e.files = <<>>, "report-from-nowhere")]
    [] e.op = "each" ->
         LET mine == <<e.sid, e.x1, e.x2, e.y1, e.y2, 0>> IN
         [st |-> [s EXCEPT !.paths = @ \cup {<<f, mine>> : f \in {e.files[i] : i \in DOMAIN e.files}}], bad |-> AnswerBad(s, e, mine)]
    [] e.op = "target" -> [st |-> [s EXCEPT !.targets = Append(@, [data |-> e.data, scaled |-> e.scaled])], bad |-> {}]
    [] e.op = "labelled" ->
         LET mine == <<[e.key EXCEPT !.k = 0, !.seed = 0], e.suite, e.x1, e.x2, e.y1, e.y2>> IN
         [st |-> [s EXCEPT !.paths = @ \cup {<<f, mine>> : f \in {e.files[i] : i \in DOMAIN e.files}}], bad |-> LabelledBad(s, e, mine)]
    [] e.op = "reread" -> [st |-> s, bad |-> Need(e.same = 1, "report-changed")]
    [] OTHER -> Unknown(s, e)
THInit == store = <<>> /\ procs = <<>> /\ runs = 0 /\ done = {} /\ reports = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
