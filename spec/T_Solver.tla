------------------------------ MODULE T_Solver ------------------------------
(* Recorded sessions of real solvers: trained, saved, loaded, asked, and    *)
(* reporting, over several settings that share one store.                   *)
EXTENDS Solver, TraceLib

INFINITE == 2000000002
XStart == [w |-> <<>>, set |-> <<>>, h |-> <<>>, st |-> <<>>, paths |-> {}, dig |-> {}]
Q(e) == [scaled |-> e.scaled, tl |-> e.tl, par |-> e.par, fm |-> e.fm, rf |-> e.rf, err |-> e.err, lab |-> e.lab, rep |-> e.rep]
AddH(s, e) == [s EXCEPT !.h = Append(@, e.sid)]
Idx(s, x, y) == x * s.w.Y + y + 1
InArea(e, r) == r.x >= 0 /\ r.y >= 0 /\ r.x < e.x2 - e.x1 /\ r.y < e.y2 - e.y1
PointOf(s, e, r) == Idx(s, e.x1 + r.x, e.y1 + r.y)
Count(e) == (e.x2 - e.x1) * (e.y2 - e.y1)
EachOnce(e, rows) == /\ Len(rows) = Count(e)
  /\ (\A i \in DOMAIN rows : InArea(e, rows[i]))
  /\ Cardinality({<<rows[i].x, rows[i].y>> : i \in DOMAIN rows}) = Len(rows)
AnswerLen(q, tf) == IF tf = 0 THEN q.tl ELSE tf
ModelsFor(S, tf) == IF tf = 0 THEN S.tm ELSE S.wm
Near3(r, a) ==     \* r in thousandths, a in 1/64
  IF a >= 2000000000 THEN r = a ELSE r < 2000000000 /\ Abs(r * 64 - a * 1000) <= 64
NearAll(rs, as) == Len(rs) = Len(as) /\ \A j \in DOMAIN as : Near3(rs[j], as[j])
AnswerBad(s, e, S) ==
  LET q == S.q  n == AnswerLen(q, e.tf) IN
  Need(EachOnce(e, e.rows), "points-of-the-area")
  \cup (IF ~EachOnce(e, e.rows) THEN {} ELSE
     Need(\A i \in DOMAIN e.rows : LET r == e.rows[i] IN r.fc = AnswerSeries(s.w, q, ModelsFor(S, e.tf), PointOf(s, e, r), n), "forecast")
     \cup Need(\A i \in DOMAIN e.rows : LET r == e.rows[i] IN r.test = (IF e.tf = 0 THEN Observed(s.w, q, PointOf(s, e, r)) ELSE <<>>), "observation")
     \cup Need(\A i \in DOMAIN e.rows : LET r == e.rows[i] IN ErrorAt(s.w, q, S.tm, PointOf(s, e, r), r.err), "error"))
(* the report of an answer: rows [ax, ay, c, err, fc, test] as written, in
   thousandths, and the summary *)
ReportBad(s, e, S) ==
  LET q == S.q  n == AnswerLen(q, e.tf)
      abs == [i \in DOMAIN e.csv |-> [x |-> e.csv[i].ax - s.w.x0 - e.x1, y |-> e.csv[i].ay - s.w.y0 - e.y1]]
      fits == EachOnce(e, abs) IN
  Need(fits, "report-points")
  \cup (IF ~fits THEN {} ELSE LET P(i) == PointOf(s, e, abs[i]) IN
      Need(\A i \in DOMAIN e.csv : e.csv[i].c = q.lab[P(i)], "report-cluster")
      \cup Need(\A i \in DOMAIN e.csv : NearAll(e.csv[i].fc, AnswerSeries(s.w, q, ModelsFor(S, e.tf), P(i), n)), "report-forecast")
      \cup Need(\A i \in DOMAIN e.csv : NearAll(e.csv[i].test, IF e.tf = 0 THEN Observed(s.w, q, P(i)) ELSE <<>>), "report-observation")
      \* the error as written against the error answered for the same point, both in thousandths
      \cup Need(\A i \in DOMAIN e.csv : \E j \in DOMAIN e.rows : e.rows[j].x = abs[i].x /\ e.rows[j].y = abs[i].y
             /\ (IF e.rows[j].e3 >= 2000000000 THEN e.csv[i].err = e.rows[j].e3
                 ELSE e.csv[i].err < 2000000000 /\ Abs(e.csv[i].err - e.rows[j].e3) <= 1), "report-error"))
  \cup Need(e.sum.tp = q.tl, "summary-held-out")
  \cup Need(~EachOnce(e, e.rows) \/ DistanceToRepsIs(s.w, q, {PointOf(s, e, e.rows[i]) : i \in DOMAIN e.rows}, e.sum.rm), "summary-distance")
  \cup Need(e.sum.settings = 1, "summary-settings")
  \cup Need(e.sum.clusters = Cardinality({q.lab[PointOf(s, e, e.rows[i])] : i \in DOMAIN e.rows}), "summary-clusters")
  \* mean square of the defined errors: qe[i] errors in units 1/qs, sum.mse in 1/(qs*qs)
  \cup (LET D == {i \in DOMAIN e.qe : e.qe[i] < 2000000000}
            tot == SumF(D, [i \in DOMAIN e.qe |-> Sq(e.qe[i])])
            tol == SumF(D, [i \in DOMAIN e.qe |-> e.qe[i] + 1]) + e.slack * Cardinality(D) IN
        Need(\/ \E i \in DOMAIN e.qe : e.qe[i] = INFINITE
             \/ IF D = {} THEN e.sum.mse >= 2000000000 ELSE e.sum.mse < 2000000000 /\ Abs(e.sum.mse * Cardinality(D) - tot) <= tol, "summary-error"))
  \cup Need(e.text = 1, "report-text")
Near(s, sid) ==      \* settings that may share stored files: all but the error type
  LET k(j) == [s.set[j].key EXCEPT !.err = ""] IN {i \in DOMAIN s.set : k(i) = k(sid)}

XStep(s, e) ==
  CASE e.op = "world" -> [st |-> [s EXCEPT !.w = [data |-> e.data, x0 |-> e.x0, y0 |-> e.y0, X |-> e.X, Y |-> e.Y]], bad |-> {}]
    [] e.op = "settings" ->
         LET q == Q(e)  tm == IF e.known = 1 THEN TrainingModels(s.w, q) ELSE <<>> IN
         [st |-> [s EXCEPT !.set = Append(@, [q |-> q, key |-> e.key, tm |-> tm, wm |-> IF e.known = 1 THEN WholeModels(s.w, q, tm) ELSE <<>>]),
                           !.st = Append(@, "no")],
          bad |-> Need(\A i \in DOMAIN s.set : s.set[i].key # e.key, "driver-settings")]
    [] e.op = "train" -> [st |-> AddH(s, e), bad |-> Need(e.ok = 1, "training-failed")]
    [] e.op = "save" -> [st |-> [s EXCEPT !.st[s.h[e.hid]] = "yes"], bad |-> Need(e.ok = 1, "saving-failed")]
    [] e.op = "load" ->
         [st |-> IF e.ok = 1 THEN AddH(s, e) ELSE s,
          bad |-> CASE s.st[e.sid] = "yes" -> Need(e.ok = 1, "saved-solver-not-loaded")
                    [] s.st[e.sid] = "no" -> Need(e.ok = 0, "solver-from-nowhere")
                    [] OTHER -> {}]
    [] e.op = "droppartition" -> [st |-> s, bad |-> {}]
    [] e.op = "dropfile" -> [st |-> [s EXCEPT !.st = [i \in DOMAIN s.st |-> IF i \in Near(s, e.sid) /\ s.st[i] = "yes" THEN "maybe" ELSE s.st[i]]], bad |-> {}]
    [] e.op = "cutsave" -> [st |-> [s EXCEPT !.st = [i \in DOMAIN s.st |-> IF i = e.sid \/ (i \in Near(s, e.sid) /\ s.st[i] = "yes") THEN "maybe" ELSE s.st[i]]], bad |-> {}]
    [] e.op = "ask" -> [st |-> s, bad |-> IF e.ok = 0 THEN {"query-failed"} ELSE AnswerBad(s, e, s.set[s.h[e.hid]])]
    [] e.op = "report" ->
         LET mine == <<s.h[e.hid], e.x1, e.x2, e.y1, e.y2, e.tf, e.home>> IN
         [st |-> [s EXCEPT !.paths = @ \cup {<<f, mine>> : f \in {e.files[i] : i \in DOMAIN e.files}}],
          bad |-> IF e.ok = 0 THEN {"report-failed"}
                  ELSE AnswerBad(s, e, s.set[s.h[e.hid]]) \cup ReportBad(s, e, s.set[s.h[e.hid]])
                    \cup Need(\A t \in s.paths : t[1] \in {e.files[i] : i \in DOMAIN e.files} => t[2] = mine, "report-overwritten")
                    \cup Need(Len(e.files) = 2, "report-files")]
    (* reports written before are still what was written *)
    [] e.op = "reread" -> [st |-> s, bad |-> Need(e.same = 1, "report-changed")]
    (* real models: the answer to a question is the same for every solver of those settings *)
    [] e.op = "digest" ->
         LET k == <<s.h[e.hid], e.x1, e.x2, e.y1, e.y2, e.tf>> IN
         [st |-> [s EXCEPT !.dig = @ \cup {<<k, e.dig>>}],
          bad |-> Need(e.ok = 1, "query-failed") \cup Need(\A t \in s.dig : t[1] = k => t[2] = e.dig, "answer-differs")]
    [] OTHER -> Unknown(s, e)
THInit == files = <<>> /\ mem = {} /\ saved = {} /\ ret = <<>> /\ rep = {} /\ steps = 0 /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
