---------------------------- MODULE T_Classifier ----------------------------
(* Recorded sessions of classifier-driven solvers over stored solvers.      *)
EXTENDS Classifier, Models, TraceLib
(* targets: [data, scaled]; set: the settings of the stored solvers, h: the *)
(* settings of solver objects; c: classifier-driven solvers [key, loaded]   *)
XStart == [w |-> <<>>, targets |-> <<>>, set |-> <<>>, h |-> <<>>, st |-> {}, c |-> <<>>, paths |-> {}]
Settings(e) == [scaled |-> e.scaled, tl |-> e.tl, par |-> e.par, fm |-> e.fm, rf |-> e.rf, err |-> e.err, lab |-> e.lab, rep |-> e.rep]
Idx(s, x, y) == x * s.w.Y + y + 1
(* labels are <<k, seed, cluster>>; the settings a label names for a classifier-driven solver *)
Named(s, key, l) == {i \in DOMAIN s.set : s.set[i].key = [key EXCEPT !.k = l[1], !.seed = l[2]]}
Exists(s, key, l) == \E i \in Named(s, key, l) : l[3] + 1 \in DOMAIN s.set[i].q.rep
LastOf(t, n) == SubSeq(t, Len(t) - n + 1, Len(t))
Input(s, e, p) ==
  LET tg == IF e.target = 0 THEN [data |-> s.w.data, scaled |-> s.c[e.cid].scaled] ELSE s.targets[e.target]
  IN LastOf(Series([data |-> tg.data], [scaled |-> tg.scaled], p), e.tp)
AreaPoints(s, e) == {Idx(s, x, y) : x \in e.x1..(e.x2 - 1), y \in e.y1..(e.y2 - 1)}
Calls(e) == {e.calls[i] : i \in DOMAIN e.calls}
LabelOf(e, inp) == (CHOOSE c \in Calls(e) : c.s = inp).l
NamedSettings(s, key, ls) == UNION {Named(s, key, l) : l \in ls}
EachOnce(e, rows) == /\ Len(rows) = (e.x2 - e.x1) * (e.y2 - e.y1)
  /\ (\A i \in DOMAIN rows : rows[i].x \in 0..(e.x2 - e.x1 - 1) /\ rows[i].y \in 0..(e.y2 - e.y1 - 1))
  /\ Cardinality({<<rows[i].x, rows[i].y>> : i \in DOMAIN rows}) = Len(rows)
PointOf(s, e, r) == Idx(s, e.x1 + r.x, e.y1 + r.y)
(* settings under which each point is answered with the model its label names *)
Chosen(s, key, l) == LET i == CHOOSE x \in Named(s, key, l) : TRUE IN
  [q |-> [s.set[i].q EXCEPT !.lab = [p \in DOMAIN s.w.data |-> l[3]]], tm |-> s.set[i].tm]
Near3(r, a) == IF a >= 2000000000 THEN r = a ELSE r < 2000000000 /\ Abs(r * 64 - a * 1000) <= 64
NearAll(rs, as) == Len(rs) = Len(as) /\ \A j \in DOMAIN as : Near3(rs[j], as[j])
RowBad(s, e, key, r, lab) ==
  LET p == PointOf(s, e, r)  S == Chosen(s, key, lab) IN
  Need(r.l = lab, "label-of-the-point")
  \cup Need(r.fc = AnswerSeries(s.w, S.q, S.tm, p, S.q.tl), "forecast")
  \cup Need(r.test = Observed(s.w, S.q, p), "observation")
  \cup Need(ErrorAt(s.w, S.q, S.tm, p, r.err), "error")
ReportBad(s, e, key) ==
  LET abs == [i \in DOMAIN e.csv |-> [x |-> e.csv[i].ax - s.w.x0 - e.x1, y |-> e.csv[i].ay - s.w.y0 - e.y1]]
      row(i) == e.rows[CHOOSE j \in DOMAIN e.rows : e.rows[j].x = abs[i].x /\ e.rows[j].y = abs[i].y] IN
  IF ~EachOnce(e, abs) THEN {"report-points"}
  ELSE UNION {LET c == e.csv[i]  r == row(i) IN
         Need(c.l = r.l, "report-label") \cup Need(NearAll(c.fc, r.fc), "report-forecast") \cup Need(NearAll(c.test, r.test), "report-observation")
         \cup Need(IF r.e3 >= 2000000000 THEN c.err = r.e3 ELSE c.err < 2000000000 /\ Abs(c.err - r.e3) <= 1, "report-error") : i \in DOMAIN e.csv}
       \cup Need(e.sum.tp = key.tl, "summary-held-out") \cup Need(e.sum.suite = 1, "summary-suite")
       \cup (LET D == {i \in DOMAIN e.qe : e.qe[i] < 2000000000}
                 tot == SumF(D, [i \in DOMAIN e.qe |-> Sq(e.qe[i])])
                 tol == SumF(D, [i \in DOMAIN e.qe |-> e.qe[i] + 1]) + e.slack * Cardinality(D) IN
             Need(\/ \E i \in DOMAIN e.qe : e.qe[i] = 2000000002
                  \/ IF D = {} THEN e.sum.mse >= 2000000000 ELSE e.sum.mse < 2000000000 /\ Abs(e.sum.mse * Cardinality(D) - tot) <= tol, "summary-error"))
       \cup Need(e.text = 1, "report-text")

XStep(s, e) ==
  CASE e.op = "world" -> [st |-> [s EXCEPT !.w = [data |-> e.data, x0 |-> e.x0, y0 |-> e.y0, X |-> e.X, Y |-> e.Y]], bad |-> {}]
    [] e.op = "target" -> [st |-> [s EXCEPT !.targets = Append(@, [data |-> e.data, scaled |-> e.scaled])], bad |-> {}]
    [] e.op = "settings" ->
         LET q == Settings(e) IN
         [st |-> [s EXCEPT !.set = Append(@, [q |-> q, key |-> e.key, tm |-> TrainingModels(s.w, q)])], bad |-> {}]
    [] e.op = "train" -> [st |-> [s EXCEPT !.h = Append(@, e.sid)], bad |-> Need(e.ok = 1, "training-failed")]
    [] e.op = "save" -> [st |-> [s EXCEPT !.st = @ \cup {s.h[e.hid]}], bad |-> Need(e.ok = 1, "saving-failed")]
    [] e.op = "remove" -> [st |-> [s EXCEPT !.st = @ \ {e.sid}], bad |-> {}]
    [] e.op = "droppartition" -> [st |-> s, bad |-> {}]
    [] e.op = "classifier" -> [st |-> [s EXCEPT !.c = Append(@, [key |-> e.key, scaled |-> e.scaled, loaded |-> {}])], bad |-> {}]
    [] e.op = "ask" ->
         LET o == s.c[e.cid]
             P == AreaPoints(s, e)
             inputs == {Input(s, e, p) : p \in P}
             heard == {c.s : c \in Calls(e)} = inputs
             ls == {c.l : c \in Calls(e)}
             there == {l \in ls : Exists(s, o.key, l)}
             \* settings available to this object: kept from earlier, or stored now
             avail == o.loaded \cup s.st
             answerable == ls = there /\ NamedSettings(s, o.key, ls) \subseteq avail
             now == {i \in DOMAIN s.set : \E j \in DOMAIN e.loads : s.set[i].key = [o.key EXCEPT !.k = e.loads[j][1], !.seed = e.loads[j][2]]}
         IN [st |-> [s EXCEPT !.c[e.cid].loaded = @ \cup now,
                              !.paths = @ \cup {<<e.files[i], <<o.key, e.suite, e.x1, e.x2, e.y1, e.y2, e.home>>>> : i \in DOMAIN e.files}],
             bad |->
            Need(now \cap o.loaded = {} /\ Cardinality(now) = Len(e.loads), "loaded-again")
            \cup (IF ~heard THEN {"classifier-input"}
                  ELSE IF ~answerable THEN Need(e.ok = 0, "answer-from-nowhere")
                  ELSE IF e.ok = 0 THEN {"query-failed"}
                  ELSE IF ~EachOnce(e, e.rows) THEN {"points-of-the-area"}
                  ELSE UNION {RowBad(s, e, o.key, e.rows[i], LabelOf(e, Input(s, e, PointOf(s, e, e.rows[i])))) : i \in DOMAIN e.rows}
                       \cup (IF e.report = 0 THEN {} ELSE ReportBad(s, e, o.key)
                               \cup Need(Len(e.files) = 2, "report-files") \cup Need(e.there = 1, "report-place")
                               \cup Need(\A t \in s.paths : t[1] \in {e.files[i] : i \in DOMAIN e.files} =>
                                           t[2] = <<o.key, e.suite, e.x1, e.x2, e.y1, e.y2, e.home>>, "report-overwritten")))]
    (* a network: the label returned is the one with the largest output *)
    [] e.op = "network" ->
         [st |-> s, bad |-> IF e.ok = 0 THEN {"network-failed"}
                            ELSE Need(e.got \in DOMAIN e.out /\ \A i \in DOMAIN e.out : e.out[i] <= e.out[e.got] + 2, "label-of-the-network")]
    [] OTHER -> Unknown(s, e)
THInit == stored = {} /\ ever = {} /\ cache = {} /\ missing = {} /\ loads = <<>> /\ bound = None /\ query = <<>> /\ given = {} /\ got = <<>> /\ ph = "" /\ asks = 0 /\ moves = 0 /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
