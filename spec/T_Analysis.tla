----------------------------- MODULE T_Analysis -----------------------------
(* Recorded runs of the programs that analyse clusterings: the tables they  *)
(* wrote and what they printed, for data, distances and ARIMA models (of    *)
(* Models.tla) that are known.                                              *)
EXTENDS Analysis, Thousandths, Elbows, TraceLib

XStart == [w |-> <<>>, d |-> <<>>, ints |-> <<>>, suites |-> <<>>]
SetOf(q) == {q[i] : i \in DOMAIN q}
OnceEach(q, n) == Len(q) = n /\ SetOf(q) = 1..n
Cells(s) == DOMAIN s.w.data
Abs2(s, p) == <<s.w.x0 + (p - 1) \div s.w.Y, s.w.y0 + ((p - 1) % s.w.Y)>>
Cl(s, e) == IF e.scaled = 1 THEN s.suites[e.sid].c1 ELSE s.suites[e.sid].c0
Dist(s, e) == s.d[e.scaled + 1]
Close(a, b, t) == Abs(a - b) <= t
----------------------------------------------------------------------------
(* models of all cells: those of the training part of their series *)
Setting(e) == [scaled |-> e.scaled, tl |-> e.tl, err |-> e.err]
ModelsAuto(s, e) == [p \in Cells(s) |-> Fit(TrainPart(Series(s.w, Setting(e), p), e.tl), e.par, e.fm)]
ModelsPdq(s, e, x) == [p \in Cells(s) |->
   LET m == Fit(TrainPart(Series(s.w, Setting(e), p), e.tl), 0, x[3]) IN
   IF m.ok = 0 THEN m ELSE [m EXCEPT !.ord = x[1] + 5 * x[2]]]
(* the error at cell q of the forecast of model m *)
ErrAt(s, e, m, q) ==
  LET f == Forecast(m, e.tl) IN
  ErrorRange(s.w, Setting(e), q, [j \in DOMAIN f |-> Original(s.w, Setting(e), q, f[j])], U, 0)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
----------------------------------------------------------------------------
(* summaries of a cluster M with representative rep *)
Slack(r, v, t) == IF v.und = 1 THEN r = 2000000001
  ELSE /\ r >= 0 /\ r < 2000000000 /\ r \div v.unit < 14000
       /\ v.n * Sq((r + t) \div v.unit + 2) >= v.lo
       /\ v.n * Sq(Max2(0, (r - t) \div v.unit - 1)) <= v.hi
NotAbove(r, v) == v.und = 1 \/ (r < 2000000000 /\ v.n * Sq(Max2(0, r \div v.unit - 1)) <= v.hi)
NotBelow(r, v) == v.und = 1 \/ (r < 2000000000 /\ (r \div v.unit >= 14000 \/ v.n * Sq(r \div v.unit + 2) >= v.lo))
Summary(s, e, models, M, rep) ==
  LET q == Sorted(M)
      own == TLCEval([p \in M |-> ErrAt(s, e, models[p], p)])
      over == TLCEval([p \in M |-> Overall([i \in DOMAIN q |-> ErrAt(s, e, models[p], q[i])])])
      good == {p \in M : ~NotNumber(own[p])} IN
  [each |-> Overall([i \in DOMAIN q |-> own[q[i]]]), over |-> over, good |-> good,
   best |-> {p \in good : \A x \in good : own[p].lo <= own[x].hi},
   failed |-> Cardinality({p \in M : models[p].ok = 0}), medoid |-> over[rep]]
RowBad(S, r, t) ==
  IF S.good = {} THEN {}      \* no model at all: nothing is claimed
  ELSE Need(Slack(r.each, S.each, t), "summary-each")
    \cup Need(\E p \in S.best : Slack(r.local, S.over[p], t), "summary-local")
    \cup Need(Slack(r.medoid, S.medoid, t), "summary-medoid")
ExtremesBad(S, r) ==
  IF S.good = {} THEN {}
  ELSE Need((\E p \in S.good : IsOverallOf(r.min, S.over[p])) /\ \A p \in S.good : NotAbove(r.min, S.over[p]), "summary-minimum")
    \cup Need((\E p \in S.good : IsOverallOf(r.max, S.over[p])) /\ \A p \in S.good : NotBelow(r.max, S.over[p]), "summary-maximum")
Claimed(models, c) == \A i \in DOMAIN c.rep : \E p \in Members(c, i) : models[p].ok = 1
----------------------------------------------------------------------------
CostsBad(s, e) ==
  LET C == Cl(s, e)  D == Dist(s, e) IN
  IF ~OnceEach([i \in DOMAIN e.rows |-> e.rows[i].c], Len(C)) THEN {"costs-clusterings"}
  ELSE Need(\A r \in SetOf(e.rows) : LET c == C[r.c] IN
              Close(r.total, SumF(DOMAIN c.lab, [p \in DOMAIN c.lab |-> D[Of(c, p)][p]]), Len(c.lab)), "costs-total")
    \cup Need(\A r \in SetOf(e.rows) : r.med = [i \in DOMAIN C[r.c].rep |-> Abs2(s, C[r.c].rep[i])], "costs-medoids")
SquareBad(s, e, good(_, _, _)) ==
  LET C == Cl(s, e) IN
  IF ~OnceEach([i \in DOMAIN e.tables |-> e.tables[i].c], Len(C)) THEN {e.prog \o "-tables"}
  ELSE UNION {LET t == e.tables[x]  c == C[t.c]  k == Len(c.rep) IN
     Need(t.head = [i \in 1..k |-> i - 1] /\ t.side = t.head, e.prog \o "-labels")
     \cup Need(/\ Len(t.m) = k /\ \A i \in 1..k : Len(t.m[i]) = k
               /\ \A i \in 1..k : \A j \in 1..k : good(t.m[i][j], c.rep[i], c.rep[j]), e.prog \o "-values") : x \in DOMAIN e.tables}
CellOf(s, r) == (r.ax - s.w.x0) * s.w.Y + (r.ay - s.w.y0) + 1
InRegion(s, r) == r.ax \in s.w.x0..(s.w.x0 + s.w.X - 1) /\ r.ay \in s.w.y0..(s.w.y0 + s.w.Y - 1)
MembersBad(s, e, models) ==
  LET C == Cl(s, e)  D == Dist(s, e)
      T(c, i) == {x \in DOMAIN e.tables : e.tables[x].c = c /\ {CellOf(s, r) : r \in SetOf(e.tables[x].rows)} = Members(C[c], i)} IN
  IF \E x \in DOMAIN e.tables : ~(e.tables[x].c \in DOMAIN C) \/ \E r \in SetOf(e.tables[x].rows) : ~InRegion(s, r) THEN {"members-tables"}
  ELSE Need(Len(e.tables) = SumF(DOMAIN C, [c \in DOMAIN C |-> Len(C[c].rep)]), "members-tables")
  \cup UNION {UNION {IF Cardinality(T(c, i)) # 1 THEN {"members-tables"}
       ELSE LET t == e.tables[CHOOSE x \in T(c, i) : TRUE] IN
            Need(Len(t.rows) = Cardinality(Members(C[c], i)), "members-once")
            \cup Need(\A r \in SetOf(t.rows) : Close(r.d, D[C[c].rep[i]][CellOf(s, r)], 1), "members-distance")
            \cup Need(\A r \in SetOf(t.rows) : Within(r.err, ErrAt(s, e, models[C[c].rep[i]], CellOf(s, r))), "members-error")
       : i \in DOMAIN C[c].rep} : c \in DOMAIN C}
SummaryBad(s, e, models) ==
  LET C == Cl(s, e) IN
  IF ~OnceEach([i \in DOMAIN e.tables |-> e.tables[i].c], Len(C)) THEN {"summary-tables"}
  ELSE UNION {LET t == e.tables[x]  c == C[t.c] IN
     IF ~OnceEach([i \in DOMAIN t.rows |-> t.rows[i].i + 1], Len(c.rep)) THEN {"summary-clusters"}
     ELSE UNION {LET r == t.rows[y]  M == Members(c, r.i + 1)  rep == c.rep[r.i + 1]  S == Summary(s, e, models, M, rep) IN
            Need(r.size = Cardinality(M), "summary-size") \cup Need(r.failed = S.failed, "summary-failed")
            \cup Need(models[rep].ok = 1 => r.pdq = <<models[rep].ord, 0, e.fm>>, "summary-order")
            \cup Need(r.aic = (IF models[rep].ok = 1 THEN (models[rep].sig - 5000) * 1000 ELSE 2000000001), "summary-aic")
            \cup RowBad(S, r, 0) \cup ExtremesBad(S, r) : y \in DOMAIN t.rows} : x \in DOMAIN e.tables}
PdqBad(s, e) ==
  LET C == Cl(s, e)  MM == TLCEval([x \in DOMAIN e.pdq |-> ModelsPdq(s, e, e.pdq[x])]) IN
  IF \E x \in DOMAIN e.pdq : \E c \in DOMAIN C : ~Claimed(MM[x], C[c]) THEN {}
  ELSE IF e.ok = 0 THEN {"summary-pdq-failed"}
  ELSE IF ~OnceEach([i \in DOMAIN e.tables |-> e.tables[i].c], Len(C)) THEN {"summary-tables"}
  ELSE UNION {LET t == e.tables[x]  c == C[t.c] IN
     IF ~(Len(t.rows) = Len(c.rep) * Len(e.pdq) /\ {<<r.i, r.pdq>> : r \in SetOf(t.rows)} = {<<i - 1, y>> : i \in DOMAIN c.rep, y \in SetOf(e.pdq)})
     THEN {"summary-clusters"}
     ELSE UNION {LET r == t.rows[y]  M == Members(c, r.i + 1)
                     models == MM[CHOOSE z \in DOMAIN e.pdq : e.pdq[z] = r.pdq]
                     S == Summary(s, e, models, M, c.rep[r.i + 1]) IN
            Need(r.size = Cardinality(M), "summary-size") \cup Need(r.failed = S.failed, "summary-failed")
            \cup RowBad(S, r, 0) \cup ExtremesBad(S, r) : y \in DOMAIN t.rows} : x \in DOMAIN e.tables}
RegionBad(s, e) ==
  LET MM == TLCEval([x \in DOMAIN e.pdq |-> ModelsPdq(s, e, e.pdq[x])])  all == Cells(s) IN
  IF \E x \in DOMAIN e.pdq : \A p \in all : MM[x][p].ok = 0 THEN {}
  ELSE IF e.ok = 0 THEN {"region-failed"}
  ELSE IF ~(Len(e.rows) = Len(e.pdq) /\ {r.pdq : r \in SetOf(e.rows)} = SetOf(e.pdq)) THEN {"region-parameters"}
  ELSE UNION {LET r == e.rows[y] IN RowBad(Summary(s, e, MM[CHOOSE z \in DOMAIN e.pdq : e.pdq[z] = r.pdq], all, e.centroid), r, 5) : y \in DOMAIN e.rows}
ElbowsBad(s, e) ==
  LET C == Cl(s, e)  D == s.ints[e.scaled + 1]  ks == SetOf(s.suites[e.sid].ks)  seeds == SetOf(s.suites[e.sid].seeds)
      at(k, sd) == CHOOSE c \in SetOf(C) : c.k = k /\ c.seed = sd
      cost == [x \in Combos(ks, seeds) |-> SquaredCost(D, at(x[1], x[2]).lab, at(x[1], x[2]).rep)] IN
  IF D = <<>> THEN {}
  ELSE IF ~(Len(e.rows) = Cardinality(seeds) /\ {r[1] : r \in SetOf(e.rows)} = seeds) THEN {"elbows-seeds"}
  ELSE Need(\A r \in SetOf(e.rows) : r[2] = s.suites[e.sid].ks, "elbows-counts")
    \cup Need(\A r \in SetOf(e.rows) : r[3] \in ElbowsOfSeed(ks, cost, r[1]), "elbows-found")
RunBad(s, e) ==
  CASE e.prog = "summary-pdq" -> PdqBad(s, e)
    [] e.prog = "region" -> RegionBad(s, e)
    [] OTHER ->
      LET models == TLCEval(IF e.prog \in {"between", "members", "summary"} THEN ModelsAuto(s, e) ELSE <<>>)
          claimed == e.prog = "summary" => \A c \in SetOf(Cl(s, e)) : Claimed(models, c) IN
      IF ~claimed THEN {}
      ELSE IF e.ok = 0 THEN {e.prog \o "-failed"}
      ELSE CASE e.prog = "costs" -> CostsBad(s, e)
             [] e.prog = "distances" -> SquareBad(s, e, LAMBDA v, a, b : Close(v, Dist(s, e)[a][b], 1))
             [] e.prog = "between" -> SquareBad(s, e, LAMBDA v, a, b : Within(v, ErrAt(s, e, models[a], b)))
             [] e.prog = "members" -> MembersBad(s, e, models)
             [] e.prog = "summary" -> SummaryBad(s, e, models)
             [] e.prog = "elbows" -> ElbowsBad(s, e)
----------------------------------------------------------------------------
(* the tables made of a report: every medoid of the suite, and random other
   cells with the best medoid for each                                      *)
ExtractBad(s, e) ==
  LET C == Cl(s, e)  D == Dist(s, e)
      want == {<<c, i>> : c \in DOMAIN C, i \in 1..9}
      all == {x \in want : x[2] \in DOMAIN C[x[1]].rep}
      meds == {C[x[1]].rep[x[2]] : x \in all}
      at(r) == CellOf(s, [ax |-> r.x, ay |-> r.y])
      models == TLCEval(IF e.criterion = "min_error" THEN ModelsAuto(s, e) ELSE <<>>)
      err(c, p) == ErrAt(s, e, models[Of(C[c], p)], p) IN
  IF e.ok = 0 THEN {"extract-failed"}
  ELSE IF \E r \in SetOf(e.rows) \cup SetOf(e.meds) : ~(<<r.c, r.i>> \in all /\ r.region = 1) THEN {"extract-names"}
  ELSE Need(e.good = 1 /\ e.goodm = 1, "extract-format")
    \cup Need(Len(e.meds) = Cardinality(all) /\ {<<r.c, r.i>> : r \in SetOf(e.meds)} = all, "extract-medoids")
    \cup Need(\A r \in SetOf(e.meds) \cup SetOf(e.rows) : <<r.x, r.y>> = Abs2(s, C[r.c].rep[r.i]), "extract-medoid-place")
    \cup Need(\A r \in SetOf(e.meds) : r.p = C[r.c].rep[r.i], "extract-medoid-series")
    \cup Need(Len(e.rows) = e.count /\ Cardinality({r.p : r \in SetOf(e.rows)}) = e.count, "extract-points")
    \cup Need(\A r \in SetOf(e.rows) : r.p \in Cells(s) \ meds, "extract-points")
    \cup (IF \E r \in SetOf(e.rows) : r.p \notin Cells(s) THEN {}
          ELSE Need(e.criterion = "min_distance" => \A r \in SetOf(e.rows) : \A m \in meds : D[C[r.c].rep[r.i]][r.p] <= D[m][r.p], "extract-nearest")
            \cup Need(e.criterion = "min_error" => \A r \in SetOf(e.rows) :
                 C[r.c].lab[r.p] = r.i - 1 /\ \A c \in DOMAIN C : err(r.c, r.p).lo <= err(c, r.p).hi, "extract-least-error"))
Thousand(d) == [i \in DOMAIN d |-> [j \in DOMAIN d[i] |-> d[i][j] \div 1000]]
(* a suite has one clustering for each number of clusters (and seed) *)
SuiteIs(C, e) == LET n == IF e.seeds = <<>> THEN 1 ELSE Len(e.seeds)
                     seeds == IF e.seeds = <<>> THEN {0} ELSE SetOf(e.seeds) IN
  /\ Len(C) = Len(e.ks) * n
  /\ {<<C[i].k, C[i].seed>> : i \in DOMAIN C} = SetOf(e.ks) \X seeds
XStep(s, e) ==
  CASE e.op = "world" -> [st |-> [s EXCEPT !.w = [data |-> e.data, x0 |-> e.x0, y0 |-> e.y0, X |-> e.X, Y |-> e.Y],
                                           !.d = <<e.d0, e.d1>>, !.ints = <<Thousand(e.d0), Thousand(e.d1)>>], bad |-> {}]
    [] e.op = "measure" ->
         LET n == Cardinality(Cells(s)) IN
         [st |-> [s EXCEPT !.d[e.scaled + 1] = IF e.ok = 1 THEN e.m ELSE e.lib, !.ints[e.scaled + 1] = <<>>],
          bad |-> IF e.ok = 0 THEN {"measure-failed"}
                  ELSE IF ~(Len(e.m) = n /\ \A i \in 1..n : Len(e.m[i]) = n) THEN {"measure-shape"}
                  ELSE Need(\A i \in 1..n : \A j \in 1..n : Close(e.m[i][j], e.m[j][i], 1) /\ (i = j => e.m[i][j] = 0), "measure-symmetric")
                    \cup Need(\A i \in 1..n : \A j \in 1..n : Close(e.m[i][j], e.lib[i][j], 1), "measure-distance")]
    [] e.op = "suite" -> [st |-> [s EXCEPT !.suites = Append(@, [c0 |-> e.c0, c1 |-> e.c1, ks |-> e.ks, seeds |-> e.seeds])],
                          bad |-> Need(SuiteIs(e.c0, e) /\ SuiteIs(e.c1, e), "suite-clusterings")]
    [] e.op = "run" -> [st |-> s, bad |-> RunBad(s, e)]
    [] e.op = "die" -> [st |-> s, bad |-> {}]
    [] e.op = "extract" -> [st |-> s, bad |-> ExtractBad(s, e)]
    [] OTHER -> Unknown(s, e)
THInit == world = <<>> /\ store = <<>> /\ procs = <<>> /\ tables = <<>> /\ runs = 0 /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
