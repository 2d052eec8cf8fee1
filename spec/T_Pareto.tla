------------------------------ MODULE T_Pareto ------------------------------
(* Recorded selections of models, and what was said about their costs (C29). *)
EXTENDS Pareto, TraceLib
XStart == [rows |-> <<>>]
SetOf(q) == {q[i] : i \in DOMAIN q}
OnceEach(q, S) == Len(q) = Cardinality(S) /\ SetOf(q) = S
SCALE == 10000
Close(a, b, t) == a - b <= t /\ b - a <= t
SelectBad(s, e) ==
  IF e.ok = 0 THEN {"select-failed"}
  ELSE Need(OnceEach(e.got, Front(s.rows, DOMAIN s.rows)), "select-front") \cup Need(e.kept = 1, "select-kept")
(* D are the models compared. Everything is multiplied by the largest time  *)
(* and the largest error, so that the costs are whole.                      *)
StepBad(s, D, S, x, f) ==
  LET T == Largest(s.rows, D, 1)  E == Largest(s.rows, D, 2)
      unit == S * T * E
      cost(i) == CostOf(s.rows, D, S, x, i)
      is(c, i) == Close(c * unit, cost(i) * SCALE, unit) IN
  Need(Len(f.costs) = Cardinality(D) /\ {c[1] : c \in SetOf(f.costs)} = D, "sweep-models")
  \cup Need(\A c \in SetOf(f.costs) : c[1] \in D => is(c[2], c[1]), "sweep-costs")
  \cup Need(f.best # <<>> /\ SetOf(f.best) \subseteq Cheapest(s.rows, D, S, x), "sweep-best")
  \cup Need(\A i \in SetOf(f.best) : i \in D => is(f.cost, i), "sweep-best-cost")
  \cup Need(\A p \in SetOf(f.factors) : Close(p[1] * T * S, x * SCALE, T * S) /\ Close(p[2] * E * S, (S - x) * SCALE, E * S), "sweep-factors")
SweepBad(s, e, D) ==
  IF D = {} THEN {}
  ELSE IF e.ok = 0 THEN {"sweep-failed"}
  ELSE LET S == Len(e.steps) IN
       Need(S >= 2 /\ e.whole = 1, "sweep-steps") \cup UNION {StepBad(s, D, S, x - 1, e.steps[x]) : x \in 1..S}
XStep(s, e) ==
  CASE e.op = "table" -> [st |-> [rows |-> e.rows], bad |-> {}]
    [] e.op = "select" -> [st |-> s, bad |-> SelectBad(s, e)]
    [] e.op = "sweep" -> [st |-> s, bad |-> SweepBad(s, e, DOMAIN s.rows)]
    [] e.op = "program" -> [st |-> s, bad |-> SweepBad(s, e, Front(s.rows, DOMAIN s.rows))]
    [] OTHER -> Unknown(s, e)
THInit == rows = <<>> /\ at = 0 /\ archive = {} /\ g = 0 /\ said = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
