---------------------------- MODULE T_Parallel -----------------------------
(* What the real pools produced is the output of the model when all is done: *)
(* the serial result, for every task and whatever the earlier computations.  *)
EXTENDS Parallel, TraceLib, SeriesMath

NaN == 2000000001
XStart == [n |-> 0]
Undefined(s) == \E i \in DOMAIN s : s[i] = NaN
(* the operations the driver uses *)
TaskValue(e, i, j) ==
  LET a == e.ser[i]  b == e.ser[j] IN
  CASE e.task = "ends"   -> IF a[1] = NaN \/ b[Len(b)] = NaN THEN NaN ELSE 100 * a[1] + b[Len(b)]
    [] e.task = "number" -> 1000 * i + j
    [] e.task = "sums"   -> IF i = j \/ Undefined(a) \/ Undefined(b) THEN NaN ELSE SumSeq(a) - 50 * SumSeq(b)
Square(e, V(_, _)) == [i \in DOMAIN e.ser |-> [j \in DOMAIN e.ser |-> V(i, j)]]
Distance(e, i, j) == IF Undefined(e.ser[i]) \/ Undefined(e.ser[j]) THEN NaN ELSE DTW2(e.ser[i], e.ser[j])
Common(e) == Need(e.after = e.ser, "input-modified") \cup Need(e.earlier = e.before, "earlier-result-changed")

XStep(s, e) ==
  CASE e.op = "operate" ->
         [st |-> s, bad |-> IF e.ok = 0 THEN {"operate-fails"}
            ELSE Need(e.out = Square(e, LAMBDA i, j : TaskValue(e, i, j)), "operate-result") \cup Common(e)]
    [] e.op = "distances" ->
         [st |-> s, bad |-> IF e.ok = 0 THEN {"distances-fail"}
            ELSE Need(e.serial = e.d2, "not-the-serial-result")
                 \cup Need(e.d2 = Square(e, LAMBDA i, j : Distance(e, i, j)), "distances-result")
                 \cup Need(e.kept = e.d2, "kept-matrix") \cup Common(e)]
    [] OTHER -> Unknown(s, e)
THInit == /\ run = 0 /\ queue = <<>> /\ todo = <<>> /\ got = <<>> /\ copy = <<>> /\ lock = 0 /\ out = <<>>
          /\ input = <<>> /\ done = <<>> /\ sched = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
