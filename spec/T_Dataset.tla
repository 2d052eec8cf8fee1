----------------------------- MODULE T_Dataset -----------------------------
EXTENDS Dataset, TraceLib

Shift(runs, by) == [i \in DOMAIN runs |-> [runs[i] EXCEPT !.from = @ + by]]
(* what was returned: for each point (numbered row-major) the runs of its samples; *)
(* the source adds 200000 times the number of the point *)
ContentAt(ys, ye, spd, p) == Shift(Content(ys, ye, spd), 200000 * p)
XStart == [s |-> NewStore, y |-> 1, n |-> 1]
XStep(st, e) ==
  CASE e.op = "source" -> [st |-> [s |-> NewStore, y |-> e.y, n |-> e.x * e.y], bad |-> {}]
    [] e.op = "retrieve" ->
         LET o == RetrieveOutcome(st.s, Key(e.name, e.ys, e.ye, e.spd), e.ys, e.ye, e.spd)
         IN [st |-> [st EXCEPT !.s = o.s],
             bad |-> Need(e.ok = o.ok, IF o.ok = 1 THEN "retrieve-failed" ELSE "retrieve-not-refused")
               \cup (IF e.ok = 1 /\ o.ok = 1
                     THEN Need(e.pts = [p \in 1..st.n |-> ContentAt(e.ys, e.ye, e.spd, p - 1)], "retrieved-samples") ELSE {})]
    [] e.op = "delete" -> [st |-> [st EXCEPT !.s = DeleteCopy(st.s, Key(e.name, e.ys, e.ye, e.spd))], bad |-> {}]
    [] e.op = "corrupt" -> [st |-> [st EXCEPT !.s = CorruptCopy(st.s, Key(e.name, e.ys, e.ye, e.spd))], bad |-> {}]
    [] e.op = "hide" -> [st |-> [st EXCEPT !.s.src = (e.present = 1)], bad |-> {}]
    [] e.op = "create" ->
         LET o == RetrieveOutcome(st.s, Key("SouthAmerica", e.ys, e.ye, e.spd), e.ys, e.ye, e.spd)
             W == e.x2 - e.x1  H == e.y2 - e.y1
             Abs0(q) == (e.x1 + ((q - 1) \div H)) * st.y + e.y1 + ((q - 1) % H)
         IN [st |-> [st EXCEPT !.s = o.s],
             bad |-> Need(e.ok = o.ok, IF o.ok = 1 THEN "create-failed" ELSE "create-not-refused")
               \cup (IF e.ok = 1 /\ o.ok = 1
                     THEN Need(e.pts = [q \in 1..(W * H) |-> ContentAt(e.ys, e.ye, e.spd, Abs0(q))], "created-samples")
                          \cup Need(e.scaled = e.isscaled, "created-scaling")
                          \cup Need(e.scaled = 1 => \A q \in 1..(W * H) : e.range[q] = <<0, 1>>, "created-scaled-range")
                          \cup Need(e.md = 1, "created-description")
                     ELSE {})]
    [] e.op = "interval" ->
         [st |-> st, bad |-> Need(e.ok = 1 /\ e.out = SeriesInterval(e.ys, e.ye, e.first, e.spd), "years-to-interval")]
    [] e.op = "average" ->     \* sums of four: out is four times the averaged samples
         [st |-> st, bad |-> Need(e.ok = 1 /\ e.out = [p \in DOMAIN e.data |->
             [d \in 1..(Len(e.data[p]) \div 4) |-> e.data[p][4*d-3] + e.data[p][4*d-2] + e.data[p][4*d-1] + e.data[p][4*d]]], "daily-average")
             \cup Need(e.same = 1, "average-input-modified")]
    [] OTHER -> Unknown(st, e)
THInit == store = NewStore /\ files = <<>> /\ ret = None /\ steps = 0 /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
