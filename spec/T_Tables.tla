------------------------------ MODULE T_Tables ------------------------------
EXTENDS Tables, TraceLib
(* rep: place -> report, tab: place -> the report its table was made of; a  *)
(* report is a sequence of [k, seed, medoids (cells)]                       *)
XStart == [rep |-> <<>>, tab |-> <<>>, x0 |-> 0, y0 |-> 0, Y |-> 1]
Put(f, p, v) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN v ELSE f[x]]
TableBad(s, r, e) ==
  LET want == RowsOf(r)
      first(j) == CHOOSE c \in DOMAIN r : r[c].k = want[j].k /\ r[c].seed = want[j].seed IN
  IF Len(e.rows) # Len(want) THEN {"rows"}
  ELSE Need(e.good = 1, "header")
       \cup UNION {LET g == e.rows[j]  w == want[j]  q == w.cell - 1 IN
              Need(g.region = 1, "region") \cup Need(g.c = first(j) /\ g.i = w.i, "row-of-medoid")
              \cup Need(g.x = s.x0 + q \div s.Y /\ g.y = s.y0 + (q % s.Y), "place-of-medoid")
              \cup Need(g.p = w.cell, "series-of-medoid")
              \cup Need(g.label = <<>> \/ (g.label = Label(w.k, w.seed, w.i - 1) /\ g.back = first(j)), "label")
            : j \in DOMAIN want}
XStep(s, e) ==
  CASE e.op = "world" -> [st |-> [s EXCEPT !.x0 = e.x0, !.y0 = e.y0, !.Y = e.Y], bad |-> {}]
    [] e.op = "report" -> [st |-> [s EXCEPT !.rep = Put(@, e.place, e.r)], bad |-> {}]
    [] e.op = "produce" ->
         [st |-> IF e.ok = 1 /\ e.place \in DOMAIN s.rep THEN [s EXCEPT !.tab = Put(@, e.place, s.rep[e.place])] ELSE s,
          bad |-> IF e.place \notin DOMAIN s.rep THEN Need(e.ok = 0, "table-without-report")
                  ELSE IF e.ok = 0 THEN {"table-refused"} ELSE TableBad(s, s.rep[e.place], e)]
    [] e.op = "read" ->
         [st |-> s, bad |-> IF e.place \notin DOMAIN s.tab THEN Need(e.ok = 0, "table-from-nowhere")
                            ELSE IF e.ok = 0 THEN {"table-lost"} ELSE TableBad(s, s.tab[e.place], e)]
    [] OTHER -> Unknown(s, e)
THInit == reports = <<>> /\ files = <<>> /\ job = <<>> /\ steps = 0 /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
