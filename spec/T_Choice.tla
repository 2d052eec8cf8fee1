------------------------------ MODULE T_Choice ------------------------------
EXTENDS Choice, TraceLib
SetOf(q) == {q[i] : i \in DOMAIN q}
NoRepeat(q) == Cardinality(SetOf(q)) = Len(q)
(* the suite (cells: place of each medoid), the distances, and the records: limit and choices made *)
XStart == [d |-> <<>>, cells |-> <<>>, x0 |-> 0, y0 |-> 0, Y |-> 1, n |-> 0, rec |-> <<>>]
Sizes(s) == [c \in DOMAIN s.cells |-> Len(s.cells[c])]
Distances(s, p) == [c \in DOMAIN s.cells |-> [i \in DOMAIN s.cells[c] |-> s.d[p][s.cells[c][i]]]]
Place(s, m) == LET q == s.cells[m[1]][m[2]] - 1 IN <<s.x0 + q \div s.Y, s.y0 + (q % s.Y)>>
RECURSIVE Repeat(_, _)
Repeat(m, k) == IF k = 0 THEN <<>> ELSE <<m>> \o Repeat(m, k - 1)
RECURSIVE Unfold(_)
Unfold(u) == IF u = <<>> THEN <<>> ELSE Repeat(<<u[1][1], u[1][2]>>, u[1][3]) \o Unfold(Tail(u))
CountsOf(s, h) == {<<m[1], m[2], Used(h, m)>> : m \in {x \in Medoids(Sizes(s)) : Used(h, x) > 0}}
HistIs(s, o, h) == SetOf(o) = CountsOf(s, h) /\ NoRepeat(o)
TakenCells(s) == UNION {SetOf(s.cells[c]) : c \in DOMAIN s.cells}

RECURSIVE Rows(_, _, _, _, _)
(* violated clauses of the rows of a table from row k on, and whether the points could be served *)
Rows(s, e, k, h, bad) ==
  IF k > Len(e.rows) THEN [h |-> h, bad |-> bad]
  ELSE LET r == e.rows[k]  m == <<r.c, r.i>> IN
       IF r.p \notin 1..s.n THEN [h |-> h, bad |-> bad \cup {"table-series"}]
       ELSE LET sc == IF s.d # <<>> THEN Distances(s, r.p) ELSE e.scores[k]
                ok == m \in Allowed(Sizes(s), sc, h, e.limit) IN
            IF ~ok THEN [h |-> h, bad |-> bad \cup {"table-choice"}]
            ELSE Rows(s, e, k + 1, Append(h, m),
                      bad \cup Need(r.region = 1, "table-region") \cup Need(<<r.x, r.y>> = Place(s, m), "table-medoid"))

XStep(s, e) ==
  CASE e.op = "suite" ->
         [st |-> [XStart EXCEPT !.d = e.d, !.cells = e.cells, !.x0 = e.x0, !.y0 = e.y0, !.Y = e.Y, !.n = e.n], bad |-> {}]
    [] e.op = "record" ->
         [st |-> [s EXCEPT !.rec = Append(@, [limit |-> e.limit, h |-> Unfold(e.used)])], bad |-> {}]
    [] e.op = "choose" ->
         LET r == s.rec[e.hid]
             sc == IF e.scores = <<>> THEN Distances(s, e.p) ELSE e.scores
             want == Allowed(Sizes(s), sc, r.h, r.limit)
             h == IF e.ok = 1 THEN Append(r.h, e.got) ELSE r.h IN
         [st |-> [s EXCEPT !.rec[e.hid].h = h],
          bad |-> Need(e.same = 1, "scores-or-suite-modified") \cup
            (IF want = {} THEN Need(e.ok = 0, "exhausted-not-refused") \cup Need(HistIs(s, e.hist, r.h), "record-after-refusal")
             ELSE IF e.ok = 0 THEN {"refused"}
             ELSE IF e.got \notin want THEN {"not-the-best"}
             ELSE Need(e.pt = Place(s, e.got), "medoid") \cup Need(HistIs(s, e.hist, h), "record"))]
    [] e.op = "missing" -> [st |-> s, bad |-> Need(e.ok = 0, "solver-never-stored") \cup Need(e.hist = <<>>, "record-after-refusal")]
    [] e.op = "table" ->
         LET free == s.n - Cardinality(TakenCells(s))
             most == Cardinality(Medoids(Sizes(s))) * e.limit IN
         [st |-> s, bad |->
            IF e.count > free \/ (e.limit > 0 /\ most < e.count) THEN Need(e.ok = 0, "too-many-points-not-refused")
            ELSE IF e.ok = 0 THEN {"table-refused"}
            ELSE LET r == Rows(s, e, 1, <<>>, {}) IN
                 r.bad \cup Need(e.good = 1, "table-header") \cup Need(e.again = 1, "table-not-reproducible")
                 \cup Need(Len(e.rows) = e.count /\ NoRepeat([k \in DOMAIN e.rows |-> e.rows[k].p]), "table-points")
                 \cup Need({e.rows[k].p : k \in DOMAIN e.rows} \cap TakenCells(s) = {}, "table-point-is-medoid")
                 \cup (IF r.bad = {} THEN Need(HistIs(s, e.hist, r.h), "table-record") ELSE {})]
    [] e.op = "integers" ->
         LET free == (e.lo .. e.hi) \ SetOf(e.black) IN
         [st |-> s, bad |-> Need(e.same = 1, "input-modified") \cup
            (IF e.n > Cardinality(free) THEN Need(e.ok = 0, "integers-not-refused")
             ELSE Need(e.ok = 1 /\ Len(e.out) = e.n /\ NoRepeat(e.out) /\ SetOf(e.out) \subseteq free, "integers"))]
    [] e.op = "points" ->
         LET free == {<<x, y>> : x \in 0..(e.X - 1), y \in 0..(e.Y - 1)} \ {<<q \div e.Y, q % e.Y>> : q \in SetOf(e.med)} IN
         [st |-> s, bad |-> Need(e.again = 1, "points-not-reproducible") \cup
            (IF e.n > Cardinality(free) THEN Need(e.ok = 0, "points-not-refused")
             ELSE Need(e.ok = 1 /\ Len(e.out) = e.n /\ NoRepeat(e.out) /\ SetOf(e.out) \subseteq free, "points"))]
    [] OTHER -> Unknown(s, e)
THInit == limit = 0 /\ hist = <<>> /\ steps = 0 /\ last = <<>> /\ trail = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
