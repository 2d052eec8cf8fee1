------------------------------ MODULE T_Figures ------------------------------
(* Recorded figures: what was on them when they were saved, for data,       *)
(* distances, partitions and ARIMA models that are known (C27, C28).        *)
EXTENDS T_Analysis, FigureGeometry
Sil == INSTANCE SilhouetteScore WITH S <- 1000

FStart == [w |-> <<>>, d |-> <<>>, ints |-> <<>>, suites |-> <<>>, files |-> {}]
Column0(s, p) == Column(s.w.Y, p) + 1
Row0(s, p) == PixelRow(s.w.Y, p) + 1
IsImage(s, m) == Len(m) = s.w.X /\ \A r \in DOMAIN m : Len(m[r]) = s.w.Y
At(s, m, p) == m[Row0(s, p)][Column0(s, p)]
(* pixels of the same colour are cells of the same cluster *)
Coloured(s, m, lab) == \A p \in Cells(s) : \A q \in Cells(s) : (At(s, m, p) = At(s, m, q)) = (lab[p] = lab[q])
----------------------------------------------------------------------------
(* the area of a query over a partition *)
MapBad(s, e) ==
  LET c == Cl(s, e)[e.ci] IN
  IF e.ok = 0 THEN {"map-failed"}
  ELSE IF ~IsImage(s, e.img) THEN {"map-shape"}
  ELSE Need(e.n = 1, "map-figures")
    \cup Need(Coloured(s, e.img, c.lab), "map-colours")
    \cup Need(/\ Len(e.marks) = Len(c.rep)
              /\ {<<m[1], m[2]>> : m \in SetOf(e.marks)} = {Mark(s.w.Y, p) : p \in SetOf(c.rep)}, "map-marks")
    \cup Need(\A m \in SetOf(e.marks) : \A p \in Cells(s) : <<m[1], m[2]>> = Mark(s.w.Y, p) => m[3] # At(s, e.img, p), "map-marks-visible")
    \cup Need(e.rects = <<Frame(e.area)>>, "map-frame")
    \cup Need(Len(e.corners) = 4 /\ SetOf(e.corners) = Corners(e.area, s.w.x0, s.w.y0), "map-corners")
    \cup Need(\A f \in s.files : (f[1] = e.file) => f[2] = e.key, "map-file")
----------------------------------------------------------------------------
(* silhouettes: a map at the left, the coefficients of each cluster at the right *)
RECURSIVE Insert(_, _), SortedSeq(_)
Insert(q, v) == IF q = <<>> THEN <<v>> ELSE IF v <= Head(q) THEN <<v>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), v)
SortedSeq(q) == IF q = <<>> THEN <<>> ELSE Insert(SortedSeq(Tail(q)), Head(q))
SeqOver(Q, f(_)) == LET o == Sorted(Q) IN [i \in DOMAIN o |-> f(o[i])]
SilFigure(s, d, f) ==      \* of the partition that the map shows
  IF ~IsImage(s, f.img) THEN {"silhouette-shape"}
  ELSE LET lab == [p \in Cells(s) |-> At(s, f.img, p)]
           co == [p \in Cells(s) |-> Sil!Coefficient(d, lab, p)]
           of(j) == {p \in Cells(s) : lab[p] = f.polys[j].col} IN
    IF ~Sil!Scorable(lab) THEN {"silhouette-map"}
    ELSE IF ~(Len(f.polys) = Cardinality(Sil!Labels(lab)) /\ {f.polys[j].col : j \in DOMAIN f.polys} = Sil!Labels(lab)) THEN {"silhouette-colours"}
    ELSE Need(\A j \in DOMAIN f.polys :
           LET want == SortedSeq(SeqOver(of(j), LAMBDA p : co[p]))  got == SortedSeq(f.polys[j].v) IN
           Len(got) = Len(want) /\ \A i \in DOMAIN want : Close(got[i], want[i], 2), "silhouette-values")
      \cup Need(\A j \in DOMAIN f.polys : \A l \in DOMAIN f.polys :
           l # j => f.polys[l].hi < f.polys[j].lo \/ f.polys[j].hi < f.polys[l].lo, "silhouette-overlap")
      \cup Need(\A v \in SetOf(f.avg) \cup {f.score} : Close(v, Sil!Score(d, lab), 3), "silhouette-average")
Tagged(s, f, c) ==      \* the numbers of the clusters are beside their coefficients
  /\ SetOf([i \in DOMAIN f.tags |-> f.tags[i][1]]) = 0..(Len(c.rep) - 1)
  /\ \A t \in SetOf(f.tags) : \A p \in Cells(s) : c.lab[p] = t[1] =>
        \E j \in DOMAIN f.polys : f.polys[j].col = At(s, f.img, p) /\ t[2] >= f.polys[j].lo /\ t[2] <= f.polys[j].hi + 2
SilBad(s, e) ==
  LET C == Cl(s, e)  d == s.ints[e.scaled + 1] IN
  IF d = <<>> THEN {}
  ELSE IF e.ok = 0 THEN {"silhouette-failed"}
  ELSE IF ~OnceEach([i \in DOMAIN e.figs |-> e.figs[i].c], Len(C)) THEN {"silhouette-figures"}
  ELSE UNION {LET f == e.figs[x]  b == SilFigure(s, d, f) IN
         IF b # {} THEN b
         ELSE Need(Coloured(s, f.img, C[f.c].lab), "silhouette-partition") \cup Need(Tagged(s, f, C[f.c]), "silhouette-tags") : x \in DOMAIN e.figs}
LegacyBad(s, e) ==
  LET d == s.ints[e.scaled + 1]
      want == {<<kk, sd>> : kk \in SetOf(e.ks), sd \in SetOf(e.seeds)} IN
  IF d = <<>> THEN {}
  ELSE IF e.ok = 0 THEN {"legacy-failed"}
  ELSE IF ~(Len(e.figs) = Cardinality(want) /\ {<<e.figs[x].k, e.figs[x].seed>> : x \in DOMAIN e.figs} = want) THEN {"legacy-figures"}
  ELSE UNION {SilFigure(s, d, e.figs[x]) \cup Need(Len(e.figs[x].polys) = e.figs[x].k, "legacy-clusters") : x \in DOMAIN e.figs}
----------------------------------------------------------------------------
(* distances from the first cell and from the centre *)
DistBad(s, e) ==
  LET D == Dist(s, e) IN
  IF e.ok = 0 THEN {"distances-failed"}
  ELSE IF ~OnceEach([i \in DOMAIN e.figs |-> e.figs[i].at + 1], 2) THEN {"distances-figures"}
  ELSE UNION {LET f == e.figs[x]  o == IF f.at = 0 THEN 1 ELSE CentreCell(s.w.X, s.w.Y) IN
         IF ~IsImage(s, f.m) THEN {"distances-shape"}
         ELSE Need(f.name = 1, "distances-name")
           \cup Need(\A p \in Cells(s) : Close(At(s, f.m, p), D[o][p], 1), "distances-values") : x \in DOMAIN e.figs}
----------------------------------------------------------------------------
(* distances to medoids against errors of the models of medoids *)
PointsBad(s, e, f, models) ==
  LET c == Cl(s, e)[f.c]  M == Members(c, f.i + 1)  rep == c.rep[f.i + 1]  D == Dist(s, e)
      at == TLCEval([p \in M |-> ErrAt(s, e, models[rep], p)])
      is(pt, p) == Close(pt[1], D[rep][p], 1) /\ Within(pt[2], at[p]) IN
  Need(Len(f.pts) = Cardinality(M), "scatter-once")
  \cup Need((\A pt \in SetOf(f.pts) : \E p \in M : is(pt, p)) /\ \A p \in M : \E pt \in SetOf(f.pts) : is(pt, p), "scatter-points")
ScatterBad(s, e) ==
  LET C == Cl(s, e)
      pdq == IF e.prog = "summary-pdq" THEN SetOf(e.pdq) ELSE {<<>>}
      MM == TLCEval([x \in pdq |-> IF e.prog = "summary-pdq" THEN ModelsPdq(s, e, x) ELSE ModelsAuto(s, e)])
      want == UNION {{<<ci, i - 1, x>> : i \in DOMAIN C[ci].rep, x \in pdq} : ci \in DOMAIN C}
      claimed == e.prog = "members" \/ \A x \in pdq : \A c \in SetOf(C) : Claimed(MM[x], c) IN
  IF ~claimed THEN {}
  ELSE IF e.ok = 0 THEN {"scatter-failed"}
  ELSE IF ~(/\ Len(e.figs) = Cardinality(want) /\ e.distinct = Len(e.figs)
            /\ {<<f.c, f.i, f.pdq>> : f \in SetOf(e.figs)} = want) THEN {"scatter-figures"}
  ELSE UNION {PointsBad(s, e, e.figs[x], MM[e.figs[x].pdq]) : x \in DOMAIN e.figs}
----------------------------------------------------------------------------
(* C28: panels with the distances of M to rep. Statistics have two decimals. *)
Hundredth(v) == (v + 5) \div 10
StatsBad(s, e, p, M, rep) ==
  LET D == Dist(s, e)
      q == SortedSeq(SeqOver(M, LAMBDA x : D[rep][x]))  n == Len(q)
      sum == SumF(M, [x \in M |-> D[rep][x]])
      u == 1 + (q[n] \div 20000)       \* (hundredths, or more of them for long distances)
      mean == Hundredth(sum \div n) \div u
      devs == [x \in M |-> Abs((Hundredth(D[rep][x]) \div u) - mean)]
      dev == Hundredth(p.dev) \div u IN
  Need(p.n = n, "panel-size")
  \cup Need((n > 1 => Close(p.min, q[2], 6)) /\ Close(p.max, q[n], 6), "panel-extremes")
  \cup Need(Close(p.mean, sum \div n, 8), "panel-mean")
  \cup Need(Close(2 * p.med, q[(n + 1) \div 2] + q[(n + 2) \div 2], 14), "panel-median")
  \cup Need(p.dev >= 0 /\ Close(SumF(M, [x \in M |-> devs[x] * devs[x]]), n * dev * dev, SumF(M, [x \in M |-> 6 * devs[x] + 9]) + n * (2 * dev + 1)), "panel-deviation")
(* bars h over edges g count the values of f over Q: exactly, or no more than that *)
Inside(Q, f, a, b, t) == Cardinality({x \in Q : f[x] >= a - t /\ f[x] <= b + t})
BarsOf(h, Q, f, all) ==
  /\ Len(h.e) = Len(h.h) + 1
  /\ \A i \in DOMAIN h.h : h.h[i] >= 0 /\ h.h[i] <= Inside(Q, f, h.e[i], h.e[i + 1], 2)
  /\ all => /\ SumF(DOMAIN h.h, h.h) = Cardinality(Q)
            /\ \A i \in DOMAIN h.h : h.h[i] >= Inside(Q, f, h.e[i], h.e[i + 1], -2)
PanelBad(s, e, p, M, rep, asked) ==
  LET D == Dist(s, e)  out == Cells(s) \ M
      own == {i \in DOMAIN p.hists : p.hists[i].rnd = 0}  ran == {i \in DOMAIN p.hists : p.hists[i].rnd = 1}
      most == CHOOSE v \in {D[rep][x] : x \in M} : \A x \in M : D[rep][x] <= v
      r == Drawn(asked, Cardinality(M), Len(s.w.data)) IN
  StatsBad(s, e, p, M, rep)
  \cup Need(Cardinality(own) = 1 /\ \A i \in own : BarsOf(p.hists[i], M, D[rep], TRUE), "panel-bars")
  \cup (IF asked < 0 THEN Need(ran = {} /\ p.rand = -1 /\ p.both = -1, "panel-no-random")
        ELSE Need(Cardinality(ran) = 1 /\ p.rand = r /\ \A i \in ran : SumF(DOMAIN p.hists[i].h, p.hists[i].h) = r, "panel-random-number")
          \cup Need(\A i \in ran : BarsOf(p.hists[i], out, D[rep], r = Cardinality(out)), "panel-random-outside")
          \cup LET slack == IF s.ints[e.scaled + 1] = <<>> THEN 2 ELSE 0
                   fewest == Cardinality({x \in out : D[rep][x] < most - slack})
                   fewer == Cardinality({x \in out : D[rep][x] < most + slack}) IN
               Need(/\ p.both <= fewer /\ p.both >= fewest - (Cardinality(out) - r)
                    /\ \A i \in ran : LET h == p.hists[i] IN
                         /\ p.both >= SumF({j \in DOMAIN h.h : h.e[j + 1] < most - 2}, h.h)
                         /\ p.both <= SumF({j \in DOMAIN h.h : h.e[j] < most + 2}, h.h), "panel-random-nearer"))
Most2(S) == IF S = {} THEN 0 ELSE CHOOSE v \in S : \A y \in S : y <= v
(* the axis reaches the largest distance shown, and not farther *)
AxisBad(p, low, top) == IF top <= 0 THEN {} ELSE Need(Close(p.xlim[1], 0, 1) /\ p.xlim[2] >= low - 2 /\ p.xlim[2] <= top + 2, "panel-axis")
Shown(p, f(_)) == {f(p.hists[i]) : i \in {j \in DOMAIN p.hists : p.hists[j].rnd = 1}}
TopOf(s, e, p, M, rep) == Most2({Dist(s, e)[rep][x] : x \in M} \cup Shown(p, LAMBDA h : h.top))
LowOf(s, e, p, M, rep) == Most2({Dist(s, e)[rep][x] : x \in M} \cup Shown(p, LAMBDA h : h.low))
VarBad(s, e) ==
  LET C == Cl(s, e) IN
  IF e.ok = 0 THEN {"variance-failed"}
  ELSE IF ~OnceEach([i \in DOMAIN e.figs |-> e.figs[i].c], Len(C)) THEN {"variance-figures"}
  ELSE UNION {LET f == e.figs[x]  c == C[f.c]  k == Len(c.rep)  place(i) == Panel(k, s.w.X, s.w.Y, i)
                  at == [i \in 1..k |-> {j \in DOMAIN f.panels : <<f.panels[j].row, f.panels[j].col>> = place(i)}] IN
         IF ~(/\ <<f.rows, f.cols>> = Grid(k, s.w.X, s.w.Y) /\ Len(f.panels) = k
              /\ \A i \in 1..k : Cardinality(at[i]) = 1) THEN {"variance-panels"}
         ELSE LET panel == [i \in 1..k |-> f.panels[CHOOSE j \in at[i] : TRUE]]
                  top == Most2({TopOf(s, e, panel[i], Members(c, i), c.rep[i]) : i \in 1..k})
                  low == Most2({LowOf(s, e, panel[i], Members(c, i), c.rep[i]) : i \in 1..k}) IN
              Need(f.rnd = e.random, "variance-name")
              \cup UNION {PanelBad(s, e, panel[i], Members(c, i), c.rep[i], e.random) \cup AxisBad(panel[i], low, top) : i \in 1..k} : x \in DOMAIN e.figs}
WholeBad(s, e) ==
  IF e.ok = 0 THEN {"whole-failed"}
  ELSE IF Len(e.figs) # 1 THEN {"whole-figures"}
  ELSE PanelBad(s, e, e.figs[1], Cells(s), e.p, -1) \cup AxisBad(e.figs[1], LowOf(s, e, e.figs[1], Cells(s), e.p), TopOf(s, e, e.figs[1], Cells(s), e.p))
FStep(s, e) ==
  CASE e.op = "map" -> [st |-> IF e.ok = 1 THEN [s EXCEPT !.files = @ \cup {<<e.file, e.key>>}] ELSE s, bad |-> MapBad(s, e)]
    [] e.op = "sil" -> [st |-> s, bad |-> SilBad(s, e)]
    [] e.op = "legacy" -> [st |-> s, bad |-> LegacyBad(s, e)]
    [] e.op = "dist" -> [st |-> s, bad |-> DistBad(s, e)]
    [] e.op = "scatter" -> [st |-> s, bad |-> ScatterBad(s, e)]
    [] e.op = "var" -> [st |-> s, bad |-> VarBad(s, e)]
    [] e.op = "whole" -> [st |-> s, bad |-> WholeBad(s, e)]
    [] OTHER -> XStep(s, e)
=============================================================================
