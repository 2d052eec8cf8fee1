------------------------------ MODULE T_Errors ------------------------------
(* Recorded error analyses of real regions.                                 *)
EXTENDS Errors, TraceLib

XStart == [g |-> <<>>, cur |-> 0, tl |-> 0]
Region(e) == [obs |-> e.obs, train |-> e.train, lo |-> e.lo, rg |-> e.rg]
Sig(s) == FoldLeft(LAMBDA acc, v : (acc * 31 + v + 7) % 9973, 1, s)
(* the models of the trainer used by the driver: fingerprints of the series
   they were given, in units of 1/V *)
Given(R, q) == IF R.rg = <<>> THEN R.train[q]
               ELSE [j \in DOMAIN R.train[q] |-> IF R.rg[q] = 0 THEN 0 ELSE (R.train[q][j] - V * R.lo[q]) \div R.rg[q]]
ModelForecast(R, q, len, fm) ==
  LET g == Sig(Given(R, q)) IN
  [j \in 1..len |-> IF fm > 0 /\ g % fm = 0 THEN Undef
                    ELSE IF R.rg = <<>> THEN V * ((g * j + j * j) % 31) ELSE (g * j + j * j) % 21]
SameMap(es, m) == DOMAIN es = DOMAIN m /\ \A q \in DOMAIN m : IsErr(es[q], m[q])
EachBad(e, kind, R, fcs) ==
  LET m == ErrMap(kind, R, fcs) IN
  Need(SameMap(e.map, m), "errors") \cup (IF SameMap(e.map, m) THEN Need(IsOverall(e.total, m), "overall") ELSE {})
AllBad(es, kind, R, fcs) ==
  Need(Len(es) = Len(R.obs) /\ \A p \in DOMAIN es :
        IF \A j \in DOMAIN fcs[p] : fcs[p][j] = Undef THEN es[p] = Undef
        ELSE IsOverall(es[p], OverallOf(kind, R, fcs[p])), "representatives")
(* errors of the same data and forecasts in another unit: by how much they
   differ, in 10^-9, from what the change of unit makes of them *)
UnitBad(e) == Need(\A q \in DOMAIN e.unit : e.unit[q] <= 10, "same-in-any-unit")
Finite(es) == {p \in DOMAIN es : es[p] < 2000000000}
(* the summary of an analysis: each, minimum, minlocal, centroid, maximum;
   all: the map of representatives *)
SummaryBad(e, kind, R, fcs) ==
  LET own == ErrMap(kind, R, fcs)
      F == Finite(e.all)
      inf == {p \in DOMAIN e.all : e.all[p] = Infin}
      L == Finite(own)
      best == {p \in L : \A q \in L : own[p] <= own[q] + 2} IN
  Need(IsOverall(e.each, own), "summary-each")
  \cup (IF F = {} \/ L = {} THEN {} ELSE
     Need((\E p \in F : e.all[p] = e.minimum) /\ (\A p \in F : e.minimum <= e.all[p]), "summary-minimum")
     \cup Need(IF inf # {} THEN e.maximum = Infin
               ELSE (\E p \in F : e.all[p] = e.maximum) /\ (\A p \in F : e.maximum >= e.all[p]), "summary-maximum")
     \cup Need(\E p \in best : e.all[p] = e.minlocal, "summary-locally-best")
     \cup Need(e.centroid = (IF e.cen = 0 THEN Undef ELSE e.all[e.cen]), "summary-centroid"))
XStep(s, e) ==
  CASE e.op = "each" ->        \* the forecast fcs[q] of every member
         [st |-> s, bad |-> IF e.ok = 0 THEN {"refused"} ELSE EachBad(e, e.kind, Region(e), e.fcs)
                              \cup UnitBad(e) \cup Need(e.before = e.after, "inputs-changed")]
    [] e.op = "repeat" ->      \* one forecast for all
         [st |-> s, bad |-> IF e.ok = 0 THEN {"refused"} ELSE EachBad(e, e.kind, Region(e), Repeated(Region(e), e.fcs[1]))
                              \cup UnitBad(e) \cup Need(e.before = e.after, "inputs-changed")]
    [] e.op = "all" ->
         [st |-> s, bad |-> IF e.ok = 0 THEN {"refused"} ELSE AllBad(e.map, e.kind, Region(e), e.fcs)
                              \cup UnitBad(e) \cup Need(e.before = e.after, "inputs-changed")]
    (* an analysis object: regions are introduced, trained on, and asked about *)
    [] e.op = "region" -> [st |-> [s EXCEPT !.g = Append(@, [full |-> e.full, lo |-> e.lo, rg |-> e.rg, fm |-> e.fm])], bad |-> {}]
    [] e.op = "train" -> [st |-> [s EXCEPT !.cur = e.rid, !.tl = e.tl], bad |-> Need(e.ok = 1, "training-failed")]
    [] e.op \in {"aeach", "asingle", "aall", "analyze"} ->
         LET rid == IF e.op = "analyze" THEN e.rid ELSE s.cur
             tl == IF e.op = "analyze" THEN e.len ELSE s.tl
             g == s.g[rid]
             R == [obs |-> [q \in DOMAIN g.full |-> SubSeq(g.full[q], Len(g.full[q]) - tl + 1, Len(g.full[q]))],
                   train |-> [q \in DOMAIN g.full |-> SubSeq(g.full[q], 1, Len(g.full[q]) - tl)], lo |-> g.lo, rg |-> g.rg]
             fcs == [q \in DOMAIN g.full |-> ModelForecast(R, q, tl, g.fm)] IN
         [st |-> IF e.op = "analyze" /\ e.ok = 1 THEN [s EXCEPT !.cur = rid, !.tl = tl] ELSE s,
          bad |-> IF e.op # "analyze" /\ e.len # tl THEN Need(e.ok = 0, "wrong-length-accepted")
                  ELSE IF e.ok = 0 THEN {"refused"}
                  ELSE (CASE e.op = "aeach" -> EachBad(e, e.kind, R, fcs)
                               \cup Need(e.fc = [q \in DOMAIN fcs |-> At(R, q, fcs[q])], "forecasts")
                         [] e.op = "asingle" -> EachBad(e, e.kind, R, Repeated(R, fcs[e.p]))
                         [] e.op = "aall" -> AllBad(e.map, e.kind, R, fcs)
                         [] OTHER -> AllBad(e.all, e.kind, R, fcs) \cup SummaryBad(e, e.kind, R, fcs))
                       \cup Need(e.before = e.after, "inputs-changed")]
    [] e.op = "bad" -> [st |-> s, bad |-> Need(e.ok = 0, "not-refused-" \o e.what)]
    [] OTHER -> Unknown(s, e)
THInit == regs = <<>> /\ cur = 0 /\ cache = 0 /\ ret = <<>> /\ steps = 0 /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
