------------------------------- MODULE Models -------------------------------
(* What a trained model and a solver answer are (C13, C15, C16, C17).       *)
(*                                                                          *)
(* The abstract model is a fingerprint of the whole series it was trained   *)
(* with (Sig), so that any change of a sample it should not have seen, or   *)
(* any sample it should have seen but did not, changes its forecasts.  The  *)
(* conformance drivers use a trainer with the same fingerprint.             *)
EXTENDS SeriesMath, SequencesExt, TLC

Undefined == 2000000001     \* "not a number" in observations

Sig(s) == FoldLeft(LAMBDA acc, v : (acc * 31 + v + 7) % 9973, 1, s)
NoModel == [ok |-> 0, sig |-> 0, ord |-> 0]
\* a trainer that cannot train on some series
Fails(s, fm) == fm > 0 /\ Sig(s) % fm = 0
\* training finds settings (ord) from the parameters and the series
Fit(s, par, fm) == IF par < 0 \/ Fails(s, fm) THEN NoModel
                   ELSE LET g == Sig(s) IN [ok |-> 1, sig |-> g, ord |-> ((g + par) % 3)]
Refit(m, s, fm) == IF m.ok = 0 \/ Fails(s, fm) THEN NoModel ELSE [ok |-> 1, sig |-> Sig(s), ord |-> m.ord]
Forecast(m, len) == [j \in 1..len |-> IF m.ok = 1 THEN 1 + ((m.sig * j + m.ord * 11 + j * j) % 89) ELSE Undefined]

TrainPart(s, tl) == SubSeq(s, 1, Len(s) - tl)
TestPart(s, tl) == SubSeq(s, Len(s) - tl + 1, Len(s))

\* models at the representatives only
AtReps(data, reps, par, fm) == [p \in DOMAIN data |-> IF p \in reps THEN Fit(data[p], par, fm) ELSE NoModel]
\* the model of the representative of the own cluster
Replicate(models, lab, rep) == [p \in DOMAIN lab |-> models[rep[lab[p] + 1]]]
\* with rf = 1 the trainer refits the settings found; with rf = 0 it trains again
RefitAll(models, data, par, fm, rf) ==
  [p \in DOMAIN data |-> IF rf = 1 THEN Refit(models[p], data[p], fm) ELSE Fit(data[p], par, fm)]


----------------------------------------------------------------------------
(* A solver of a world w (data of the study region, integers) with settings *)
(* s = [scaled, tl, par, fm, rf, err, lab, rep].  Observed numbers are in   *)
(* units of 1/U of the original unit; scaled data is exact in that unit     *)
(* because the range of every series is zero or a power of two up to U.     *)
U == 64
Lo(w, p) == FoldLeft(Min2, w.data[p][1], w.data[p])
Hi(w, p) == FoldLeft(Max2, w.data[p][1], w.data[p])
Rg(w, p) == Hi(w, p) - Lo(w, p)
Series(w, s, p) ==      \* what the trainer is given
  IF s.scaled = 0 THEN [i \in DOMAIN w.data[p] |-> w.data[p][i] * U]
  ELSE LET lo == Lo(w, p)  rg == Rg(w, p) IN
       IF rg = 0 THEN [i \in DOMAIN w.data[p] |-> 0] ELSE [i \in DOMAIN w.data[p] |-> ((w.data[p][i] - lo) * U) \div rg]
\* a forecast of the models, in original units at the point
Original(w, s, p, f) ==
  IF f = Undefined THEN Undefined
  ELSE IF s.scaled = 0 THEN f ELSE f * Rg(w, p) + U * Lo(w, p)
Clusters(s) == DOMAIN s.rep
TrainingModels(w, s) == [c \in Clusters(s) |-> Fit(TrainPart(Series(w, s, s.rep[c]), s.tl), s.par, s.fm)]
WholeModels(w, s, tm) == [c \in Clusters(s) |->
     IF s.rf = 1 THEN Refit(tm[c], Series(w, s, s.rep[c]), s.fm) ELSE Fit(Series(w, s, s.rep[c]), s.par, s.fm)]
ClusterOf(s, p) == s.lab[p] + 1
AnswerSeries(w, s, models, p, len) ==
  LET f == Forecast(models[ClusterOf(s, p)], len) \o <<>> IN [j \in 1..len |-> Original(w, s, p, f[j])] \o <<>>
Observed(w, s, p) == [j \in 1..s.tl |-> U * w.data[p][Len(w.data[p]) - s.tl + j]]
(* the error e (in units of 1/U) is that of forecast f against observation o *)
SumAbs(f, o) == SumSeq([j \in DOMAIN o |-> Abs(f[j] - o[j])])
SumSq(f, o) == SumSeq([j \in DOMAIN o |-> Sq(f[j] - o[j])])
Steps(t) == FoldLeft(LAMBDA acc, i : acc + Abs(t[i] - t[i - 1]), 0, [i \in 1..(Len(t) - 1) |-> i + 1])
ErrorIs(e, kind, f, o, train) ==
  IF Undefined \in {f[j] : j \in DOMAIN f} THEN e = Undefined
  ELSE CASE kind = "MSE" -> Abs(e * U * Len(o) - SumSq(f, o)) <= U * Len(o)
         [] kind = "MASE" -> LET sd == Steps(train) IN
               IF sd = 0 THEN e \in {2000000001, 2000000002}
               ELSE Abs(e * Len(o) * sd - SumAbs(f, o) * (Len(train) - 1)) <= Len(o) * sd
         [] kind = "sMAPE" -> LET q == SumSeq([j \in DOMAIN o |-> (200 * U * Abs(f[j] - o[j])) \div (f[j] + o[j])]) IN
               e * Len(o) >= q - Len(o) /\ e * Len(o) <= q + 2 * Len(o)
         [] OTHER -> FALSE
ErrorAt(w, s, tm, p, e) ==
  ErrorIs(e, s.err, AnswerSeries(w, s, tm, p, s.tl), Observed(w, s, p), TrainPart(w.data[p], s.tl))
(* how far the held-out series of an area are from those of the representatives of its
   clusters: the distances to each representative are added, then the root of the mean of
   the squares over the representatives.  Distances in hundredths of Base (1, or 1/64 if scaled) *)
RECURSIVE RootBetween(_, _, _)
RootBetween(q, lo, hi) ==      \* the greatest r in lo..hi with r * r <= q
  IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid <= q \div mid THEN RootBetween(q, mid, hi) ELSE RootBetween(q, lo, mid - 1)
Root(q) == RootBetween(q, 0, 46340)
BaseTest(w, s, p) == LET t == TestPart(Series(w, s, p), s.tl) IN IF s.scaled = 1 THEN t ELSE [j \in DOMAIN t |-> t[j] \div U]
DistanceToRep(w, s, area, m) == SumF(area, [p \in area |-> Root(10000 * DTW2(BaseTest(w, s, m), BaseTest(w, s, p)))])
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* r: what was written, in hundredths *)
DistanceToRepsIs(w, s, area, r) ==
  LET C == {s.lab[p] : p \in area}
      d == [c \in C |-> DistanceToRep(w, s, area, s.rep[c + 1])]
      m == MaxOf({d[c] : c \in C}) \div 16000 + 1
      rms == Root(SumF(C, [c \in C |-> Sq(d[c] \div m)]) \div Cardinality(C))
      want == rms * m
      tol == Cardinality(area) + 3 * m + 1 IN
  r < 2000000000 /\ (IF s.scaled = 1 THEN Abs(r * U - want) <= tol + U ELSE Abs(r - want) <= tol + 1)
=============================================================================
