------------------------------ MODULE Training ------------------------------
(* C13: how models come to be.  A region of N points, each with a series of *)
(* L samples, is split into training samples and the last tl test samples;  *)
(* models are trained on the training samples of the representatives only;  *)
(* every point gets the model of the representative of its own cluster;     *)
(* the errors are measured against the test samples; the models for future  *)
(* forecasts are refitted on the whole series with the settings found in    *)
(* training.                                                                *)
(*                                                                          *)
(* The design is checked by self-composition: two data sets that differ in  *)
(* one sample run through the same training side by side, and the invariant *)
(* says exactly which answers may differ.                                   *)
EXTENDS Models

CONSTANTS N, L, MaxV, FailMods, RefitKinds
VARIABLES d,        \* d[1], d[2]: the two data sets
          w,        \* <<p, i>>: where they differ
          cfg,      \* [tl, lab, rep, fm, rf]
          ph,       \* phase
          tr, te, mr, mt, er, wh    \* per run: training part, test part, models at representatives,
                                    \* replicated models, errors, refitted models
vars == <<d, w, cfg, ph, tr, te, mr, mt, er, wh>>
Runs == 1..2
Pts == 1..N
Serieses == [1..L -> 0..MaxV]
Both(F(_)) == [r \in Runs |-> F(r)]
Nothing == [r \in Runs |-> <<>>]

Init ==
  /\ ph = "split"
  /\ tr = Nothing /\ te = Nothing /\ mr = Nothing /\ mt = Nothing /\ er = Nothing /\ wh = Nothing
  /\ \E a \in [Pts -> Serieses], p \in Pts, i \in 1..L, v \in 0..MaxV :
        /\ v # a[p][i]
        /\ w = <<p, i>>
        /\ d = <<a, [a EXCEPT ![p][i] = v]>>
  /\ \E tl \in 1..(L - 1), lab \in [Pts -> 0..1], rep \in [1..2 -> Pts], fm \in FailMods, rf \in RefitKinds :
        /\ \A c \in 0..1 : lab[rep[c + 1]] = c
        /\ cfg = [tl |-> tl, lab |-> lab, rep |-> rep, fm |-> fm, rf |-> rf]

Split == /\ ph = "split" /\ ph' = "train"
         /\ tr' = Both(LAMBDA r : [p \in Pts |-> TrainPart(d[r][p], cfg.tl)])
         /\ te' = Both(LAMBDA r : [p \in Pts |-> TestPart(d[r][p], cfg.tl)])
         /\ UNCHANGED <<d, w, cfg, mr, mt, er, wh>>
TrainReps == /\ ph = "train" /\ ph' = "replicate"
         /\ mr' = Both(LAMBDA r : AtReps(tr[r], {cfg.rep[c] : c \in 1..2}, 1, cfg.fm))
         /\ UNCHANGED <<d, w, cfg, tr, te, mt, er, wh>>
Spread == /\ ph = "replicate" /\ ph' = "measure"
         /\ mt' = Both(LAMBDA r : Replicate(mr[r], cfg.lab, cfg.rep))
         /\ UNCHANGED <<d, w, cfg, tr, te, mr, er, wh>>
ErrAt(m, test) == LET f == Forecast(m, Len(test)) IN
                  IF m.ok = 0 THEN Undefined ELSE SqSum([j \in DOMAIN test |-> f[j] - test[j]])
Measure == /\ ph = "measure" /\ ph' = "refit"
         /\ er' = Both(LAMBDA r : [p \in Pts |-> ErrAt(mt[r][p], te[r][p])])
         /\ UNCHANGED <<d, w, cfg, tr, te, mr, mt, wh>>
RefitWhole == /\ ph = "refit" /\ ph' = "done"
         /\ wh' = Both(LAMBDA r : Replicate(RefitAll(mr[r], d[r], 1, cfg.fm, cfg.rf), cfg.lab, cfg.rep))
         /\ UNCHANGED <<d, w, cfg, tr, te, mr, mt, er>>
Done == ph = "done" /\ UNCHANGED vars
Next == Split \/ TrainReps \/ Spread \/ Measure \/ RefitWhole \/ Done
Spec == Init /\ [][Next]_vars

RepOf(p) == cfg.rep[cfg.lab[p] + 1]
InTest(i) == i > L - cfg.tl
SplitKeepsAll == ph = "train" => \A r \in Runs, p \in Pts : tr[r][p] \o te[r][p] = d[r][p] /\ Len(te[r][p]) = cfg.tl
OnlyRepresentatives == ph = "replicate" => \A r \in Runs, p \in Pts :
    mr[r][p].ok = 1 => p \in {cfg.rep[c] : c \in 1..2}
(* a training model changes only with a training sample of its own representative *)
TrainNonInterference == ph = "done" => \A p \in Pts :
    mt[1][p] # mt[2][p] => (w[1] = RepOf(p) /\ ~InTest(w[2]))
(* a refitted model changes only with samples of its own representative *)
WholeNonInterference == ph = "done" => \A p \in Pts : wh[1][p] # wh[2][p] => w[1] = RepOf(p)
(* an error changes only with those or with a test sample of the point itself *)
ErrorNonInterference == ph = "done" => \A p \in Pts :
    er[1][p] # er[2][p] => \/ w[1] = RepOf(p) /\ ~InTest(w[2])
                           \/ w[1] = p /\ InTest(w[2])
(* the settings of the refitted models are those found in training *)
SettingsKept == (ph = "done" /\ cfg.rf = 1) => \A r \in Runs, p \in Pts :
    wh[r][p].ok = 1 => (mt[r][p].ok = 1 /\ wh[r][p].ord = mt[r][p].ord)
(* one model per cluster, and a failure stays in its own cluster *)
ClusterWide == ph = "done" => \A r \in Runs, p, q \in Pts :
    cfg.lab[p] = cfg.lab[q] => mt[r][p] = mt[r][q] /\ wh[r][p] = wh[r][q]
FailureContained == ph = "done" => \A r \in Runs, p \in Pts :
    (mt[r][p].ok = 0) = Fails(tr[r][RepOf(p)], cfg.fm)
=============================================================================
