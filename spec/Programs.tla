------------------------------ MODULE Programs ------------------------------
(* C25: the solver programs. Every run is a process of its own: it knows    *)
(* only its command line and the files of earlier (or concurrent) runs. A   *)
(* training run stores, step by step, the partition, the training models,   *)
(* the refitted models and the errors of its options; a query run reads     *)
(* them, step by step, answers and writes a report. Options that are not    *)
(* given have their default, and some options mean nothing for others (the  *)
(* seed of a regular partition).                                            *)
EXTENDS Models

CONSTANTS REGS, KINDS, KSS, SEEDOPTS, TPOPTS, ERROPTS, TFOPTS, PROCS, RUNS,
          SeedInName           \* is the seed part of the names?
VARIABLES store, procs, runs, done, reports
vars == <<store, procs, runs, done, reports>>
Absent == 99
Options == [rg : REGS, kind : KINDS, k : KSS, seed : SEEDOPTS, tp : TPOPTS, err : ERROPTS]
Default(v, d) == IF v = Absent THEN d ELSE v
Effective(o) == [rg |-> o.rg, kind |-> o.kind, k |-> o.k,
                 seed |-> IF o.kind = "regular" THEN 0 ELSE Default(o.seed, 1),
                 tp |-> Default(o.tp, 8), err |-> Default(o.err, 3)]
(* names of files: what they are made of *)
SeedPart(e) == IF SeedInName THEN e.seed ELSE 0
Parts == <<"part", "train", "whole", "err">>
Name(e, what) == CASE what = "part" -> <<what, e.rg, e.kind, e.k, SeedPart(e)>>
                   [] what = "train" -> <<what, e.rg, e.kind, e.k, SeedPart(e), e.tp>>
                   [] what = "whole" -> <<what, e.rg, e.kind, e.k, SeedPart(e), e.tp>>
                   [] what = "err" -> <<what, e.rg, e.kind, e.k, SeedPart(e), e.tp, e.err>>
Needs(e, what) == CASE what = "part" -> [e EXCEPT !.tp = 0, !.err = 0]
                    [] what = "train" -> [e EXCEPT !.err = 0]
                    [] what = "whole" -> [e EXCEPT !.err = 0]
                    [] what = "err" -> e
Report(e, tf) == <<e.rg, e.kind, e.k, SeedPart(e), e.tp, e.err, tf>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Idle == [what |-> "idle", o |-> [rg |-> 0], at |-> 0, got |-> <<>>, tf |-> 0, known |-> FALSE]

Init == store = <<>> /\ procs = [p \in PROCS |-> Idle] /\ runs = 0 /\ done = {} /\ reports = <<>>
Launch(p) == /\ procs[p].what = "idle" /\ runs < RUNS /\ runs' = runs + 1
             /\ \E o \in Options, w \in {"train", "predict"}, tf \in TFOPTS :
                  procs' = [procs EXCEPT ![p] = [what |-> w, o |-> o, at |-> 1, got |-> <<>>, tf |-> IF w = "train" THEN 0 ELSE tf,
                                               known |-> Effective(o) \in done]]
             /\ UNCHANGED <<store, done, reports>>
TrainStep(p) == LET q == procs[p]  e == Effective(q.o) IN
  /\ q.what = "train" /\ q.at <= 4
  /\ store' = Put(store, Name(e, Parts[q.at]), Needs(e, Parts[q.at]))
  /\ procs' = [procs EXCEPT ![p].at = @ + 1] /\ UNCHANGED <<runs, done, reports>>
TrainEnd(p) == LET q == procs[p] IN
  /\ q.what = "train" /\ q.at = 5
  /\ done' = done \cup {Effective(q.o)}
  /\ procs' = [procs EXCEPT ![p] = Idle] /\ UNCHANGED <<store, runs, reports>>
ReadStep(p) == LET q == procs[p]  e == Effective(q.o) IN
  /\ q.what = "predict" /\ q.at <= 4
  /\ IF Name(e, Parts[q.at]) \in DOMAIN store
     THEN procs' = [procs EXCEPT ![p].at = @ + 1, ![p].got = Append(@, store[Name(e, Parts[q.at])])]
     ELSE procs' = [procs EXCEPT ![p].what = "failed"]
  /\ UNCHANGED <<store, runs, done, reports>>
Answer(p) == LET q == procs[p]  e == Effective(q.o) IN
  /\ q.what = "predict" /\ q.at = 5
  /\ reports' = Put(reports, Report(e, q.tf), [of |-> e, tf |-> q.tf, got |-> q.got])
  /\ procs' = [procs EXCEPT ![p].what = "answered"] /\ UNCHANGED <<store, runs, done>>
Exit(p) == procs[p].what \in {"answered", "failed"} /\ procs' = [procs EXCEPT ![p] = Idle] /\ UNCHANGED <<store, runs, done, reports>>
Next == \E p \in PROCS : Launch(p) \/ TrainStep(p) \/ TrainEnd(p) \/ ReadStep(p) \/ Answer(p) \/ Exit(p)
Spec == Init /\ [][Next]_vars /\ \A p \in PROCS : WF_vars(TrainStep(p) \/ TrainEnd(p) \/ ReadStep(p) \/ Answer(p) \/ Exit(p))

Right(e, got) == got = [i \in 1..4 |-> Needs(e, Parts[i])]
(* whatever else runs, what is answered is what was asked *)
AnswersAsked == \A p \in PROCS : procs[p].what = "answered" => Right(Effective(procs[p].o), procs[p].got)
ReportsSay == \A r \in DOMAIN reports : Right(reports[r].of, reports[r].got) /\ r = Report(reports[r].of, reports[r].tf)
(* a query of options that were trained before it started does not fail *)
TrainedServes == \A p \in PROCS : procs[p].what = "failed" => ~procs[p].known
(* with complete files, an answer exists only for options some run stored *)
NotFromNowhere == \A p \in PROCS : procs[p].what = "answered" =>
   \A i \in 1..4 : \E x \in DOMAIN store : store[x] = Needs(Effective(procs[p].o), Parts[i])
Ends == \A p \in PROCS : procs[p].what # "idle" ~> procs[p].what = "idle"
=============================================================================
