------------------------------- MODULE Solver -------------------------------
(* C15, C16, C17: solvers that answer queries, are saved and loaded again,  *)
(* and write reports.  Settings identify a solver; everything a solver      *)
(* answers is a function of its settings and of the question.  The design   *)
(* keeps files by path, the way the store does, and is checked against that *)
(* function for every order of training, saving, loading, losing stored     *)
(* partitions and asking.                                                   *)
EXTENDS Models

CONSTANTS RGS, CLS, PARS, TLS, ERRS, TFS, DEPTH,
          WholeNamedByTl        \* is the held-out length part of the name of the refitted models?
VARIABLES files, mem, saved, ret, rep, steps
vars == <<files, mem, saved, ret, rep, steps>>
All == [rg : RGS, cl : CLS, pa : PARS, tl : TLS, err : ERRS]

(* what each computation depends on *)
PartOf(s) == <<"part", s.rg, s.cl>>
TrainOf(s) == <<"train", s.rg, s.cl, s.pa, s.tl>>
WholeOf(s) == <<"whole", s.rg, s.cl, s.pa, s.tl>>      \* refitted with the settings found in training
ErrOf(s) == <<"err", s.rg, s.cl, s.pa, s.tl, s.err>>
Solver(s) == [part |-> PartOf(s), train |-> TrainOf(s), whole |-> WholeOf(s), err |-> ErrOf(s)]
(* the answer to question tf (0: held-out samples) *)
Answer(s, tf) == [models |-> IF tf = 0 THEN TrainOf(s) ELSE WholeOf(s), part |-> PartOf(s), err |-> ErrOf(s),
                  len |-> IF tf = 0 THEN s.tl ELSE tf, test |-> IF tf = 0 THEN s.tl ELSE 0]
(* files *)
Dir(s) == s.rg \o "/" \o s.cl \o "/"
PPart(s) == Dir(s) \o "partition"
PTrain(s) == Dir(s) \o "models__" \o s.pa \o "__tp" \o ToString(s.tl)
PWhole(s) == Dir(s) \o "models__" \o s.pa \o "__whole" \o (IF WholeNamedByTl THEN "__tp" \o ToString(s.tl) ELSE "")
PErr(s) == Dir(s) \o "errors__" \o s.pa \o "__tp" \o ToString(s.tl) \o "__" \o s.err
PReport(s, tf) == Dir(s) \o s.pa \o "/query__tp" \o ToString(s.tl) \o "__tf" \o (IF tf = 0 THEN "_is" ELSE ToString(tf)) \o "__" \o s.err
Put(f, p, v) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN v ELSE f[x]]
Without(f, p) == [x \in DOMAIN f \ {p} |-> f[x]]

Init == files = <<>> /\ mem = {} /\ saved = {} /\ ret = <<>> /\ rep = {} /\ steps = 0
(* an object in memory: the settings asked for and what it holds *)
Train(s) == LET part == IF PPart(s) \in DOMAIN files THEN files[PPart(s)] ELSE PartOf(s) IN
            /\ files' = Put(files, PPart(s), part)
            /\ mem' = mem \cup {[of |-> s, has |-> [Solver(s) EXCEPT !.part = part]]}
            /\ UNCHANGED <<saved, ret, rep>>
Save(m) == /\ files' = Put(Put(Put(files, PTrain(m.of), m.has.train), PWhole(m.of), m.has.whole), PErr(m.of), m.has.err)
           /\ saved' = saved \cup {m.of}
           /\ UNCHANGED <<mem, ret, rep>>
CanLoad(s) == {PTrain(s), PWhole(s), PErr(s)} \subseteq DOMAIN files
Load(s) == /\ CanLoad(s)
           /\ LET part == IF PPart(s) \in DOMAIN files THEN files[PPart(s)] ELSE PartOf(s) IN
              /\ mem' = mem \cup {[of |-> s, has |-> [part |-> part, train |-> files[PTrain(s)], whole |-> files[PWhole(s)], err |-> files[PErr(s)]]]}
              /\ files' = Put(files, PPart(s), part)
           /\ UNCHANGED <<saved, ret, rep>>
Lose(s) == /\ PPart(s) \in DOMAIN files /\ files' = Without(files, PPart(s)) /\ UNCHANGED <<mem, saved, ret, rep>>
Ask(m, tf) == /\ ret' = <<m.of, tf, [models |-> IF tf = 0 THEN m.has.train ELSE m.has.whole, part |-> m.has.part, err |-> m.has.err,
                                  len |-> IF tf = 0 THEN m.of.tl ELSE tf, test |-> IF tf = 0 THEN m.of.tl ELSE 0]>>
              /\ rep' = rep \cup {<<PReport(m.of, tf), <<m.of, tf>>>>}
              /\ UNCHANGED <<files, mem, saved>>
Next == /\ steps < DEPTH /\ steps' = steps + 1
        /\ \/ \E s \in All : Train(s) \/ Load(s) \/ Lose(s)
           \/ \E m \in mem : Save(m) \/ \E tf \in TFS : Ask(m, tf)
Spec == Init /\ [][Next]_vars
AnswersAsked == ret # <<>> => ret[3] = Answer(ret[1], ret[2])
LoadOnlySaved == \A s \in All : CanLoad(s) = (s \in saved)
LoadedAreTheSaved == \A m \in mem : m.has = Solver(m.of)
ReportsApart == \A a, b \in rep : a[1] = b[1] => a[2] = b[2]
=============================================================================
