------------------------------ MODULE Parallel ------------------------------
(* C22: tasks computed by a pool of worker processes that write into one    *)
(* shared output.  Tasks are handed out in chunks; every worker has its own *)
(* copy of the inputs, taken when it starts.  Whatever the order in which   *)
(* workers take chunks, compute and write, the output is the serial one.    *)
(* Two computations run one after another.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TASKS, WORKERS, CHUNK, RUNS,
          WHOLE,        \* a worker copies the output, changes its own cell and writes everything back
          LOCKED,       \* ... holding the lock from the copy to the end of the writing
          DOUBLE        \* tasks that are handed out (<<>>: each once); a faulty division for comparison
VARIABLES run, queue, todo, got, copy, lock, out, input, done, sched
vars == <<run, queue, todo, got, copy, lock, out, input, done, sched>>
None == -1
Input(r) == [t \in 1..TASKS |-> 10 * r + t]
Value(inp, t) == inp[t] * 7 + t            \* what the task computes from the input
Serial(r) == [t \in 1..TASKS |-> Value(Input(r), t)]
Cut(n) == IF n > TASKS THEN <<>> ELSE [i \in 1..(IF n + CHUNK - 1 > TASKS THEN TASKS - n + 1 ELSE CHUNK) |-> n + i - 1]
RECURSIVE Chunks(_)
Chunks(n) == IF n > TASKS THEN <<>> ELSE <<Cut(n)>> \o Chunks(n + CHUNK)
Handed == IF DOUBLE = <<>> THEN Chunks(1) ELSE <<DOUBLE>> \o Chunks(1)
Fresh(r) == /\ queue = Handed /\ todo = [w \in WORKERS |-> <<>>] /\ got = [w \in WORKERS |-> None]
            /\ copy = [w \in WORKERS |-> <<>>] /\ lock = 0 /\ out = [t \in 1..TASKS |-> 0]
            /\ input = [w \in WORKERS |-> Input(r)] /\ done = [t \in 1..TASKS |-> 0]
Init == run = 1 /\ Fresh(1) /\ sched = <<>>
Step(w) == sched' = Append(sched, w)
Take(w) == /\ todo[w] = <<>> /\ got[w] = None /\ queue # <<>>
           /\ todo' = [todo EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
           /\ Step(w) /\ UNCHANGED <<run, got, copy, lock, out, input, done>>
Compute(w) == /\ todo[w] # <<>> /\ got[w] = None
              /\ got' = [got EXCEPT ![w] = Value(input[w], Head(todo[w]))]
              /\ Step(w) /\ UNCHANGED <<run, queue, todo, copy, lock, out, input, done>>
Finish(w, o) == /\ out' = o /\ done' = [done EXCEPT ![Head(todo[w])] = @ + 1]
                /\ todo' = [todo EXCEPT ![w] = Tail(@)] /\ got' = [got EXCEPT ![w] = None]
WriteCell(w) == /\ ~WHOLE /\ got[w] # None
                /\ Finish(w, [out EXCEPT ![Head(todo[w])] = got[w]])
                /\ Step(w) /\ UNCHANGED <<run, queue, copy, lock, input>>
CopyAll(w) == /\ WHOLE /\ got[w] # None /\ copy[w] = <<>> /\ (LOCKED => lock = 0)
              /\ copy' = [copy EXCEPT ![w] = out] /\ lock' = w
              /\ Step(w) /\ UNCHANGED <<run, queue, todo, got, out, input, done>>
WriteAll(w) == /\ WHOLE /\ copy[w] # <<>>
               /\ Finish(w, [copy[w] EXCEPT ![Head(todo[w])] = got[w]])
               /\ copy' = [copy EXCEPT ![w] = <<>>] /\ lock' = 0
               /\ Step(w) /\ UNCHANGED <<run, queue, input>>
AllDone == queue = <<>> /\ \A w \in WORKERS : todo[w] = <<>>
\* the second computation starts with an output and workers of its own
Again == /\ AllDone /\ run < RUNS /\ run' = run + 1
         /\ queue' = Handed /\ out' = [t \in 1..TASKS |-> 0] /\ input' = [w \in WORKERS |-> Input(run + 1)]
         /\ done' = [t \in 1..TASKS |-> 0] /\ UNCHANGED <<todo, got, copy, lock, sched>>
Next == Again \/ \E w \in WORKERS : Take(w) \/ Compute(w) \/ WriteCell(w) \/ CopyAll(w) \/ WriteAll(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoDouble == <<>>
View == <<run, queue, todo, got, copy, lock, out, input, done>>

SerialResult == AllDone => out = Serial(run)
PartialOwn == \A t \in 1..TASKS : out[t] \in {0, Serial(run)[t]}
OnceEach == \A t \in 1..TASKS : done[t] <= 1 /\ (AllDone => done[t] = 1)
InputsKept == \A w \in WORKERS : input[w] = Input(run)
Terminates == <>(AllDone /\ run = RUNS)
(* schedules for the conformance driver: the workers in the order of their steps *)
GenSchedule == (AllDone /\ run = RUNS) => PrintT("GEN " \o ToJson([sched |-> sched]))
=============================================================================
