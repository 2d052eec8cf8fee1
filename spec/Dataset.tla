------------------------------- MODULE Dataset -------------------------------
(* Retrieval of years of the dataset: calendar arithmetic, and the saved    *)
(* copies (one per name, range of years and samples per day).               *)
(* An array of samples is described without loss by its runs: day d of the  *)
(* source holds the four samples 8d, 8d+1, 8d+2, 8d+5 (daily mean 8d+2), so *)
(* consecutive days form one run [from, days, pattern].                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS FIRST, LAST,        \* years in the source
          DYEARS, DEPTH       \* explored by the design check

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
(* days between 1 January of year a and 1 January of year b *)
LeapsBefore(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
DaysBetween(a, b) == 365 * (b - a) + LeapsBefore(b) - LeapsBefore(a)
SeriesInterval(ys, ye, first, spd) == <<spd * DaysBetween(first, ys), spd * DaysBetween(first, ye + 1)>>
ValidYears(ys, ye) == FIRST <= ys /\ ys <= ye /\ ye <= LAST
ValidSpd(spd) == spd \in {1, 4}

Pattern == <<0, 1, 2, 5>>
(* the samples of the years ys..ye, as runs *)
Content(ys, ye, spd) ==
  LET d0 == DaysBetween(FIRST, ys)  n == DaysBetween(ys, ye + 1) IN
  IF spd = 4 THEN <<[from |-> 8 * d0, days |-> n, pat |-> Pattern]>>
  ELSE <<[from |-> 8 * d0 + 2, days |-> n, pat |-> <<0>>]>>
(* averaging an array of four samples per day *)
Averaged(runs) == [i \in DOMAIN runs |-> [from |-> runs[i].from + 2, days |-> runs[i].days, pat |-> <<0>>]]

(* the state of the store: good and bad are sets of keys, src the presence of the source *)
NewStore == [good |-> {}, bad |-> {}, src |-> TRUE]
Key(name, ys, ye, spd) == <<name, ys, ye, spd>>
RetrieveOutcome(s, k, ys, ye, spd) ==
  IF ~ValidSpd(spd) THEN [ok |-> 0, s |-> s]
  ELSE IF k \in s.good THEN [ok |-> 1, s |-> s]
  ELSE IF s.src /\ ValidYears(ys, ye) THEN [ok |-> 1, s |-> [s EXCEPT !.good = @ \cup {k}, !.bad = @ \ {k}]]
  ELSE [ok |-> 0, s |-> s]
DeleteCopy(s, k) == [s EXCEPT !.good = @ \ {k}, !.bad = @ \ {k}]
CorruptCopy(s, k) == IF k \in s.good \cup s.bad THEN [s EXCEPT !.good = @ \ {k}, !.bad = @ \cup {k}] ELSE s

----------------------------------------------------------------------------
(* design check: an implementation that keeps files, against the store above *)
VARIABLES store, files, ret, steps
vars == <<store, files, ret, steps>>
Requests == {<<ys, ye, spd>> : ys \in DYEARS, ye \in DYEARS, spd \in {1, 4}}
Garbage == <<>>
None == [ok |-> 2, runs |-> <<>>, req |-> <<0, 0, 0>>]
Init == store = NewStore /\ files = <<>> /\ ret = None /\ steps = 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Extract(ys, ye, spd) ==      \* cut four samples per day, then average
  LET c == Content(ys, ye, 4) IN IF spd = 4 THEN c ELSE Averaged(c)
Retrieve(q) ==
  LET k == Key("a", q[1], q[2], q[3])
      o == RetrieveOutcome(store, k, q[1], q[2], q[3])
      hit == k \in DOMAIN files /\ files[k] # Garbage
      can == store.src /\ ValidYears(q[1], q[2])
  IN /\ store' = o.s
     /\ ret' = [ok |-> IF hit \/ can THEN 1 ELSE 0, req |-> q,
                runs |-> IF hit THEN files[k] ELSE IF can THEN Extract(q[1], q[2], q[3]) ELSE <<>>]
     /\ files' = IF ~hit /\ can THEN Put(files, k, Extract(q[1], q[2], q[3])) ELSE files
Delete(q) == LET k == Key("a", q[1], q[2], q[3]) IN
   /\ store' = DeleteCopy(store, k) /\ files' = [x \in DOMAIN files \ {k} |-> files[x]] /\ ret' = None
Corrupt(q) == LET k == Key("a", q[1], q[2], q[3]) IN
   /\ store' = CorruptCopy(store, k) /\ files' = (IF k \in DOMAIN files THEN Put(files, k, Garbage) ELSE files) /\ ret' = None
Source == store' = [store EXCEPT !.src = ~@] /\ ret' = None /\ UNCHANGED files
Next == /\ steps < DEPTH /\ steps' = steps + 1
        /\ \/ \E q \in Requests : Retrieve(q) \/ Delete(q) \/ Corrupt(q)
           \/ Source
Spec == Init /\ [][Next]_vars
ResultRight == ret.ok = 1 => ret.runs = Content(ret.req[1], ret.req[2], ret.req[3]) /\ ValidYears(ret.req[1], ret.req[2])
StoreMatches == {k \in DOMAIN files : files[k] # Garbage} = store.good /\ {k \in DOMAIN files : files[k] = Garbage} = store.bad
(* the calendar: each year directly follows the previous one *)
Calendar == \A a \in DYEARS : /\ DaysBetween(a, a + 1) = IF Leap(a) THEN 366 ELSE 365
                              /\ \A b \in DYEARS : DaysBetween(FIRST, a) + DaysBetween(a, b) = DaysBetween(FIRST, b)
=============================================================================
