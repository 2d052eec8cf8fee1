------------------------------ MODULE TraceLib ------------------------------
(* Generic trace acceptance.                                                *)
(*                                                                          *)
(* A trace file (ndjson, path in the environment variable TRACE) holds one  *)
(* recorded session of the real code per line:  {"ev": [e1, e2, ...]}.      *)
(* A subsystem specification supplies                                       *)
(*     TStart       - its initial abstract state                            *)
(*     TStep(st, e) - [st |-> next state, bad |-> set of violated clauses]  *)
(* where TStep re-uses the state functions of the design specification.     *)
(* Every session is an independent initial state, so TLC workers validate   *)
(* sessions in parallel.  The verdict is total: for every session exactly   *)
(* one line TV (violated clauses at an event) or TD (fully accepted).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS TStart, TStep(_, _)

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tsid, tpos, tst, tbad
tvars == <<tsid, tpos, tst, tbad>>

TInit == /\ tsid \in 1..Len(Sessions)
         /\ tpos = 0
         /\ tst = TStart
         /\ tbad = {}

TNext ==
  /\ tbad = {}
  /\ tpos < Len(Sessions[tsid].ev)
  /\ LET e == Sessions[tsid].ev[tpos + 1]
         r == TStep(tst, e)
     IN /\ tst' = r.st
        /\ tbad' = r.bad
        /\ tpos' = tpos + 1
        /\ tsid' = tsid
        /\ IF r.bad # {}
           THEN PrintT("TV " \o ToString(tsid) \o " " \o ToString(tpos + 1) \o " " \o ToString(r.bad))
           ELSE IF tpos + 1 = Len(Sessions[tsid].ev)
                THEN PrintT("TD " \o ToString(tsid))
                ELSE TRUE

TSpec == TInit /\ [][TNext]_tvars

(* clause name c is violated unless b *)
Need(b, c) == IF b THEN {} ELSE {c}

(* a specification-side observation about an event that names no known
   operation is a violation too: nothing is accepted by omission            *)
Unknown(s, e) == [st |-> s, bad |-> {"unknown-event"}]
=============================================================================
