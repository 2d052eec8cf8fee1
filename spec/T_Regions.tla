------------------------------ MODULE T_Regions ------------------------------
(* Conformance of spta.region to Regions.tla.  Each recorded event is one    *)
(* public operation with its result `r`, and the source object `s` observed  *)
(* again after the operation.                                                *)
EXTENDS Regions, TraceLib

S == 10000          \* observed values are round(v * S)
Same(v, n, den) ==
  IF n = NaN THEN v = NaN
  ELSE v \notin {NaN, Inf, NInf, 2000000003} /\ Abs(v * den - n * S) <= den
SameSeq(vs, o, p) == Len(vs) = o.T /\ \A t \in 1..o.T : Same(vs[t], o.d[p][t], o.den[p])

(* full observation of an object against its abstract value *)
Obs(r, o) ==
  LET ms == MemberSeq(o)
      n == Len(ms)
      clean == ~(o.kind = "sp" /\ o.T = 0)
  IN
  Need(r.kind = o.kind, "kind")
  \cup Need(r.shape = <<o.T, o.X, o.Y>>, "shape")
  \cup Need(Len(r.pts) = n /\ \A i \in 1..n : r.pts[i] = <<PtX(o, ms[i]), PtY(o, ms[i])>>, "iter-points")
  \cup Need(Len(r.vals) = n /\ \A i \in 1..n : SameSeq(r.vals[i], o, ms[i]), "iter-values")
  \cup Need(r.again = 1, "iter-repeatable")
  \cup Need(Len(r.at) = N(o) /\ \A p \in Pts(o) :
              IF o.mem[p] THEN r.at[p].ok = 1 /\ SameSeq(r.at[p].v, o, p)
              ELSE r.at[p].ok = 0, "member-access")
  \cup Need(o.kind = "sp" \/ (r.lst = r.vals /\ r.arr = r.vals), "listing")
  \cup Need(o.kind = "st" \/ IsC(o) \/ r.arr = r.vals, "listing")
  \cup Need(o.kind = "sp" \/ (Len(r.idx) = n /\ \A i \in 1..n : r.idx[i] = ms[i] - 1), "indices")
  \cup Need(o.kind = "sp" \/ (r.sc = 1) = o.sc, "scaled-flag")
  \cup Need(o.outer \in {"C", "CS"} => (r.ci = o.cl /\ r.clen = n /\ r.k = o.k), "cluster-kind")
  \cup Need(o.outer \in {"P", "S"} => r.ci = -1, "cluster-kind")

\* data written by save_to: the complete array, members and others
ObsSaved(r, o) == Need(o.outer \in {"P", "S"} =>
     (Len(r.file) = o.T /\ \A t \in 1..o.T : Len(r.file[t]) = N(o) /\
        \A p \in Pts(o) : Same(r.file[t][p], o.d[p][t], o.den[p])), "saved-data")

ObsDisk(r, o) ==
  Need(r.named = 1, "disk-names")
  \cup Need(Len(r.file) = o.T /\ \A t \in 1..o.T : Len(r.file[t]) = N(o) /\
        \A p \in Pts(o) : Same(r.file[t][p], o.d[p][t], o.den[p]), "disk-data")
  \cup Need(o.sc => (Len(r.lo) = N(o) /\ Len(r.hi) = N(o) /\
        \A p \in Pts(o) : Same(r.lo[p], o.lo[p], 1) /\ Same(r.hi[p], o.hi[p], 1)), "disk-minmax")

LessR(o, p, q) == o.d[p][1] * o.den[q] <= o.d[q][1] * o.den[p]
ObsExtrema(r, o) ==
  LET ms == {p \in Members(o) : o.d[p][1] # NaN}
      Is(pt, v, p) == pt = <<PtX(o, p), PtY(o, p)>> /\ Same(v, o.d[p][1], o.den[p])
  IN IF ms = {} THEN Need(r.minp = <<-9, -9>> /\ r.maxp = <<-9, -9>>, "extrema")
     ELSE Need(\E p \in ms : Is(r.minp, r.min, p) /\ \A q \in ms : LessR(o, p, q), "minimum")
          \cup Need(\E p \in ms : Is(r.maxp, r.max, p) /\ \A q \in ms : LessR(o, q, p), "maximum")

\* the per-point function was called exactly once per member, on no other point
ObsCalls(e, o) ==
  Need(e.op \in {"fsca", "fser"} =>
        (Len(e.calls) = Cardinality(Members(o)) /\
         {e.calls[i] : i \in DOMAIN e.calls} = {p - 1 : p \in Members(o)}), "function-calls")

(* Scaling has no unit: the same data in another unit and with another zero  *)
(* (v * unit + base, decoded again by the driver) is scaled to the same      *)
(* values, and undone to the same data.                                      *)
Op(name, i) == [op |-> name, o |-> i, a |-> <<>>, f |-> "", l |-> <<>>]
ObsUnits(e) ==
  LET o == Do(<<>>, [e EXCEPT !.op = "new"])
      s == Do(<<o>>, Op("scale", 1))
      b == Do(<<o, s>>, Op("descale", 2))
  IN Need(Len(e.r.scaled) = N(o) /\ \A p \in Pts(o) : SameSeq(e.r.scaled[p], s, p), "scaled-in-any-unit")
     \cup Need(Len(e.r.back) = N(o) /\ \A p \in Pts(o) : SameSeq(e.r.back[p], b, p), "descaled-in-any-unit")
     \cup Need(Len(e.r.lo) = N(o) /\ \A p \in Pts(o) : Same(e.r.lo[p], s.lo[p], 1), "minimum-in-any-unit")
     \cup Need(Len(e.r.hi) = N(o) /\ \A p \in Pts(o) : Same(e.r.hi[p], s.hi[p], 1), "maximum-in-any-unit")

RStart == <<>>
RStep(h, e) ==
  IF e.op = "new" THEN LET n == Do(h, e) IN [st |-> Append(h, n), bad |-> Need(e.ok = 1, "create") \cup
                              (IF e.ok = 1 THEN Obs(e.r, n) ELSE {})]
  ELSE IF e.op = "units" THEN [st |-> h, bad |-> IF e.ok = 1 THEN ObsUnits(e) ELSE {"units-refused: " \o e.err}]
  ELSE IF ~Enabled(h, e) THEN [st |-> h, bad |-> {"unknown-event"}]
  ELSE LET o == h[e.o]
           kept == {c \o "-of-source-altered" : c \in Obs(e.s, o)}
       IN IF Refused(h, e) THEN [st |-> h, bad |-> Need(e.ok = 0, "not-refused") \cup kept]
          ELSE IF e.ok = 0 THEN [st |-> h, bad |-> {"refused: " \o e.err}]
          ELSE IF e.op = "extrema" THEN [st |-> h, bad |-> ObsExtrema(e.r, o) \cup kept]
          ELSE IF e.op = "disk" THEN [st |-> h, bad |-> ObsDisk(e.r, o) \cup kept]
          ELSE IF e.op = "look" THEN [st |-> h, bad |-> ObsSaved(e.r, o) \cup kept]
          ELSE LET n == Do(h, e)
               IN [st |-> Append(h, n),
                   bad |-> Obs(e.r, n) \cup ObsCalls(e, o) \cup kept]

THInit == heap = <<>> /\ hist = <<>> /\ TInit
THNext == TNext /\ UNCHANGED <<heap, hist>>
TraceSpec == THInit /\ [][THNext]_<<tvars, heap, hist>>
=============================================================================
