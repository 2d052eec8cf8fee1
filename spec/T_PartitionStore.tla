-------------------------- MODULE T_PartitionStore --------------------------
EXTENDS PartitionStore, TraceLib

XStart == [comp |-> {}, store |-> {}, descs |-> {}]
K(e) == <<e.home, e.region, e.dist, e.algo, e.k, e.seed, e.mode, e.init>>
Set(e) == <<e.region, e.dist, e.algo, e.k, e.seed, e.mode, e.init>>
DescOf(e) == <<e.algo, e.k, e.seed, e.mode, e.init>>
Known(s, e) == {c \in s.comp : c.of = Set(e)}
SameMed(e, m) == e.med = m
Count(mem, i) == Cardinality({j \in DOMAIN mem : mem[j] = i})
AbsD(a) == IF a < 0 THEN -a ELSE a
(* one row per cluster: index, points, percentage (tenths, rounded) *)
ReportOk(e, mem) == /\ Len(e.csv) = e.k
  /\ \A i \in 1..e.k : /\ e.csv[i][1] = i - 1 /\ e.csv[i][2] = Count(mem, i - 1)
                       /\ 2 * AbsD(e.csv[i][3] * Len(mem) - 1000 * e.csv[i][2]) <= Len(mem)

XStep(s, e) ==
  CASE e.op = "fresh" ->
         IF e.ok = 0 THEN [st |-> s, bad |-> {"clustering-failed"}]
         ELSE [st |-> [s EXCEPT !.comp = @ \cup {[of |-> Set(e), mem |-> e.mem, med |-> e.med]}],
               bad |-> Need(e.files = 0, "stored-without-location")
                 \cup Need(\A c \in Known(s, e) : c.mem = e.mem /\ c.med = e.med, "clustering-not-repeatable")]
    [] e.op = "request" ->
         LET c == CHOOSE x \in s.comp : x.of = Set(e) IN
         IF e.ok = 0 THEN [st |-> s, bad |-> {"request-failed"}]
         ELSE [st |-> [s EXCEPT !.store = AfterRequest(@, K(e), e.wm)],
               bad |-> Need(e.mem = c.mem, "memberships-of-other-settings")
                 \cup Need(IF e.wm = 1 THEN e.med = c.med ELSE e.med \in {c.med, <<>>}, "medoids-of-other-settings")
                 \cup Need(e.csvat = 0 \/ ReportOk(e, c.mem), "partition-report")
                 \cup Need(e.elsewhere = 0, "stored-elsewhere")]
    [] e.op = "load" ->
         LET g == Good(s.store, K(e)) IN
         [st |-> s, bad |-> Need(e.ok = (IF g THEN 1 ELSE 0), IF g THEN "saved-partition-not-found" ELSE "partition-from-nowhere")
           \cup Need(e.tryok = 1, "attempt-raised")
           \cup (IF g /\ e.ok = 1 THEN
                  LET c == CHOOSE x \in s.comp : x.of = Set(e)  r == CHOOSE x \in Entry(s.store, K(e)) : TRUE IN
                  Need(e.mem = c.mem, "saved-memberships") \cup Need(e.med = (IF r.med = 1 THEN c.med ELSE <<>>), "saved-medoids")
                 ELSE {})]
    [] e.op = "delete" -> [st |-> [s EXCEPT !.store = AfterDelete(@, K(e))], bad |-> {}]
    [] e.op = "corrupt" -> [st |-> [s EXCEPT !.store = AfterCorrupt(@, K(e))], bad |-> {}]
    (* descriptions: text, recovery from text and from a classifier label, comparison *)
    [] e.op = "describe" ->
         LET all == s.descs \cup {[id |-> e.id, d |-> DescOf(e)]} IN
         [st |-> [s EXCEPT !.descs = all],
          bad |-> Need(e.ok = 1, "description-failed")
            \cup Need(e.back = [algo |-> e.algo, k |-> e.k, seed |-> e.seed, mode |-> e.mode, init |-> e.init], "description-not-recovered")
            \cup Need(e.label = 1, "classifier-label")
            \cup Need(\A r \in s.descs : e.eq[r.id] = (IF r.d = DescOf(e) THEN 1 ELSE 0), "description-comparison")
            \cup Need(\A r \in s.descs : e.texteq[r.id] = (IF r.d = DescOf(e) THEN 1 ELSE 0), "description-text")
            \cup Need(\A r \in s.descs : r.d = DescOf(e) => e.hasheq[r.id] = 1, "description-hash")
            \cup Need(e.other = 0, "description-equal-to-something-else")]
    [] OTHER -> Unknown(s, e)
THInit == files = <<>> /\ store = {} /\ ret = <<>> /\ steps = 0 /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
