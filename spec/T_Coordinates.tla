--------------------------- MODULE T_Coordinates ---------------------------
EXTENDS Coordinates, TraceLib

MapPts(ps, F(_)) == [i \in DOMAIN ps |-> F(ps[i])]
Keys(ps) == [i \in DOMAIN ps |-> Key(ps[i])]

CStep(s, e) ==
  CASE e.op = "setting" -> [st |-> [X |-> e.X, Y |-> e.Y, r |-> e.r, q |-> e.q], bad |-> {}]
    [] e.op = "absindex" ->     \* every flat index of the region, in order
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.out = [i \in 1..Size(s.r) |-> AbsIndex(i - 1, s)], "index-to-absolute")]
    [] e.op = "abspoint" ->
         LET F(p) == AbsPoint(p, s) IN
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.out = MapPts(e.pts, F), "absolute-position-of-point")]
    [] e.op = "absrect" ->
         LET F(b) == AbsRect(b, s) IN
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.out = MapPts(e.rects, F), "absolute-coordinates-of-region")]
    [] e.op = "result" ->       \* conversions offered by a query result; pts are relative to the query
         LET D(p) == ToRegion(p, s)
             A(p) == AbsPoint(ToRegion(p, s), s) IN
         [st |-> s, bad |-> Need(e.ok = 1, "result-conversion-failed") \cup
           (IF e.ok = 0 THEN {} ELSE
              Need(e.pts = Listing(s.q), "result-listing")
              \cup Need(e.dom = MapPts(e.pts, D), "to-domain-coordinates")
              \cup Need(e.back = e.pts, "to-relative-coordinates")
              \cup Need(e.abs = MapPts(e.pts, A), "result-absolute-coordinates"))]
    [] e.op = "instance" ->     \* data of the described region: each point's own absolute place
         LET A(p) == AbsPoint(p, s) IN
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.pts = Listing(s.r), "instance-points")
                     \cup Need(e.ok = 1 /\ e.vals = Keys(MapPts(Listing(s.r), A)), "instance-data")]
    [] e.op = "query" ->        \* data of a sub-area of the described region
         LET A(p) == AbsPoint(ToRegion(p, s), s) IN
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.pts = Listing(s.q), "area-points")
                     \cup Need(e.ok = 1 /\ e.vals = Keys(MapPts(Listing(s.q), A)), "area-data")]
    [] e.op = "medoidseries" -> \* series of medoids given as absolute positions
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.xy = e.meds /\ e.vals = Keys(e.meds), "medoid-series")
                     \cup Need(e.ok = 1 /\ e.ci = [i \in DOMAIN e.meds |-> i - 1], "medoid-order")]
    [] e.op = "medoidnames" ->  \* indices relative to the region, named by absolute position
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.out = [i \in DOMAIN e.idx |-> AbsIndex(e.idx[i], s)], "medoid-names")]
    [] e.op = "zeroes" ->       \* an empty region of the size of a rectangle, with indices from (0, 0)
         [st |-> s, bad |-> Need(e.ok = 1 /\ e.pts = Listing(e.a) /\ \A i \in DOMAIN e.vals : e.vals[i] = 0, "zeroes")
                     \cup Need(e.ok = 1 /\ Len(e.vals) = Size(e.a), "zeroes-size")]
    [] OTHER -> Unknown(s, e)
CStart == [X |-> 0, Y |-> 0, r |-> <<0, 0, 0, 0>>, q |-> <<0, 0, 0, 0>>]
THInit == set = CStart /\ frame = "" /\ pos = <<>> /\ place = <<>> /\ TInit
TraceSpec == THInit /\ [][TNext /\ UNCHANGED vars]_<<tvars, vars>>
=============================================================================
