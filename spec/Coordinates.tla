---------------------------- MODULE Coordinates ----------------------------
(* Three frames of reference for the same places.                          *)
(*   abs    - positions in the complete dataset                            *)
(*   region - relative to the study region (a rectangle of the dataset)    *)
(*   query  - relative to the queried area (a rectangle of the region)     *)
(* A setting is [X, Y: dataset size, r: region rectangle (absolute),       *)
(* q: query rectangle (relative to the region)]; rectangles are            *)
(* <<x1, x2, y1, y2>>, half open, as in the code.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS DX, DY      \* largest dataset explored by the design check

XLen(a) == a[2] - a[1]
YLen(a) == a[4] - a[3]
Size(a) == XLen(a) * YLen(a)
Shift(p, a)   == <<p[1] + a[1], p[2] + a[3]>>
UnShift(p, a) == <<p[1] - a[1], p[2] - a[3]>>
(* flat indices of a rectangle are row-major positions relative to it *)
IndexPoint(i, a) == <<i \div YLen(a), i % YLen(a)>>
PointIndex(p, a) == p[1] * YLen(a) + p[2]
InRect(p, a) == p[1] \in a[1]..(a[2] - 1) /\ p[2] \in a[3]..(a[4] - 1)
Listing(a) == [i \in 1..Size(a) |-> IndexPoint(i - 1, a)]       \* relative
AbsIndex(i, s) == Shift(IndexPoint(i, s.r), s.r)
AbsPoint(p, s) == Shift(p, s.r)
AbsRect(b, s)  == <<b[1] + s.r[1], b[2] + s.r[1], b[3] + s.r[3], b[4] + s.r[3]>>
ToRegion(p, s) == Shift(p, s.q)
ToQuery(p, s)  == UnShift(p, s.q)
Key(p) == p[1] * 1000 + p[2]         \* a value that names an absolute place

Rects(X, Y) == {<<a, b, c, d>> \in (0..X) \X (0..X) \X (0..Y) \X (0..Y) : a < b /\ c < d}
Settings == UNION { { [X |-> X, Y |-> Y, r |-> r, q |-> q] : q \in Rects(XLen(r), YLen(r)) }
                    : r \in Rects(DX, DY), X \in {DX}, Y \in {DY} }

VARIABLES set, frame, pos, place
vars == <<set, frame, pos, place>>

Init == /\ set \in Settings
        /\ frame = "abs"
        /\ place \in {<<x, y>> : x \in 0..(DX - 1), y \in 0..(DY - 1)}
        /\ InRect(place, AbsRect(set.q, set))
        /\ pos = place
Move(f, p) == frame' = f /\ pos' = p /\ UNCHANGED <<set, place>>
Next == \/ frame = "abs" /\ Move("region", UnShift(pos, set.r))
        \/ frame = "region" /\ Move("abs", AbsPoint(pos, set))
        \/ frame = "region" /\ Move("query", ToQuery(pos, set))
        \/ frame = "query" /\ Move("region", ToRegion(pos, set))
        \/ frame = "region" /\ Move("index", <<PointIndex(pos, set.r), 0>>)
        \/ frame = "index" /\ Move("region", IndexPoint(pos[1], set.r))
        \/ frame = "index" /\ Move("abs", AbsIndex(pos[1], set))
Spec == Init /\ [][Next]_vars

(* whatever sequence of conversions: it is still the same place *)
SamePlace ==
  place = CASE frame = "abs" -> pos
            [] frame = "region" -> AbsPoint(pos, set)
            [] frame = "query" -> AbsPoint(ToRegion(pos, set), set)
            [] frame = "index" -> AbsIndex(pos[1], set)
InFrame ==
  CASE frame = "region" -> InRect(pos, <<0, XLen(set.r), 0, YLen(set.r)>>) /\ InRect(pos, set.q)
    [] frame = "query" -> InRect(pos, <<0, XLen(set.q), 0, YLen(set.q)>>)
    [] frame = "index" -> pos[1] \in 0..(Size(set.r) - 1)
    [] OTHER -> TRUE
RectAgrees == \A x \in 0..(DX - 1), y \in 0..(DY - 1) :
    InRect(<<x, y>>, AbsRect(set.q, set)) = InRect(UnShift(UnShift(<<x, y>>, set.r), set.q), <<0, XLen(set.q), 0, YLen(set.q)>>)
IndexBijective == Cardinality({AbsIndex(i, set) : i \in 0..(Size(set.r) - 1)}) = Size(set.r)

(* generation: settings with names chosen by TLC *)
GenDone == PrintT("GEN " \o ToJson([X |-> set.X, Y |-> set.Y, r |-> set.r, q |-> set.q]))
GenInit == Init /\ place = Shift(<<set.q[1], set.q[3]>>, set.r)
GenSpec == GenInit /\ [][FALSE]_vars
GenOut == GenDone
=============================================================================
