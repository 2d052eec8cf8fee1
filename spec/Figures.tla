------------------------------- MODULE Figures -------------------------------
(* C27: figures show exactly the data they are drawn from. A program makes  *)
(* its figures one after the other: it opens a figure, draws on it, shows   *)
(* it (where there are windows, this lasts until all of them are closed)    *)
(* and saves it, before or after. A figure is saved as itself, or by saving *)
(* whatever figure is the current one: a new, empty one when none is open.  *)
EXTENDS FigureGeometry, TLC
CONSTANTS SIDE, JOBS, HOW, ORDER        \* HOW \subseteq {"itself", "current"}, ORDER \subseteq {"show first", "save first"}
VARIABLES size, labels, area, windows, how, order, job, step, figs, open, current, disk
vars == <<size, labels, area, windows, how, order, job, step, figs, open, current, disk>>
X == size[1]
Y == size[2]
N == X * Y
Empty == <<>>
(* what the figure of job j is to show: colours of pixels, marks and a frame *)
Wanted(j) == [pixels |-> [r \in 1..X |-> [c \in 1..Y |-> (labels[(r - 1) * Y + c] + j) % (2 + j)]], frame |-> Frame(area), mark |-> Mark(Y, ((j - 1) % N) + 1)]
Init == /\ size \in (1..SIDE) \X (1..SIDE)
        /\ labels \in [1..N -> {0, 1}]
        /\ area \in {a \in (0..X) \X (0..X) \X (0..Y) \X (0..Y) : a[1] < a[2] /\ a[3] < a[4]}
        /\ windows \in BOOLEAN /\ how \in HOW /\ order \in ORDER
        /\ job = 1 /\ step = "open" /\ figs = <<>> /\ open = {} /\ current = 0 /\ disk = <<>>
World == UNCHANGED <<size, labels, area, windows, how, order>>
Open == /\ step = "open" /\ job <= JOBS
        /\ figs' = Append(figs, Empty) /\ open' = open \cup {Len(figs) + 1} /\ current' = Len(figs) + 1
        /\ step' = "draw" /\ World /\ UNCHANGED <<job, disk>>
Mine == current      \* (the figure of this job: opened last)
Draw == /\ step = "draw" /\ figs' = [figs EXCEPT ![Mine] = Wanted(job)]
        /\ step' = IF order = "show first" THEN "show" ELSE "save"
        /\ World /\ UNCHANGED <<job, open, current, disk>>
Opened(j) == CHOOSE f \in DOMAIN figs : figs[f] = Wanted(j) /\ \A g \in DOMAIN figs : figs[g] = Wanted(j) => g <= f
Show == /\ step = "show"
        /\ open' = (IF windows THEN {} ELSE open) /\ current' = (IF windows THEN 0 ELSE current)
        /\ step' = (IF order = "show first" THEN "save" ELSE "next")
        /\ World /\ UNCHANGED <<job, figs, disk>>
Save == /\ step = "save"
        /\ IF how = "current" /\ current = 0
           THEN /\ figs' = Append(figs, Empty) /\ open' = open \cup {Len(figs) + 1} /\ current' = Len(figs) + 1
                /\ disk' = Append(disk, Empty)
           ELSE /\ disk' = Append(disk, IF how = "current" THEN figs[current] ELSE figs[Opened(job)])
                /\ UNCHANGED <<figs, open, current>>
        /\ step' = (IF order = "show first" THEN "next" ELSE "show")
        /\ World /\ UNCHANGED job
NextJob == /\ step = "next" /\ job' = job + 1 /\ step' = "open" /\ World /\ UNCHANGED <<figs, open, current, disk>>
Next == Open \/ Draw \/ Show \/ Save \/ NextJob
Spec == Init /\ [][Next]_vars
FilesTrue == \A j \in DOMAIN disk : disk[j] = Wanted(j)
(* the frame encloses the pixels of the area and no other; a mark is in the pixel of its cell *)
FrameExact == \A p \in 1..N : IF InArea(Y, p, area) THEN Within4(Square(Y, p), Frame(area)) ELSE Apart4(Square(Y, p), Frame(area))
MarkInside == \A p, q \in 1..N : Within4(<<Mark(Y, p)[1], Mark(Y, p)[2], 0, 0>>, Square(Y, q)) = (p = q)
(* the centre: as many rows before it as after it, or one more *)
CentreMiddle == LET c == CentreCell(X, Y) IN
  /\ c \in 1..N
  /\ PixelRow(Y, c) - (X - 1 - PixelRow(Y, c)) \in {0, 1} /\ Column(Y, c) - (Y - 1 - Column(Y, c)) \in {0, 1}
=============================================================================
