--------------------------- MODULE FigureGeometry ---------------------------
(* Where things are on a figure. A map of a region of X by Y cells shows    *)
(* cell (x, y) as the pixel of row x and column y; a pixel is the square of *)
(* side 1 around (column, row). Coordinates are doubled, so that the edges  *)
(* of pixels are whole. Cells are numbered by rows, from 1.                 *)
EXTENDS Integers, Sequences, FiniteSets
PixelRow(Y, p) == (p - 1) \div Y
Column(Y, p) == (p - 1) % Y
Mark(Y, p) == <<2 * Column(Y, p), 2 * PixelRow(Y, p)>>
(* area <<x1, x2, y1, y2>>, the ends excluded, as <<left, top, width, height>> *)
Frame(a) == <<2 * a[3] - 1, 2 * a[1] - 1, 2 * (a[4] - a[3]), 2 * (a[2] - a[1])>>
Square(Y, p) == <<2 * Column(Y, p) - 1, 2 * PixelRow(Y, p) - 1, 2, 2>>
Within4(s, f) == /\ f[1] <= s[1] /\ s[1] + s[3] <= f[1] + f[3]
                 /\ f[2] <= s[2] /\ s[2] + s[4] <= f[2] + f[4]
Apart4(s, f) == s[1] + s[3] <= f[1] \/ f[1] + f[3] <= s[1] \/ s[2] + s[4] <= f[2] \/ f[2] + f[4] <= s[2]
InArea(Y, p, a) == PixelRow(Y, p) \in a[1]..(a[2] - 1) /\ Column(Y, p) \in a[3]..(a[4] - 1)
CentreCell(X, Y) == (X \div 2) * Y + (Y \div 2) + 1
Corners(a, x0, y0) == {<<x0 + a[i], y0 + a[j]>> : i \in {1, 2}, j \in {3, 4}}
(* k panels as rows and columns, as even as possible, more of them along the
   longer side of the region (along rows when there is none)                *)
Even(k) == CHOOSE a \in 1..k : /\ k % a = 0 /\ a <= k \div a
                               /\ \A b \in 1..k : (k % b = 0 /\ b <= k \div b) => b <= a
Grid(k, X, Y) == IF X < Y THEN <<Even(k), k \div Even(k)>> ELSE <<k \div Even(k), Even(k)>>
Panel(k, X, Y, i) == <<(i - 1) \div Grid(k, X, Y)[2], (i - 1) % Grid(k, X, Y)[2]>>
(* how many cells outside a cluster of m of n cells are drawn when N were asked for *)
Drawn(N, m, n) == LET want == IF N = 0 THEN m ELSE N IN IF want < n - m THEN want ELSE n - m
=============================================================================
