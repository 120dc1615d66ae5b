------------------------------ MODULE RasterMC ------------------------------
(* Bresenham's algorithm, as used to rasterise obstacle edges, against the    *)
(* digital straight segment, for every pair of end points.                    *)
EXTENDS Raster, TLC
CONSTANT N
VARIABLES a, b, x, y, x1, dx, dy, ystep, err, line, done
vars == <<a, b, x, y, x1, dx, dy, ystep, err, line, done>>
Pts == { <<i, j>> : i \in -N..N, j \in -N..N }
Swap(p) == <<p[2], p[1]>>
Init == /\ a \in Pts /\ b \in { <<i, j>> : i \in 0..N, j \in 0..N }
        /\ LET p0 == IF Steep(a, b) THEN Swap(a) ELSE a
               p1 == IF Steep(a, b) THEN Swap(b) ELSE b
               s == IF p0[1] > p1[1] THEN p1 ELSE p0
               t == IF p0[1] > p1[1] THEN p0 ELSE p1 IN
           /\ x = s[1] /\ y = s[2] /\ x1 = t[1] /\ dx = t[1] - s[1] /\ dy = RAbs(t[2] - s[2])
           /\ ystep = IF s[2] < t[2] THEN 1 ELSE -1
           /\ err = (t[1] - s[1]) \div 2
        /\ line = <<>> /\ done = FALSE
Step == /\ ~done /\ x <= x1
        /\ line' = Append(line, IF Steep(a, b) THEN <<y, x>> ELSE <<x, y>>)
        /\ IF err - dy < 0 THEN y' = y + ystep /\ err' = err - dy + dx ELSE y' = y /\ err' = err - dy
        /\ x' = x + 1 /\ UNCHANGED <<a, b, x1, dx, dy, ystep, done>>
Stop == /\ ~done /\ x > x1 /\ done' = TRUE /\ UNCHANGED <<a, b, x, y, x1, dx, dy, ystep, err, line>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
Cells == { line[i] : i \in DOMAIN line }
OnTheLine == Cells \subseteq Band(a, b)
Complete == done => /\ {a, b} \subseteq Cells
                    /\ \A m \in Offsets(a, b) : OnLine(a, b, m) \cap Cells # {}
Gapless == \A i \in 1..(Len(line) - 1) : RAbs(line[i][1] - line[i + 1][1]) <= 1 /\ RAbs(line[i][2] - line[i + 1][2]) <= 1
=============================================================================
