------------------------------ MODULE PicTrace ------------------------------
(* Pictures of the Voronoi diagram and of the obstacle heuristic.               *)
EXTENDS GridPlan, Picture, Common
VARIABLES l
vars == <<gvars, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Case == /\ Is("case") /\ rows' = E.rows /\ cols' = E.cols /\ occ' = {} /\ straight' = 10000 /\ diag' = 14142
        /\ price' = [i \in 1..(E.rows * E.cols) |-> 0]
\* header: a binary portable pixmap of the size of the map with 255 levels, and nothing after the pixels
Frame == /\ Check("header", E.magic = "P6" /\ E.w = rows /\ E.h = cols /\ E.max = 255)
         /\ Check("one pixel for each cell", Len(E.px) = rows * cols /\ E.extra = 0)
Pixel(r, c) == E.px[PixelOf(r, c, rows, cols)]
At(s, c) == s[c[1] * cols + c[2] + 1]
GvdPixels ==
       LET n == TLCEval(1 + MaxSet({0} \cup Range(E.vals))) IN
       \A c \in Cells :
           LET p == Pixel(c[1], c[2]) o == At(E.on, c) IN
           IF At(E.vals, c) >= 0 THEN Check("obstacles are black", p = Black)
           ELSE IF o < 0 THEN Check("black without obstacle", p = Black)
           ELSE Check("colour of the nearest obstacle, darker for a higher path cost",
                      Near(p, Wheel(E.vals[o + 1], n, Max2(0, Min2(10000, 10000 - At(E.cost, c))))))
GvdPic == Is("gvdpic") /\ Frame /\ (GvdPixels = TRUE) /\ UNCHANGED gvars
HeurPic ==
    /\ Is("heurpic") /\ Frame
    /\ occ' = { <<E.occ[i][1], E.occ[i][2]>> : i \in DOMAIN E.occ }
    /\ UNCHANGED <<rows, cols, straight, diag, price>>
\* the pixels, once the obstacles are those of the picture
HeurPixels ==
       LET t == <<E.goal[1], E.goal[2]>>
           D == TLCEval(IF t \in Cells THEN GDist(t) ELSE [c \in Cells |-> GInf])
           far == TLCEval(MaxSet({0} \cup { D[c] : c \in { x \in Cells : D[x] # GInf } })) IN
       \A c \in Cells :
           LET p == Pixel(c[1], c[2]) IN
           /\ Check("grey", p[1] = p[2] /\ p[2] = p[3])
           /\ IF D[c] = GInf THEN Check("black where the goal cannot be reached", p = Black)
              ELSE IF far = 0 THEN TRUE \* the only cell is the nearest and the farthest
              ELSE Check("from white at the goal to black where it is farthest", PAbs(p[1] - ((far - D[c]) * 51) \div (far \div 5)) <= 1)
Pixels == Is("pixels") /\ (HeurPixels = TRUE) /\ UNCHANGED gvars
\* a file that cannot be written is not an error
Refused == Is("refused") /\ UNCHANGED gvars
TraceInit == l = 1 /\ rows = 0 /\ cols = 0 /\ occ = {} /\ straight = 0 /\ diag = 0 /\ price = <<>>
TraceNext == Case \/ GvdPic \/ HeurPic \/ Pixels \/ Refused
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
