----------------------------- MODULE PictureMC ------------------------------
(* Every cell has its own pixel, and obstacles can be told apart: different    *)
(* obstacles have different colours at any brightness that is not too dark,    *)
(* and the darker of two cells of an obstacle is the one with the higher cost. *)
EXTENDS Picture, FiniteSets, TLC
CONSTANTS MaxSide, MaxN
VARIABLES rows, cols, n, k, v, done
vars == <<rows, cols, n, k, v, done>>
Init == /\ rows \in 1..MaxSide /\ cols \in 1..MaxSide /\ n \in 1..MaxN /\ k \in 0..(n - 1) /\ v \in {0, 1, 2500, 5000, 7777, 10000} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<rows, cols, n, k, v>>
Spec == Init /\ [][Next]_vars
Cells == (0..(rows - 1)) \X (0..(cols - 1))
OnePixelEach == /\ { PixelOf(c[1], c[2], rows, cols) : c \in Cells } = 1..(rows * cols)
                /\ \A c \in Cells : CellAt(PixelOf(c[1], c[2], rows, cols), rows, cols) = c
Channels == \A i \in 1..3 : Wheel(k, n, v)[i] \in 0..255
Distinct == v >= 2500 => \A j \in 0..(n - 1) : j # k => ~Near(Wheel(j, n, v), Wheel(k, n, v))
Darker == \A w \in {0, 2500, 5000, 10000} : w <= v => \A i \in 1..3 : Wheel(k, n, w)[i] <= Wheel(k, n, v)[i]
NeverBlack == v >= 100 => Wheel(k, n, v) # Black
Inv == OnePixelEach /\ Channels /\ Distinct /\ Darker /\ NeverBlack
=============================================================================
