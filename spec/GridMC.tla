------------------------------- MODULE GridMC -------------------------------
(* Build a full-sky grid, cut a band, cut again: rows keep their latitude,   *)
(* the grid is symmetric, reaches both poles, and covers every longitude once*)
EXTENDS Grid
CONSTANTS KMax, XMax
VARIABLES variant, ky, nx, lo, hi
vars == <<variant, ky, nx, lo, hi>>
Init == /\ variant \in {"cc", "fejer1"} /\ ky \in 1..KMax /\ nx \in 1..XMax
        /\ lo = 0 /\ hi = Rows(variant, ky)
Cut == \E a \in lo..hi, b \in lo..hi : a < b /\ lo' = a /\ hi' = b /\ UNCHANGED <<variant, ky, nx>>
Next == Cut
Ny == Rows(variant, ky)
Symmetric == \A j \in 0..(Ny - 1) : Row2(variant, j) + Row2(variant, Ny - 1 - j) = 2 * ky
Reaches == IF variant = "cc" THEN Row2(variant, 0) = 0 /\ Row2(variant, Ny - 1) = 2 * ky
           ELSE Row2(variant, 0) - 1 = 0 /\ Row2(variant, Ny - 1) + 1 = 2 * ky
OnSky == \A j \in lo..(hi - 1) : Row2(variant, j) >= 0 /\ Row2(variant, j) <= 2 * ky
Equal == \A j \in lo..(hi - 2) : Row2(variant, j + 1) - Row2(variant, j) = 2
Longitudes == /\ {FMod(Col(nx, c), nx) : c \in 0..(nx - 1)} = 0..(nx - 1)
              /\ \A c \in 0..(nx - 1) : 2 * Abs(Col(nx, c)) <= nx
Inv == Symmetric /\ Reaches /\ OnSky /\ Equal /\ Longitudes
=============================================================================
