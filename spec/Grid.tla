-------------------------------- MODULE Grid --------------------------------
(* Grids covering the sky. Latitude rows of a full-sky grid with ny rows:    *)
(* variant "cc" has rows on both poles, "fejer1" has row edges on them.      *)
(* Positions are exact multiples of 1/(2*ky) of 180 degrees, where ky is the *)
(* number of row intervals from pole to pole.                                *)
EXTENDS Common
Rows(variant, ky) == IF variant = "cc" THEN ky + 1 ELSE ky
Ky(variant, ny) == IF variant = "cc" THEN ny - 1 ELSE ny
\* centre of row j (0-based) above the south pole in units of 180/(2 ky) degrees
Row2(variant, j) == IF variant = "cc" THEN 2 * j ELSE 2 * j + 1
\* centre of column i (0-based) in units of 360/nx degrees; longitude decreases
Col(nx, i) == nx \div 2 - i
\* a*b/c for large a*b, b, c > 0 and |a| < 4096, rounded
MulDiv(a, b, c) == a * (b \div c) + RDiv(a * (b % c), c)
RowDeg(variant, ky, j) == MulDiv(Row2(variant, j), 90000000, ky) - 90000000
ColDeg(nx, i) == MulDiv(Col(nx, i), 360000000, nx)
\* first row at or above a latitude that is f/1000 rows from row 0
BandRow(f) == RDiv(f, 1000)
=============================================================================
