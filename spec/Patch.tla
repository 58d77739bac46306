------------------------------- MODULE Patch --------------------------------
(* Extracting from and inserting into maps. One axis of a map has n pixels,  *)
(* which repeat with period w (w = 0: no wrapping, w >= n otherwise). A box  *)
(* selects the m pixels b, b+t, b+2t, ... of the infinite axis.              *)
EXTENDS Common
Nowhere == -1
\* The pixel of the map found at infinite-axis position p
Home(p, n, w) ==
  IF w = 0 THEN (IF p >= 0 /\ p < n THEN p ELSE Nowhere)
  ELSE LET x == FMod(p, w) IN IF x < n THEN x ELSE Nowhere
Pos(b, t, j) == b + t * j                                  \* j 0-based
\* number of pixels of box from:to:step
BoxLen(from, to, t) == IF t > 0 THEN Max2(0, CDiv(to - from, t)) ELSE Max2(0, CDiv(from - to, -t))
\* source pixel for each output pixel
Source(b, t, m, n, w) == [j \in 1..m |-> Home(Pos(b, t, j - 1), n, w)]
\* output pixels that land on map pixel x
Hits(b, t, m, n, w, x) == {j \in 0..(m - 1) : Home(Pos(b, t, j), n, w) = x}
\* centre of output pixel j of a strided box, in half pixels (as for slices)
BoxCentre2(b, t, j) == 2 * Pos(b, t, j) + t - Sgn(t)
\* The wrapping period in pixels of a map n wide with nphi pixels per turn: maps
\* wider than one turn are taken to repeat after a whole number of turns
Period(nphi, n) == nphi * Max2(1, CDiv(n, nphi))

(* Rounding a sky box whose edges are at pixel coordinates lo < hi (in units *)
(* of 1/1000 pixel) to whole pixels from:to. Values are nudged up by 0.1     *)
(* thousandths so that edges on exact fractions round consistently.          *)
FloorE(x) == FDiv(10 * x + 1, 10000)
CeilE(x)  == CDiv(10 * x + 1, 10000)
RoundE(x) == RDiv(10 * x + 1, 10000)
Lower(mode, x) == CASE mode \in {"floor", "inclusive"} -> FloorE(x)
                    [] mode \in {"ceil", "exclusive"} -> CeilE(x)
                    [] OTHER -> RoundE(x)
Upper(mode, x) == CASE mode \in {"floor", "exclusive"} -> FloorE(x)
                    [] mode \in {"ceil", "inclusive"} -> CeilE(x)
                    [] OTHER -> RoundE(x)
\* The pixels selected by a box going from x0 to x1: <<first, step, number>>
BoxPix(mode, x0, x1, noflip) ==
  IF x0 <= x1 THEN LET a == Lower(mode, x0) b == Upper(mode, x1) IN <<a, 1, Max2(0, b - a)>>
  ELSE LET a == Lower(mode, x1) b == Upper(mode, x0) IN
       IF noflip THEN <<a, 1, Max2(0, b - a)>> ELSE <<b - 1, -1, Max2(0, b - a)>>
=============================================================================
