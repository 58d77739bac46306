-------------------------------- MODULE Sky ---------------------------------
(* Pixel and sky coordinates. Sky angles are in units of 1e-6 degrees, pixel *)
(* coordinates in tenths or thousandths of a pixel. Longitudes are           *)
(* equivalent modulo a turn, and so are pixel columns modulo the number of   *)
(* columns per turn. For the plate carree projection (whose rows are equally *)
(* spaced in latitude and columns in longitude) the mapping is spelled out   *)
(* here; for others the header's definition is evaluated by wcslib.          *)
EXTENDS Common
Turn == 360000000
Half == 180000000
\* header h: cd (1e-3 degrees per pixel), cv (1e-3 degrees), cp (half pixels, 1-based)
\* p in tenths of a pixel, 0-based at the first pixel centre
CarSky(h, p) == 1000 * h.cv + (p + 10 - 5 * h.cp) * h.cd * 100
\* shift from corner-based to centre-based pixel coordinates
Centred(p, corner) == IF corner THEN p - 5 ELSE p

(* Choosing a branch. Rewinding to a reference puts a value within half a    *)
(* period of it; unwinding a sequence makes it continuous                    *)
Rewind(x, ref, per) == ref + FMod(2 * (x - ref) + per, 2 * per) \div 2 - per \div 2
SameAngle(a, b, tol) == NearMod(a, b, tol, Turn)
SmoothRows(s, n, tol) == \A k \in 1..(Len(s) - 1) : k % n # 0 => Abs(s[k + 1] - s[k]) <= Half + tol
=============================================================================
