------------------------------- MODULE SinTab -------------------------------
(* sin(2.5 k degrees) times 10^7 for k = -36..36 (entry k + 37) *)
EXTENDS Integers, Sequences
SinT == <<-10000000, -9990482, -9961947, -9914449, -9848078, -9762960, -9659258, -9537170, -9396926, -9238795, -9063078, -8870108, -8660254, -8433914, -8191520, -7933533, -7660444, -7372773, -7071068, -6755902, -6427876, -6087614, -5735764, -5372996, -5000000, -4617486, -4226183, -3826834, -3420201, -3007058, -2588190, -2164396, -1736482, -1305262, -871557, -436194, 0, 436194, 871557, 1305262, 1736482, 2164396, 2588190, 3007058, 3420201, 3826834, 4226183, 4617486, 5000000, 5372996, 5735764, 6087614, 6427876, 6755902, 7071068, 7372773, 7660444, 7933533, 8191520, 8433914, 8660254, 8870108, 9063078, 9238795, 9396926, 9537170, 9659258, 9762960, 9848078, 9914449, 9961947, 9990482, 10000000>>
\* sine of an angle in half-degrees*5, capped at the poles
Sin25(k) == SinT[(IF k > 36 THEN 36 ELSE IF k < -36 THEN -36 ELSE k) + 37]
=============================================================================
