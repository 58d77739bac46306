------------------------------- MODULE Sphere -------------------------------
(* Positions on the sphere as vectors times U, rotations as matrices times U. *)
(* Angles are whole degrees. A coordinate transformation is a rotation: what  *)
(* it does to positions is M v, and the angle by which it turns the local     *)
(* directions is the angle between the image of the local east and the local  *)
(* east at the image.                                                         *)
EXTENDS Common, Trig
U == 10000
C(a) == RDiv(Cos(a % 360, 360), 10)
S(a) == RDiv(Sin(a % 360, 360), 10)
Mulf(a, b) == RDiv(a * b, U)
Vec(lon, lat) == <<Mulf(C(lat), C(lon)), Mulf(C(lat), S(lon)), S(lat)>>
East(lon) == <<-S(lon), C(lon), 0>>
Dot(v, w) == RDiv((v[1] * w[1]) + (v[2] * w[2]) + (v[3] * w[3]), U)
App(M, v) == <<Dot(M[1], v), Dot(M[2], v), Dot(M[3], v)>>
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
Mul(A, B) == [j \in 1..3 |-> [k \in 1..3 |-> Dot(A[j], Col(B, k))]]
Tr(M) == [j \in 1..3 |-> Col(M, j)]
Id == <<<<U, 0, 0>>, <<0, U, 0>>, <<0, 0, U>>>>
\* right-handed rotation by a around an axis
Rot(ax, a) == CASE ax = "x" -> <<<<U, 0, 0>>, <<0, C(a), -S(a)>>, <<0, S(a), C(a)>>>>
                [] ax = "y" -> <<<<C(a), 0, S(a)>>, <<0, U, 0>>, <<-S(a), 0, C(a)>>>>
                [] ax = "z" -> <<<<C(a), -S(a), 0>>, <<S(a), C(a), 0>>, <<0, 0, U>>>>
Euler(kind, a, b, c) == Mul(Mul(Rot(kind[1], a), Rot(kind[2], b)), Rot(kind[3], c))
zyz == <<"z", "y", "z">>
\* moving position (c[1],c[2]) to (c[3],c[4]) without turning the directions
\* there, given that moving along a meridian turns nothing
Recenter(c, restore) == Euler(zyz, c[3] + (IF restore THEN c[1] ELSE 0), c[2] - c[4], -c[1])
Decenter(c, restore) == Tr(Recenter(c, restore))
\* from equatorial
Gal == <<<<-549, -8734, -4838>>, <<4941, -4448, 7470>>, <<-8677, -1981, 4560>>>>
Ecl == <<<<U, 0, 0>>, <<0, 9175, 3978>>, <<0, -3978, 9175>>>>
FromEqu(sys) == CASE sys = "equ" -> Id [] sys = "gal" -> Gal [] sys = "ecl" -> Ecl
Sys(f, t) == IF f = t THEN Id ELSE IF f = "equ" THEN FromEqu(t) ELSE IF t = "equ" THEN Tr(FromEqu(f)) ELSE Mul(FromEqu(t), Tr(FromEqu(f)))
Step(o) == CASE o.op = "rot" -> Euler(o.kind, o.c[1], o.c[2], o.c[3])
             [] o.op = "rec" -> Recenter(o.c, o.restore)
             [] o.op = "dec" -> Decenter(o.c, o.restore)
             [] o.op = "sys" -> Sys(o.from, o.to)
RECURSIVE Total(_, _)
Total(ops, k) == IF k = 0 THEN Id ELSE Mul(Step(ops[k]), Total(ops, k - 1))
RECURSIVE Undo(_, _)
Undo(ops, k) == IF k = 0 THEN Id ELSE Mul(Undo(ops, k - 1), Tr(Step(ops[k])))
\* east and north at position v (not a pole), times the sine of its distance
\* from the pole and U
EastAt(v) == <<-v[2], v[1], 0>>
NorthAt(v) == <<-Mulf(v[3], v[1]), -Mulf(v[3], v[2]), Mulf(v[1], v[1]) + Mulf(v[2], v[2])>>
\* where the image of the local east points: components along the local east
\* and north at the image
Turn(M, lon, lat) == LET v == App(M, Vec(lon, lat))
                         e == App(M, East(lon)) IN <<Dot(e, EastAt(v)), Dot(e, NorthAt(v))>>
\* <<c,s>> (length U) points in the direction of d, within tol
Along(c, s, d, tol) == /\ Abs(RDiv((c * d[2]) - (s * d[1]), U)) <= tol
                       /\ (c * d[1]) + (s * d[2]) > 0
=============================================================================
