------------------------------ MODULE TraceP22 ------------------------------
(* Records (angles in degrees; vectors and cosines times U; deviations that   *)
(* should vanish in units of 1e-9 rad):                                       *)
(*  hist: a.ops applied to positions a.pts: o.rect the images, o.undo largest *)
(*        distance of the images from a.pts after undoing the steps, o.dist   *)
(*        the largest change of a pairwise distance, o.lat latitude in range. *)
(*  pol:  one step with the turn and the magnification asked for. o.cs cosine *)
(*        and sine of the turn, o.mag; o.back the same after transforming     *)
(*        back, continuing from the first result.                             *)
(*  chain: from one system to another via a third: o.dev, o.dturn.            *)
(*  named: recentring: o.img the image of the centre (1e-6 degrees), o.same   *)
(*        whether the arguments are unchanged, o.dev of decenter(recenter).   *)
(*  shape: array arguments against the same one by one.                       *)
(*  mat:  rotation matrices. ang: angles to vectors and back, distances.      *)
(*  spol: rotation of the Stokes components.                                  *)
EXTENDS Sphere, TraceBase
Tol == 12
NearV(v, w) == NearSeq(v, w, Tol)
Hist(r) == LET M == TLCEval(Total(r.a.ops, Len(r.a.ops))) IN
   Bad("position", \E j \in 1..Len(r.a.pts) : ~NearV(r.o.rect[j], App(M, Vec(r.a.pts[j][1], r.a.pts[j][2]))))
   \cup Bad("undo", r.o.undo > 100) \cup Bad("distance", r.o.dist > 100) \cup Bad("range", ~r.o.lat) \cup Bad("input", ~r.o.same)
\* the turn is reported as seen from outside for the systems that are
\* left-handed seen from inside, and with the opposite sign for the others
Pol(r) == LET M == TLCEval(Step(r.a.op))
              Want(j) == LET t == Turn(M, r.a.pts[j][1], r.a.pts[j][2]) IN <<t[1], t[2]>>
              C0 == C(r.a.base)
              S0 == S(r.a.base)
              n == Len(r.a.pts)
              Ang(j) == LET t == Want(j) IN <<Mulf(t[1], C0) - Mulf(t[2], S0), Mulf(t[1], S0) + Mulf(t[2], C0)>>
          IN Bad("position", \E j \in 1..n : ~NearV(r.o.rect[j], App(M, Vec(r.a.pts[j][1], r.a.pts[j][2]))))
             \cup (IF r.a.pol THEN Bad("turn", \E j \in 1..n : r.o.far[j] /\ ~Along(r.o.cs[j][1], r.o.cs[j][2], Ang(j), 30)) \cup Bad("turnback", r.o.turnback > 20000) ELSE {})
             \cup (IF r.a.mag THEN Bad("mag", \E j \in 1..n : r.o.far[j] /\ Abs(Mulf(r.o.mag[j], r.o.cosout[j]) - Mulf(r.a.mag0, C(r.a.pts[j][2]))) > 3 + (r.a.mag0 \div 2000))
                                  \cup Bad("magback", r.o.magback > 1000) ELSE {})
             \cup Bad("rows", r.o.rows # 2 + (IF r.a.pol THEN 1 ELSE 0) + (IF r.a.mag THEN 1 ELSE 0))
             \cup Bad("input", ~r.o.same)
Chain(r) == Bad("position", r.o.dev > 100) \cup Bad("turn", r.o.dturn > 20000)
Named(r) == LET c == r.a.c IN
   Bad("image", \E j \in 1..Len(r.a.c) : LET d == c[j] IN
        ~Near(r.o.img[j][2], 1000000 * d[4], 2) \/ (Abs(d[4]) # 90 /\ ~NearMod(r.o.img[j][1], 1000000 * (d[3] + (IF r.a.restore THEN d[1] ELSE 0)), 2, 360000000)))
   \cup Bad("others", \E j \in 1..Len(r.a.c) : ~NearV(r.o.rect[j], App(Recenter(c[j], r.a.restore), Vec(r.a.pts[j][1], r.a.pts[j][2]))))
   \cup Bad("inverse", r.o.dev > 100) \cup Bad("input", ~r.o.same) \cup Bad("again", ~r.o.again)
Shape(r) == Bad("shape", r.o.sh # r.o.want) \cup Bad("values", r.o.dev > 100) \cup Bad("input", ~r.o.same)
Mat(r) == Bad("shape", r.o.sh # r.o.want)
          \cup Bad("matrix", \E j \in 1..Len(r.o.m) : \E k \in 1..3 : ~NearSeq(r.o.m[j][k], Rot(r.a.axis, r.a.angs[j])[k], 2))
Ang(r) == LET v == Vec(r.a.p[1], r.a.p[2])
              w == Vec(r.a.p[3], r.a.p[4]) IN
   Bad("vector", ~NearSeq(r.o.v, v, 3)) \cup Bad("back", r.o.back > 100)
   \cup Bad("distance", ~Near(r.o.cosd, Dot(v, w), 4) \/ ~Near(r.o.cosv, Dot(v, w), 4))
   \cup Bad("agree", r.o.agree > 100) \cup Bad("small", r.o.small > 100) \cup Bad("symmetric", r.o.sym > 100)
SPol(r) == LET c == C(r.a.spin * r.a.ang)
               s == S(r.a.spin * r.a.ang)
               Q == r.o.old[r.a.comps[1] + 1]
               V == r.o.old[r.a.comps[2] + 1] IN
   Bad("rotated", \E j \in 1..Len(r.o.old) : LET e == IF r.a.spin = 0 THEN [k \in 1..Len(Q) |-> U * r.o.old[j][k]]
                                                        ELSE IF j = r.a.comps[1] + 1 THEN [k \in 1..Len(Q) |-> (c * Q[k]) - (s * V[k])]
                                                        ELSE IF j = r.a.comps[2] + 1 THEN [k \in 1..Len(Q) |-> (s * Q[k]) + (c * V[k])]
                                                        ELSE [k \in 1..Len(Q) |-> U * r.o.old[j][k]]
                                          IN ~NearSeq(r.o.new[j], e, 20))
   \cup Bad("input", ~r.o.same) \cup Bad("back", r.o.back > 100)
Failing(r) == IF r.x # "" THEN {"exception"} ELSE
   CASE r.k = "hist" -> Hist(r) [] r.k = "pol" -> Pol(r) [] r.k = "chain" -> Chain(r) [] r.k = "named" -> Named(r)
     [] r.k = "shape" -> Shape(r) [] r.k = "mat" -> Mat(r) [] r.k = "ang" -> Ang(r) [] r.k = "spol" -> SPol(r)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
