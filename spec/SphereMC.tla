------------------------------ MODULE SphereMC ------------------------------
(* All histories of quarter-turn rotations, where the arithmetic is exact.    *)
EXTENDS Sphere, TLC
CONSTANTS MaxLen
VARIABLES ops, M, inv
Quarter4 == {0, 90, 180, 270}
Lats == {-90, 0, 90}
Centers == {<<a, b, c, d>> : a \in Quarter4, b \in Lats, c \in {0, 90}, d \in Lats}
Ops == [op: {"rot"}, kind: {<<"x", "y", "z">>, zyz}, c: {<<90, 0, 0>>, <<0, 90, 0>>, <<90, 90, 270>>, <<180, 90, 0>>}]
       \cup [op: {"rec", "dec"}, c: {<<0, 0, 0, 90>>, <<90, 0, 0, 90>>, <<270, 0, 90, -90>>, <<180, 90, 0, 0>>}, restore: BOOLEAN]
StepT == TLCEval([o \in Ops |-> Step(o)])
Init == ops = <<>> /\ M = Id /\ inv = Id
Next == Len(ops) < MaxLen /\ \E o \in Ops : ops' = Append(ops, o) /\ M' = Mul(StepT[o], M) /\ inv' = Mul(inv, Tr(StepT[o]))
Pts == TLCEval({Vec(a, b) : a \in {0, 90}, b \in {0, 90}})
Det(A) == Dot(A[1], <<Mulf(A[2][2], A[3][3]) - Mulf(A[2][3], A[3][2]), Mulf(A[2][3], A[3][1]) - Mulf(A[2][1], A[3][3]), Mulf(A[2][1], A[3][2]) - Mulf(A[2][2], A[3][1])>>)
\* every history is a proper rotation: distances and orientation are preserved
Rotation == Mul(M, Tr(M)) = Id /\ Det(M) = U
            /\ \A v, w \in Pts : Dot(App(M, v), App(M, w)) = Dot(v, w)
\* undoing the steps in the opposite order gives every position back
Invertible == Mul(inv, M) = Id
\* the named point arrives where requested
Named == ops = <<>> => \A c \in Centers : \A r \in BOOLEAN :
           /\ App(Recenter(c, r), Vec(c[1], c[2])) = Vec(c[3] + (IF r THEN c[1] ELSE 0), c[4])
           /\ App(Decenter(c, r), Vec(c[3] + (IF r THEN c[1] ELSE 0), c[4])) = Vec(c[1], c[2])
\* moving along the meridian does not turn the directions
Straight == ops = <<>> => \A a \in Quarter4 : Turn(Recenter(<<a, 0, 0, 0>>, FALSE), a, 0) = <<U, 0>>
\* the turns of successive steps add up: the direction in which the image of
\* the east points is preserved as a vector, whichever way it is computed
Turns == \A a \in Quarter4 : LET v == App(M, Vec(a, 0)) IN
   (v[1] # 0 \/ v[2] # 0) =>
      LET t == Turn(M, a, 0)
          e == App(M, East(a)) IN
      /\ Mulf(t[1], t[1]) + Mulf(t[2], t[2]) = U
      /\ \A k \in 1..3 : Mulf(t[1], EastAt(v)[k]) + Mulf(t[2], NorthAt(v)[k]) = e[k]
=============================================================================
