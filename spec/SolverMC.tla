------------------------------ MODULE SolverMC ------------------------------
(* In exact arithmetic, for every small system: the residual carried along is *)
(* the true one, successive directions are conjugate, and the solution is     *)
(* reached in at most as many steps as the size.                              *)
EXTENDS Solver
CONSTANTS Diag, X0, Mset
Off == {-1, 0, 1}
B == {-1, 1, 2}
VARIABLES y, c, k, lastp
vars == <<y, c, k, lastp>>
Init == /\ \E a \in Diag, d \in Diag, o \in Off, b1 \in B, b2 \in B, m1 \in Mset, m2 \in Mset, w1 \in {1, 2}, x1 \in X0, x2 \in X0 :
             /\ (a * d) - (o * o * w1) > 0 /\ Abs(x1) + Abs(x2) <= 1
             /\ y = [A |-> <<<<a, o>>, <<o * w1, d>>>>, b |-> <<b1, b2>>, M |-> <<m1, m2>>, w |-> <<w1, 1>>]   \* w1*o = 1*(o*w1): self-adjoint
             /\ c = CGStart(y, <<x1, x2>>)
        /\ k = 0 /\ lastp = <<>>
Small(v) == \A j \in 1..2 : Abs(v[j][1]) < 15000 /\ v[j][2] < 15000     \* within TLC's integers
Step == k < 2 /\ Small(c.p) /\ c.rz # I(0) /\ c' = CGStep(y, c) /\ k' = k + 1 /\ lastp' = c.p /\ y' = y
Next == Step
TrueResidual == c.r = VAdd([j \in 1..2 |-> I(y.b[j])], I(-1), MatV(y.A, c.x))
Conjugate == (k = 1 /\ Small(c.p)) => Dot(y.w, lastp, MatV(y.A, c.p)) = I(0)
Solved == k = 2 => c.r = <<I(0), I(0)>>
=============================================================================
