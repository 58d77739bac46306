------------------------------- MODULE Solver -------------------------------
(* Iterative solvers that can be saved and resumed.                          *)
(* A solver object runs one of several sequences of iterates (one for each   *)
(* starting point); all that matters of its state is which sequence it is on *)
(* and how far it has come. Files hold such a state. Making a new solver     *)
(* (after a crash, say) and loading a file into it continues the sequence    *)
(* the file was saved from.                                                  *)
EXTENDS Common
None == [q |-> 0, k |-> 0]
Fresh(nsol, nfile) == [sol |-> [j \in 1..nsol |-> None], file |-> [j \in 1..nfile |-> None]]
Apply(s, o) ==
  CASE o.op = "new"  -> [s EXCEPT !.sol[o.s] = [q |-> o.q, k |-> 0]]
    [] o.op = "step" -> [s EXCEPT !.sol[o.s].k = @ + 1]
    [] o.op = "save" -> [s EXCEPT !.file[o.f] = s.sol[o.s]]
    [] o.op = "load" -> [s EXCEPT !.sol[o.s] = s.file[o.f]]
Ops(s, Q, K) ==
     [op : {"new"}, s : DOMAIN s.sol, q : Q]
  \cup [op : {"step"}, s : {j \in DOMAIN s.sol : s.sol[j] # None /\ s.sol[j].k < K}]
  \cup [op : {"save"}, s : {j \in DOMAIN s.sol : s.sol[j] # None}, f : DOMAIN s.file]
  \cup [op : {"load"}, s : {j \in DOMAIN s.sol : s.sol[j] # None}, f : {j \in DOMAIN s.file : s.file[j] # None}]

(* ---- Preconditioned conjugate gradients in exact arithmetic ---- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN IF n = 0 THEN <<0, 1>> ELSE <<(Sgn(d) * n) \div g, Abs(d) \div g>>
I(n) == <<n, 1>>
Add(x, y) == LET g == Gcd(x[2], y[2]) IN Rat((x[1] * (y[2] \div g)) + (y[1] * (x[2] \div g)), x[2] * (y[2] \div g))
Mul(x, y) == LET u == Rat(x[1], y[2])
                 v == Rat(y[1], x[2]) IN <<u[1] * v[1], u[2] * v[2]>>
Neg(x) == <<-x[1], x[2]>>
Div(x, y) == Mul(x, Rat(y[2], y[1]))
RECURSIVE RSum(_, _)
RSum(s, k) == IF k = 0 THEN I(0) ELSE Add(RSum(s, k - 1), s[k])
Dot(w, a, b) == RSum([j \in 1..Len(a) |-> Mul(I(w[j]), Mul(a[j], b[j]))], Len(a))
MatV(A, v) == [j \in 1..Len(v) |-> RSum([l \in 1..Len(v) |-> Mul(I(A[j][l]), v[l])], Len(v))]
VAdd(a, c, b) == [j \in 1..Len(a) |-> Add(a[j], Mul(c, b[j]))]
\* sys: A, b, M (diagonal preconditioner), w (weights of the inner product)
CGStart(y, x0) ==
  LET x == [j \in 1..Len(x0) |-> I(x0[j])]
      r == VAdd([j \in 1..Len(x0) |-> I(y.b[j])], I(-1), MatV(y.A, x))
      z == [j \in 1..Len(r) |-> Mul(I(y.M[j]), r[j])]
  IN  [x |-> x, r |-> r, p |-> z, rz |-> Dot(y.w, r, z)]
CGStep(y, c) ==
  LET Ap == MatV(y.A, c.p)
      al == Div(c.rz, Dot(y.w, c.p, Ap))
      x  == VAdd(c.x, al, c.p)
      r  == VAdd(c.r, Neg(al), Ap)
      z  == [j \in 1..Len(r) |-> Mul(I(y.M[j]), r[j])]
      rz == Dot(y.w, r, z)
  IN  [x |-> x, r |-> r, p |-> VAdd(z, Div(rz, c.rz), c.p), rz |-> rz]
=============================================================================
