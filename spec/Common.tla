------------------------------- MODULE Common -------------------------------
(* Helpers shared by all modules: integer arithmetic, sequences, row-major   *)
(* indexing, tolerant comparison of fixed-point numbers.                     *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a)  == IF a < 0 THEN -a ELSE a
Sgn(a)  == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Clip(v, lo, hi) == Max2(lo, Min2(v, hi))
Range(s) == {s[k] : k \in DOMAIN s}

(* Floor division and modulus for a positive divisor. a need not be positive *)
FDiv(a, b) == a \div b            \* TLA+ division rounds down
FMod(a, b) == a % b
CDiv(a, b) == -FDiv(-a, b)
(* Nearest integer of a/b, b > 0; ties go up *)
RDiv(a, b) == FDiv(2 * a + b, 2 * b)

(* Sequences. A function with a domain 1..n is a sequence *)
Seq0(n, f(_)) == [k \in 1..n |-> f(k - 1)]            \* zero-based generator
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
SumSeq(s) == SumTo(s, Len(s))
RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE ProdTo(s, k - 1) * s[k]
Prod(s) == ProdTo(s, Len(s))
RECURSIVE CatTo(_, _)
CatTo(ss, k) == IF k = 0 THEN <<>> ELSE CatTo(ss, k - 1) \o ss[k]
Cat(ss) == CatTo(ss, Len(ss))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Last2(s) == SubSeq(s, Len(s) - 1, Len(s))
ButLast2(s) == SubSeq(s, 1, Len(s) - 2)
MapSeq(s, f(_)) == [k \in 1..Len(s) |-> f(s[k])]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

(* Row-major flat index of a zero-based multi-index, and back *)
RECURSIVE FlatTo(_, _, _)
FlatTo(ix, dims, k) == IF k = 0 THEN 0 ELSE FlatTo(ix, dims, k - 1) * dims[k] + ix[k]
Flat(ix, dims) == FlatTo(ix, dims, Len(dims))
Stride(dims, k) == Prod(SubSeq(dims, k + 1, Len(dims)))
Unflat(f, dims) == [k \in 1..Len(dims) |-> (f \div Stride(dims, k)) % dims[k]]

(* Tolerant comparison of fixed-point numbers, and of sequences of them *)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Near(s[k], t[k], tol)
(* Same, where both are defined only up to a whole period *)
NearMod(a, b, tol, per) == LET d == FMod(FMod(a, per) - FMod(b, per), per) IN d <= tol \/ per - d <= tol
NearModSeq(s, t, tol, per) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : NearMod(s[k], t[k], tol, per)

(* A named clause: contributes its name to the set of failing clauses *)
Bad(name, broken) == IF broken THEN {name} ELSE {}
=============================================================================
