--------------------------------- MODULE Alm --------------------------------
(* Harmonic coefficient layouts. A layout is lmax, mmax, stride and mstart    *)
(* (mstart[m+1]: where l = 0 of this m would be). The pair (l, m) with        *)
(* m <= l <= lmax, m <= mmax lives at mstart[m+1] + l*stride (zero-based).    *)
EXTENDS Common
Tri(lmax, mmax, st) == [lmax |-> lmax, mmax |-> mmax, stride |-> st, mstart |-> [k \in 1..(mmax + 1) |-> st * (((k - 1) * (2 * lmax + 2 - k)) \div 2)]]
Rect(lmax, mmax, st) == [lmax |-> lmax, mmax |-> mmax, stride |-> st, mstart |-> [k \in 1..(mmax + 1) |-> st * (k - 1) * (lmax + 1)]]
Pairs(y) == {<<l, m>> \in (0..y.lmax) \X (0..y.mmax) : m <= l}
At(y, l, m) == y.mstart[m + 1] + l * y.stride
NElem(y) == MaxOf({y.mstart[k] : k \in 1..(y.mmax + 1)}) + (y.lmax + 1) * y.stride
Injective(y) == \A p, q \in Pairs(y) : At(y, p[1], p[2]) = At(y, q[1], q[2]) => p = q
Fits(y) == \A p \in Pairs(y) : At(y, p[1], p[2]) >= 0 /\ At(y, p[1], p[2]) < NElem(y)
\* Position of a pair in the two orders: all l of m = 0 first, or all m of l = 0 first
RECURSIVE SumM(_, _)
SumM(y, m) == IF m = 0 THEN 0 ELSE SumM(y, m - 1) + (y.lmax + 1 - (m - 1))
MRank(y, l, m) == SumM(y, m) + (l - m)
RECURSIVE SumL(_, _)
SumL(y, l) == IF l = 0 THEN 0 ELSE SumL(y, l - 1) + Min2(l - 1, y.mmax) + 1
LRank(y, l, m) == SumL(y, l) + m
\* the pair that comes n-th when l is the slow index: transposing moves the n-th of one order to the n-th of the other
MPair(y, n) == CHOOSE p \in Pairs(y) : MRank(y, p[1], p[2]) = n
\* the number that transposition puts at (l, m) was at this pair
From(y, l, m) == MPair(y, LRank(y, l, m))
=============================================================================
