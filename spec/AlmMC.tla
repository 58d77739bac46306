-------------------------------- MODULE AlmMC -------------------------------
EXTENDS Alm
CONSTANTS LMax
VARIABLE y
Init == \E l \in 0..LMax, s \in 1..3 : \E m \in 0..l : y \in {Tri(l, m, s), Rect(l, m, s)}
Next == UNCHANGED y
Layout == Injective(y) /\ Fits(y)
Orders == LET N == Cardinality(Pairs(y)) IN
            /\ {MRank(y, p[1], p[2]) : p \in Pairs(y)} = 0..(N - 1)
            /\ {LRank(y, p[1], p[2]) : p \in Pairs(y)} = 0..(N - 1)
            /\ {From(y, p[1], p[2]) : p \in Pairs(y)} = Pairs(y)
\* Numbers generated in l order do not depend on lmax (when mmax = lmax)
Prefix == y.mmax = y.lmax => \A p \in Pairs(y) : LRank(y, p[1], p[2]) = ((p[1] * (p[1] + 1)) \div 2) + p[2]
TriTight == (y.stride = 1 /\ y = Tri(y.lmax, y.mmax, 1)) => {At(y, p[1], p[2]) : p \in Pairs(y)} = 0..(NElem(y) - 1)
=============================================================================
