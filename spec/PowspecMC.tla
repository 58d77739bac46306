----------------------------- MODULE PowspecMC -----------------------------
(* A holder of a symmetric matrix: entries are written one at a time, the    *)
(* matrix is packed in some order, truncated, repacked and unpacked.         *)
EXTENDS Powspec
CONSTANTS NMax
VARIABLES n, M, packed, scheme, steps
vars == <<n, M, packed, scheme, steps>>
Init == /\ n \in 1..NMax /\ scheme \in Schemes /\ steps = 0
        /\ M = [i \in 0..(n - 1) |-> [j \in 0..(n - 1) |-> 0]] /\ packed = <<>>
Write == /\ packed = <<>> /\ steps < 3
         /\ \E i, j \in 0..(n - 1) : i <= j /\ M' = [M EXCEPT ![i][j] = steps + 1, ![j][i] = steps + 1]
         /\ steps' = steps + 1 /\ UNCHANGED <<n, packed, scheme>>
DoPack == packed = <<>> /\ packed' = Pack(M, Order(Tri(n), scheme), FALSE) /\ UNCHANGED <<n, M, scheme, steps>>
Repack == packed # <<>> /\ \E s \in Schemes : scheme' = s /\ packed' = Pack(Unpack(packed, Order(Tri(n), scheme), n, FALSE), Order(Tri(n), s), FALSE) /\ UNCHANGED <<n, M, steps>>
Next == Write \/ DoPack \/ Repack
Spec == Init /\ [][Next]_vars
Lossless == packed # <<>> => Unpack(packed, Order(Tri(n), scheme), n, FALSE) = M
Combined == Unpack(Pack(M, Order(Tri(n), scheme), TRUE), Order(Tri(n), scheme), n, TRUE) = M
(* the orders hold every unordered pair once; a truncation holds the whole diagonal of the smallest matrix, except for the stable one, which is a prefix of every longer one *)
Orders == \A k \in 1..Tri(NMax) : \A s \in Schemes :
   LET o == TLCEval(Order(k, s)) IN
   /\ Len(o) = k /\ Cardinality(Range(o)) = k /\ \A w \in Range(o) : w[1] <= w[2] /\ w[2] < NComp(k)
   /\ s # "stable" => \A i \in 0..(NComp(k) - 1) : <<i, i>> \in Range(o)
   /\ s = "stable" => o = SubSeq(Order(Tri(NMax), s), 1, k)
OrdersInv == steps = 0 => Orders
=============================================================================
