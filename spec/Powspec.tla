------------------------------ MODULE Powspec ------------------------------
(* Packed power spectra.  A symmetric n x n matrix has n(n+1)/2 independent  *)
(* entries; a packing order is a sequence of unordered index pairs.  Three   *)
(* orders exist: by diagonals, by rows and the "stable" one, whose prefixes  *)
(* never change meaning.  A truncated packing holds the first entries of the *)
(* order for the smallest matrix that has that many independent entries,     *)
(* always including its diagonal.                                            *)
EXTENDS Common, TLC
Tri(n) == (n * (n + 1)) \div 2
NComp(k) == CHOOSE n \in 0..k : Tri(n) >= k /\ \A m \in 0..k : Tri(m) >= k => n <= m
(* full orders of an n x n matrix, as sequences of zero-based pairs <<i, j>>, i <= j *)
DiagOrder(n) == Cat([d \in 1..n |-> [k \in 1..(n - d + 1) |-> <<k - 1, k + d - 2>>]])
RowOrder(n)  == Cat([r \in 1..n |-> [k \in 1..(n - r + 1) |-> <<r - 1, r + k - 2>>]])
StableOrder(n) == Cat([c \in 1..n |-> <<<<c - 1, c - 1>>>> \o [k \in 1..(c - 1) |-> <<k - 1, c - 1>>]])
(* the order of k entries *)
Off(p) == p[1] # p[2]
RowTrunc(k) == LET n == NComp(k)
                   full == TLCEval(RowOrder(n))
                   \* number of off-diagonal entries up to and including position p
                   cnt(p) == Cardinality({t \in 1..p : Off(full[t])})
               IN  SelectSeq([p \in 1..Len(full) |-> <<full[p], cnt(p)>>], LAMBDA z : ~Off(z[1]) \/ z[2] <= k - n)
Order(k, scheme) ==
  CASE scheme = "diag" -> SubSeq(DiagOrder(NComp(k)), 1, k)
    [] scheme = "stable" -> SubSeq(StableOrder(NComp(k)), 1, k)
    [] scheme = "row" -> LET z == TLCEval(RowTrunc(k)) IN [p \in 1..Len(z) |-> z[p][1]]
(* matrices are functions of pairs of indices *)
Pack(M, order, combined) == [p \in 1..Len(order) |-> LET w == order[p] IN IF combined /\ Off(w) THEN M[w[1]][w[2]] + M[w[2]][w[1]] ELSE M[w[1]][w[2]]]
Entry(v, order, i, j, combined) ==
  LET hit == {p \in 1..Len(order) : order[p] = <<i, j>> \/ order[p] = <<j, i>>}
  IN  IF hit = {} THEN 0 ELSE LET p == CHOOSE p \in hit : TRUE IN IF combined /\ i # j THEN v[p] \div 2 ELSE v[p]
Unpack(v, order, n, combined) == [i \in 0..(n - 1) |-> [j \in 0..(n - 1) |-> Entry(v, order, i, j, combined)]]
Schemes == {"diag", "row", "stable"}
=============================================================================
