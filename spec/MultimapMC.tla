----------------------------- MODULE MultimapMC -----------------------------
EXTENDS Multimap
CONSTANTS Depth
VARIABLES s, n
GL == {<<1, 4>>, <<5>>}
Init == s = Empty0 /\ n = 0
Next == n < Depth /\ \E e \in Ops(s, GL, {<<>>, <<2>>}, {3}) : s' = TLCEval(Apply(s, e)) /\ n' = n + 1
Ids == 1..Len(s.obj)
\* every cell an object shows exists, no object shows a cell twice, sizes match the shapes
WellFormed == \A k \in Ids : LET o == s.obj[k] IN Size(o) = Prod(o.pre) * Ntot(o.geos) /\ (\A c \in 1..Size(o) : o.cells[c] \in 1..Len(s.heap)) /\ (\A c \in 1..Size(o) : \A d \in 1..Size(o) : o.cells[c] = o.cells[d] => c = d)
\* the members of a multimap are disjoint and cover it
Partition == \A k \in Ids : s.obj[k].mm => LET o == s.obj[k]
                                               R(m) == {Member(o, m)[c] : c \in 1..Len(Member(o, m))}
   IN  (UNION {R(m) : m \in 1..Len(o.geos)}) = {o.cells[c] : c \in 1..Size(o)} /\ \A m \in 1..Len(o.geos) : \A l \in 1..Len(o.geos) : m # l => R(m) \cap R(l) = {}
\* an entry of a member is the member of the entry
Commute == \A k \in Ids : LET o == s.obj[k] IN (o.mm /\ o.pre # <<>>) => \A m \in 1..Len(o.geos) : \A j \in 1..o.pre[1] :
   Entry([mm |-> FALSE, pre |-> o.pre, geos |-> <<o.geos[m]>>, cells |-> Member(o, m)], j) = Member([o EXCEPT !.pre = Tail(@), !.cells = Entry(o, j)], m)
=============================================================================
