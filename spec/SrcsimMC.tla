------------------------------ MODULE SrcsimMC ------------------------------
(* The work is split into cells of the map, processed by several workers.    *)
(* Each object is registered with the cells its bounding box overlaps, the   *)
(* box wrapping around the ring of pixels; a worker copies a cell, merges    *)
(* its objects one by one and writes it back.  Checked: whatever the order   *)
(* and the size of the cells every pixel ends up with every object in range  *)
(* exactly once.                                                             *)
EXTENDS Srcsim
CONSTANTS N, Objs, Workers
VARIABLES csize, op, pos, rad, map, cells, work
vars == <<csize, op, pos, rad, map, cells, work>>
(* pixels 0..N-1 on a ring; distance along the ring *)
Dist(a, b) == LET d == (a - b) % N IN Min2(d, N - d)
NCell == (N + csize - 1) \div csize
Pixels(c) == {p \in 0..(N - 1) : p \div csize = c}
(* registered with the cells of the pixels pos-rad .. pos+rad, each wrapped around the ring. (Wrapping the
   numbers of the cells instead loses pixels when the last cell is not full: Right fails then.) *)
CellsOf(o) == {(p % N) \div csize : p \in (pos[o] - rad[o])..(pos[o] + rad[o])}
Prof(o, p) == LET d == Dist(pos[o], p) IN IF d > rad[o] THEN 0 ELSE rad[o] + 1 - d
Amp(o) == IF op = "min" THEN -o ELSE o
Init == /\ csize \in 1..N /\ op \in {"add", "max", "min"}
        /\ pos \in [Objs -> 0..(N - 1)] /\ rad \in [Objs -> 0..2]
        /\ map = [p \in 0..(N - 1) |-> 0] /\ cells = {c \in 0..(NCell - 1) : \E o \in Objs : c \in CellsOf(o)}
        /\ work = [w \in Workers |-> [c |-> -1, todo |-> {}, buf |-> <<>>]]
Take(w) == /\ work[w].c = -1 /\ \E c \in cells :
             /\ cells' = cells \ {c}
             /\ work' = [work EXCEPT ![w] = [c |-> c, todo |-> {o \in Objs : c \in CellsOf(o)}, buf |-> [p \in Pixels(c) |-> map[p]]]]
           /\ UNCHANGED <<csize, op, pos, rad, map>>
Merge(w) == /\ work[w].c # -1 /\ \E o \in work[w].todo :
              work' = [work EXCEPT ![w].todo = @ \ {o}, ![w].buf = [p \in DOMAIN @ |-> Comb(op, @[p], Amp(o) * Prof(o, p))]]
            /\ UNCHANGED <<csize, op, pos, rad, map, cells>>
Put(w) == /\ work[w].c # -1 /\ work[w].todo = {}
          /\ map' = [p \in 0..(N - 1) |-> IF p \in DOMAIN work[w].buf THEN work[w].buf[p] ELSE map[p]]
          /\ work' = [work EXCEPT ![w] = [c |-> -1, todo |-> {}, buf |-> <<>>]]
          /\ UNCHANGED <<csize, op, pos, rad, cells>>
Next == \E w \in Workers : Take(w) \/ Merge(w) \/ Put(w)
Spec == Init /\ [][Next]_vars
Done == cells = {} /\ \A w \in Workers : work[w].c = -1
RECURSIVE All(_, _, _)
All(S, p, v) == IF S = {} THEN v ELSE LET o == CHOOSE o \in S : TRUE IN All(S \ {o}, p, Comb(op, v, Amp(o) * Prof(o, p)))
Right == Done => \A p \in 0..(N - 1) : map[p] = All(Objs, p, 0)
Disjoint == \A v, w \in Workers : v # w /\ work[v].c # -1 => work[v].c # work[w].c
=============================================================================
