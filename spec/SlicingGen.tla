----------------------------- MODULE SlicingGen -----------------------------
(* Behaviours to be replayed into the real code: chains of 2d slices. The    *)
(* state is that of the specification; a chain is printed when complete.     *)
EXTENDS Slicing, TLC, Json, Randomization
CONSTANTS MaxDepth, Lim, MaxStep
VARIABLES ny, nx, ay, ax, chain, cur, depth
vars == <<ny, nx, ay, ax, chain, cur, depth>>
Ends == (-Lim..Lim) \cup {None}
Steps == ((-MaxStep..MaxStep) \ {0}) \cup {None}
Slices(h) == RandomSubset(60, Ends \X Ends \X Steps)
Init == /\ ny \in 1..6 /\ nx \in 1..7 /\ depth \in 1..MaxDepth
        /\ ay = Base(ny) /\ ax = Base(nx) /\ chain = <<>> /\ cur = <<>>
PickY == /\ Len(chain) < depth /\ cur = <<>>
         /\ \E s \in Slices(chain) : /\ LenOf(s, ay.n) > 0
                              /\ cur' = s /\ ay' = Cut(ay, s)
         /\ UNCHANGED <<ny, nx, ax, chain, depth>>
PickX == /\ cur # <<>>
         /\ \E s \in Slices(chain) : /\ LenOf(s, ax.n) > 0
                              /\ chain' = Append(chain, <<cur, s>>) /\ ax' = Cut(ax, s)
         /\ cur' = <<>> /\ UNCHANGED <<ny, nx, ay, depth>>
Emit == /\ Len(chain) = depth /\ cur = <<>>
        /\ PrintT("GEN " \o ToJson([shape |-> <<ny, nx>>, chain |-> chain]))
        /\ depth' = 0 /\ cur' = <<>> /\ UNCHANGED <<ny, nx, ay, ax, chain>>
Next == PickY \/ PickX \/ Emit
=============================================================================
