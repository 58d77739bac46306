----------------------------- MODULE SlicingMC ------------------------------
(* Exhaustive exploration of chains of slices of one axis *)
EXTENDS Slicing
CONSTANTS N, MaxDepth, Lim, MaxStep
VARIABLES ax, depth, unit
vars == <<ax, depth, unit>>
Ends == (-Lim..Lim) \cup {None}
Steps == ((-MaxStep..MaxStep) \ {0}) \cup {None}
Init == ax = Base(N) /\ depth = 0 /\ unit = TRUE
Next == /\ depth < MaxDepth /\ depth' = depth + 1
        /\ \E b \in Ends, e \in Ends, s \in Steps :
             /\ ax' = Cut(ax, <<b, e, s>>)
             /\ unit' = (unit /\ Abs(StepOf(<<b, e, s>>)) = 1)
Js == 0..(ax.n - 1)
\* every pixel holds data of a base pixel that lies inside it on the sky
Contains == \A j \in Js : LET x == 2 * (ax.d + ax.e * j) IN Lo2(ax, j) < x /\ x < Hi2(ax, j)
\* the data exists
InBase == \A j \in Js : (ax.d + ax.e * j) \in 0..(N - 1)
\* pixels tile without overlap or gap
Tiles == \A j \in Js : j > 0 => IF ax.s > 0 THEN Hi2(ax, j - 1) = Lo2(ax, j) ELSE Lo2(ax, j - 1) = Hi2(ax, j)
\* slicing with unit steps moves nothing on the sky
Exact == unit => \A j \in Js : Centre2(ax, j) = 2 * (ax.d + ax.e * j)
\* edges of every pixel are edges of base pixels
Edges == \A j \in Js : Lo2(ax, j) % 2 = 1 /\ Hi2(ax, j) % 2 = 1
Inv == Contains /\ InBase /\ Tiles /\ Exact /\ Edges
=============================================================================
