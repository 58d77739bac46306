----------------------------- MODULE UnwindMC -------------------------------
(* Following a cyclic coordinate along a path *)
EXTENDS Sky
CONSTANTS P, MaxLen
VARIABLES cyc, line, true
vars == <<cyc, line, true>>
\* true: the real path, in steps of less than half a period; cyc: what is seen of it (mod P);
\* line: the unwound version
Init == \E x \in 0..(P - 1) : cyc = <<x>> /\ line = <<Rewind(x, 0, P)>> /\ true = <<x>>
Step(d) == LET t == true[Len(true)] + d
               c == FMod(t, P)
               l == line[Len(line)]
           IN  /\ true' = Append(true, t) /\ cyc' = Append(cyc, c)
               /\ line' = Append(line, Rewind(c, l, P))
Next == Len(cyc) < MaxLen /\ \E d \in -((P - 1) \div 2)..((P - 1) \div 2) : Step(d)
\* unwinding recovers the path, up to one overall number of turns
Recovers == \A k \in 1..Len(line) : line[k] - true[k] = line[1] - true[1]
Equivalent == \A k \in 1..Len(line) : FMod(line[k] - cyc[k], P) = 0
Principal == -P <= 2 * line[1] /\ 2 * line[1] <= P
Inv == Recovers /\ Equivalent /\ Principal
=============================================================================
