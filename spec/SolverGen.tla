------------------------------ MODULE SolverGen -----------------------------
EXTENDS Solver, TLC, Json, Randomization
CONSTANTS Q, K, MaxLen
VARIABLES s, hist, done
Pick(h) == LET O == Ops(s, Q, K)
               kinds == IF Len(h) < 2 THEN {"new"} ELSE {"step", "save", "load", "new"}
               k == RandomElement(IF RandomElement(1..3) > 1 /\ Len(h) > 1 THEN {"step"} ELSE kinds)
               S == {o \in O : o.op = k}
           IN  IF S = {} THEN RandomSubset(1, {o \in O : o.op = "new"}) ELSE RandomSubset(Min2(2, Cardinality(S)), S)
Init == s = Fresh(2, 2) /\ hist = <<>> /\ done = FALSE
Step == ~done /\ Len(hist) < MaxLen /\ (\E o \in Pick(hist) : s' = Apply(s, o) /\ hist' = Append(hist, o)) /\ UNCHANGED done
Emit == ~done /\ Len(hist) = MaxLen /\ PrintT("GEN " \o ToJson([hist |-> hist])) /\ done' = TRUE /\ UNCHANGED <<s, hist>>
Next == Step \/ Emit
=============================================================================
