------------------------------ MODULE FilesGen ------------------------------
(* Histories of writing, opening and reading, for replay *)
EXTENDS Files, TLC, Json, Randomization
CONSTANTS C, MaxLen, MaxHandles, Hdf    \* Hdf: only the hdf file, written to more often
VARIABLES s, hist, done
vars == <<s, hist, done>>
Pool(h, S) == IF Cardinality(S) = 0 THEN {} ELSE RandomSubset(Min2(6, Cardinality(S)), S)
Kinds(h) == LET O == Ops(s, C)
                R == {o \in O : o.op \in {"rf", "rh", "mf", "mh", "lr", "of", "oh"}}
                W == {o \in O : o.op = "wh" \/ (o.op = "wf" /\ ~Hdf)}
                \* few writes, and only those followed by something to read
            IN  IF R = {} \/ (Len(h) % (IF Hdf THEN 2 ELSE 4) = 0) THEN Pool(h, W) ELSE IF Hdf THEN Pool(h, R) ELSE Pool(h, {o \in R : o.op \in {"lr", "of", "oh"}}) \cup Pool(h, R)
Init == s = Start /\ hist = <<>> /\ done = FALSE
Step == /\ ~done /\ Len(hist) < MaxLen
        /\ \E o \in Kinds(hist) : (o.op \in {"of", "oh"} => Len(s.handles) < MaxHandles) /\ s' = Apply(s, o) /\ hist' = Append(hist, o)
        /\ UNCHANGED done
Emit == /\ ~done /\ Len(hist) = MaxLen
        /\ PrintT("GEN " \o ToJson([hist |-> hist])) /\ done' = TRUE /\ UNCHANGED <<s, hist>>
Next == Step \/ Emit
=============================================================================
