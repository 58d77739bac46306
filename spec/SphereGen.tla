----------------------------- MODULE SphereGen ------------------------------
(* Histories of coordinate transformations, to be replayed into the real code *)
EXTENDS Sphere, TLC, Json, Randomization
CONSTANTS MaxOps
VARIABLES hist, len, sys
Axes == {"x", "y", "z"}
Angs == {-150, -90, -30, 0, 7, 45, 90, 123, 180, 271}
Lats == {-90, -63, -10, 0, 25, 60, 90}
Pool(h) == RandomSubset(3, [op: {"rot"}, kind: Axes \X Axes \X Axes, c: Angs \X Angs \X Angs])
           \cup RandomSubset(4, [op: {"rec", "dec"}, c: Angs \X Lats \X Angs \X Lats, restore: BOOLEAN])
           \cup RandomSubset(3, [op: {"sys"}, from: {sys}, to: {"equ", "gal", "ecl"}])
Init == hist = <<>> /\ len \in 1..MaxOps /\ sys \in {"equ", "gal", "ecl"}
Do == /\ Len(hist) < len
      /\ \E o \in Pool(hist) : hist' = Append(hist, o) /\ sys' = (IF o.op = "sys" THEN o.to ELSE sys)
      /\ UNCHANGED len
Emit == /\ Len(hist) = len
        /\ PrintT("GEN " \o ToJson([hist |-> hist]))
        /\ len' = 0 /\ UNCHANGED <<hist, sys>>
Next == Do \/ Emit
=============================================================================
