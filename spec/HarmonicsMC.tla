---------------------------- MODULE HarmonicsMC -----------------------------
(* The harmonics at every whole degree obey the addition theorem and parity;  *)
(* every ring map extends to exactly one complete grid.                       *)
EXTENDS Harmonics
CONSTANTS MaxH
VARIABLE st
Init == \/ st \in [k: {"lam"}, l: 0..3, s: 0..3, t: 0..180] /\ st.s <= st.l
        \/ st \in [k: {"grid"}, H: 4..MaxH, a: 0..MaxH, ny: 1..MaxH, flip: BOOLEAN] /\ st.a + (2 * (st.ny - 1)) <= st.H
Next == UNCHANGED st
Row(s) == [m \in 1..((2 * st.l) + 1) |-> Lam(s, st.l, m - 1 - st.l, st.t)]
Addition == st.k = "lam" => \A s2 \in 0..st.l :
   Near(SumSeq([m \in 1..((2 * st.l) + 1) |-> RDiv(Row(st.s)[m] * Row(s2)[m], U)]), IF s2 = st.s THEN RDiv(((2 * st.l) + 1) * 796, 1) ELSE 0, 40)
Parity == st.k = "lam" => \A m \in (-st.l)..st.l : Near(Lam(st.s, st.l, m, 180 - st.t), Sign(st.l + st.s) * Lam(st.s, st.l, -m, st.t), 40)
Complete == st.k = "grid" =>
   LET kind == Kind(st.H, st.a, st.ny)
       b == PadBefore(st.H, st.a, st.ny)
       c == PadAfter(st.H, st.a, st.ny)
       n == GridNum(kind, st.H)
       first == GridFirst(kind)
   IN /\ b >= 0 /\ c >= 0 /\ b + st.ny + c = n
      /\ first + (2 * b) = st.a
      \* nothing but a pole may be missing from a complete grid
      /\ first - 2 < 0 \/ (first = 2 /\ kind = "F2")
      /\ first + (2 * n) > st.H \/ (first + (2 * n) = st.H /\ kind \in {"DH", "F2"})
      \* seen from the other pole the same map has the mirrored grid
      /\ LET k2 == Kind(st.H, st.H - (st.a + (2 * (st.ny - 1))), st.ny)
         IN kind \in {"CC", "F1", "F2"} => k2 = kind \/ (kind = "CC" /\ k2 = "DH")
=============================================================================
