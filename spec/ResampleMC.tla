----------------------------- MODULE ResampleMC -----------------------------
(* Identities between the operations, for every small map of distinct values *)
EXTENDS Resample
CONSTANTS MaxN, MaxF
VARIABLES n, f, off, incl, done
vars == <<n, f, off, incl, done>>
Init == /\ n \in (1..MaxN) \X (1..MaxN)
        /\ f \in (1..MaxF) \X (1..MaxF)
        /\ off \in (0..(MaxF - 1)) \X (0..(MaxF - 1))
        /\ incl \in BOOLEAN
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<n, f, off, incl>>
m == Make(n, LAMBDA y, x : 7 * y * y + 10 * x + 1)
Ok == \A k \in 1..2 : off[k] < f[k] /\ off[k] <= n[k]
\* every pixel is in exactly one block if incomplete ones count, in at most one otherwise
Partition == Ok => \A k \in 1..2 : \A p \in 0..(n[k] - 1) :
   LET B == Blocks(n[k], f[k], off[k], incl)
       c == Cardinality({b \in 1..Len(B) : B[b][1] <= p /\ p < B[b][2]}) IN
   IF incl THEN c = 1 ELSE c <= 1
\* whole blocks are where their pixels are
Centre == Ok => \A k \in 1..2 : LET B == Blocks(n[k], f[k], off[k], incl) IN \A b \in 1..Len(B) :
   B[b][2] - B[b][1] = f[k] => 2 * BlockPos(n[k], f[k], off[k], incl)[b] = 1000 * (B[b][1] + B[b][2] - 1)
UpDown == Ok => LET u == Upgrade(m, f, UpShape(n, f, off, incl), off, incl) IN
                (incl => \A k \in 1..2 : n[k] > 1 \/ off[k] = 0) =>
                \A op \in {"mean", "max", "min"} : Downgrade(u, f, off, incl, op) = m
SumPreserved == (Ok /\ incl) => SumSeq(Downgrade(m, f, off, TRUE, "sum").d) = SumSeq(m.d)
UpPos == Ok => \A k \in 1..2 : LET P == ExpandPos(f[k], UpShape(n, f, off, incl)[k], off[k], incl) IN
   \A j \in 1..(Len(P) - 1) : Near(P[j + 1] - P[j], RDiv(1000, f[k]), 1)
PadCrop == LET p == <<off, f>> IN Window(Pad(m, p, -1), n, p[1][1], p[1][2], 0) = m /\ Window(PadWrap(m, p), n, p[1][1], p[1][2], 0) = m
ShiftBack == Shift(Shift(m, off), <<-off[1], -off[2]>>) = m /\ Shift(m, n) = m
Inv == Partition /\ Centre /\ UpDown /\ SumPreserved /\ UpPos /\ PadCrop /\ ShiftBack
=============================================================================
