------------------------------ MODULE Wavelets ------------------------------
(* Multi-resolution decompositions.                                           *)
(*                                                                            *)
(* 1. The Haar pyramid: the map is averaged over blocks of two by two pixels  *)
(*    (partial blocks at the edges average what there is), what the averages  *)
(*    leave out is one scale, and the averages are decomposed in turn.        *)
(* 2. Band-limited resampling: a sum of waves seen on another grid of pixels  *)
(*    covering the same area.                                                 *)
(* 3. Families of profiles in multipole space: the differences of a rising    *)
(*    sequence of low-pass filters, or cosine bumps between peaks.            *)
EXTENDS Common, Trig, TLC

\* ------------------------------------------------------------------ Haar
\* The block a pixel belongs to (from 0), where whole blocks start at off (0 or 1)
Block(x, off) == (x + (2 - off)) \div 2 - (IF off = 0 THEN 1 ELSE 0)
NBlocks(n, off) == Block(n - 1, off) + 1
Members(b, n, off) == {x \in 0..(n - 1) : Block(x, off) = b}
\* images are row-major sequences, numbers are integers times S
S == 20736                        \* every mean of a few levels is whole or nearly so
At(m, nx, y, x) == m[(y * nx) + x + 1]
RowMean(m, ny, nx, off) == \* averages along x
  TLCEval([k \in 1..(ny * NBlocks(nx, off)) |->
     LET y == (k - 1) \div NBlocks(nx, off)
         X == Members((k - 1) % NBlocks(nx, off), nx, off)
         lo == MinOf(X)
     IN IF Cardinality(X) = 1 THEN At(m, nx, y, lo) ELSE RDiv(At(m, nx, y, lo) + At(m, nx, y, lo + 1), 2)])
ColMean(m, ny, nx, off) ==
  TLCEval([k \in 1..(NBlocks(ny, off) * nx) |->
     LET x == (k - 1) % nx
         Y == Members((k - 1) \div nx, ny, off)
         lo == MinOf(Y)
     IN IF Cardinality(Y) = 1 THEN At(m, nx, lo, x) ELSE RDiv(At(m, nx, lo, x) + At(m, nx, lo + 1, x), 2)])
Down(m, ny, nx, oy, ox) == RowMean(ColMean(m, ny, nx, oy), NBlocks(ny, oy), nx, ox)
Up(d, ny, nx, oy, ox) == TLCEval([k \in 1..(ny * nx) |-> At(d, NBlocks(nx, ox), Block((k - 1) \div nx, oy), Block((k - 1) % nx, ox))])
RECURSIVE Pyramid(_, _, _, _, _)
\* scales from the finest to the coarsest; [m, ny, nx]; offs = the block offsets of each level
Pyramid(m, ny, nx, offs, k) ==
  IF k > Len(offs) THEN <<[m |-> m, ny |-> ny, nx |-> nx]>>
  ELSE LET d == Down(m, ny, nx, offs[k][1], offs[k][2])
           u == Up(d, ny, nx, offs[k][1], offs[k][2])
       IN <<[m |-> [j \in 1..Len(m) |-> m[j] - u[j]], ny |-> ny, nx |-> nx]>>
          \o Pyramid(d, NBlocks(ny, offs[k][1]), NBlocks(nx, offs[k][2]), offs, k + 1)
RECURSIVE Collapse(_, _, _)
Collapse(w, offs, k) ==
  IF k > Len(offs) THEN w[k].m
  ELSE LET u == Up(Collapse(w, offs, k + 1), w[k].ny, w[k].nx, offs[k][1], offs[k][2])
       IN [j \in 1..Len(u) |-> u[j] + w[k].m[j]]
\* the pixel (doubled coordinates, so that centres and edges are whole) of a level's pixel in units of the finest level
RECURSIVE Place(_, _, _)
Place(x, offs, k) == IF k = 0 THEN x ELSE (2 * Place(x, offs, k - 1)) + offs[k]

\* ------------------------------------------------------------- resampling
\* a wave of frequency f at a pixel of a grid of n pixels, phase in turns/(2n)
PhaseCorner(f, x, n) == f * ((2 * x) + 1)      \* pixel centres of equal cells
PhaseCentre(f, x, n) == f * (2 * x)            \* pixels counted from a common first centre
\* the value (times Unit) of modes <<fy, fx, c, s>> at pixel (y,x) of an (ny,nx) grid
Wave(modes, ny, nx, y, x, corner) ==
  LET L == CHOOSE l \in 1..(ny * nx) : l % ny = 0 /\ l % nx = 0 /\ \A k \in 1..(l - 1) : k % ny # 0 \/ k % nx # 0
      D == 2 * L
      Ph(md) == IF corner THEN (PhaseCorner(md[1], y, ny) * (L \div ny)) + (PhaseCorner(md[2], x, nx) * (L \div nx))
                ELSE (PhaseCentre(md[1], y, ny) * (L \div ny)) + (PhaseCentre(md[2], x, nx) * (L \div nx))
  IN SumSeq([k \in 1..Len(modes) |-> (modes[k][3] * Cos(Ph(modes[k]), D)) + (modes[k][4] * Sin(Ph(modes[k]), D))])

\* ---------------------------------------------------------------- profiles
\* needlet i (from 1) with the given peaks at multipole l, times Unit
Needlet(peaks, j, l) ==
  IF j > 1 /\ l >= peaks[j - 1] /\ l <= peaks[j] THEN Cos(peaks[j] - l, 4 * (peaks[j] - peaks[j - 1]))
  ELSE IF j < Len(peaks) /\ l >= peaks[j] /\ l <= peaks[j + 1] THEN Cos(l - peaks[j], 4 * (peaks[j + 1] - peaks[j]))
  ELSE IF l = peaks[j] THEN Unit ELSE 0
\* squared profiles of a rising family of low-pass filters K[1..n-1], values 0..Q; the last one passes everything
Band(K, Q, j, l) == (IF j = Len(K) + 1 THEN Q ELSE K[j][l]) - (IF j = 1 THEN 0 ELSE K[j - 1][l])
=============================================================================
