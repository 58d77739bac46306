------------------------------ MODULE Resample ------------------------------
(* Padding, block reduction and expansion, cyclic shifts and windows of maps.*)
(* A map is [n |-> <<ny, nx>>, d |-> row-major values]. Everything is        *)
(* separable, so most definitions are for one axis. Positions are pixel      *)
(* coordinates of the input map in 1/1000 pixels.                            *)
EXTENDS Common
At(m, y, x) == m.d[y * m.n[2] + x + 1]
Make(n, f(_, _)) == [n |-> n, d |-> [k \in 1..(n[1] * n[2]) |-> f((k - 1) \div n[2], (k - 1) % n[2])]]
In(m, y, x) == y \in 0..(m.n[1] - 1) /\ x \in 0..(m.n[2] - 1)
\* windows: the map seen through an n-sized window starting at (y0, x0)
Window(m, n, y0, x0, value) == Make(n, LAMBDA y, x : IF In(m, y + y0, x + x0) THEN At(m, y + y0, x + x0) ELSE value)
WindowPos(n, o) == [k \in 1..n |-> 1000 * (k - 1 + o)]
Pad(m, p, value) == Window(m, <<m.n[1] + p[1][1] + p[2][1], m.n[2] + p[1][2] + p[2][2]>>, -p[1][1], -p[1][2], value)
PadWrap(m, p) == Make(<<m.n[1] + p[1][1] + p[2][1], m.n[2] + p[1][2] + p[2][2]>>,
                   LAMBDA y, x : At(m, FMod(y - p[1][1], m.n[1]), FMod(x - p[1][2], m.n[2])))
Shift(m, o) == Make(m.n, LAMBDA y, x : At(m, FMod(y - o[1], m.n[1]), FMod(x - o[2], m.n[2])))
(* The blocks of size f starting at off that n pixels divide into, as a      *)
(* sequence of <<first, last + 1>>; incomplete ones count if incl            *)
Blocks(n, f, off, incl) ==
  LET nw == IF n > off THEN (n - off) \div f ELSE 0
      rest == n - off - nw * f IN
  (IF incl /\ off > 0 THEN <<<<0, Min2(off, n)>>>> ELSE <<>>)
  \o [k \in 1..nw |-> <<off + (k - 1) * f, off + k * f>>]
  \o (IF incl /\ rest > 0 THEN <<<<off + nw * f, n>>>> ELSE <<>>)
\* centre of the k'th block of full size, which the pixel stands for
BlockPos(n, f, off, incl) == LET B == Blocks(n, f, off, incl)
                                 k0 == IF incl /\ off > 0 THEN 1 ELSE 0 IN
                             [k \in 1..Len(B) |-> 1000 * (off + (k - 1 - k0) * f) + 500 * (f - 1)]
Pixels(m, by, bx) == [k \in 1..((by[2] - by[1]) * (bx[2] - bx[1])) |->
                        At(m, by[1] + ((k - 1) \div (bx[2] - bx[1])), bx[1] + ((k - 1) % (bx[2] - bx[1])))]
Reduce(op, s) == CASE op = "sum"  -> SumSeq(s)
                   [] op = "mean" -> RDiv(SumSeq(s), Len(s))
                   [] op = "max"  -> MaxOf(Range(s))
                   [] op = "min"  -> MinOf(Range(s))
Downgrade(m, f, off, incl, op) ==
  LET By == Blocks(m.n[1], f[1], off[1], incl)
      Bx == Blocks(m.n[2], f[2], off[2], incl)
  IN  Make(<<Len(By), Len(Bx)>>, LAMBDA y, x : Reduce(op, Pixels(m, By[y + 1], Bx[x + 1])))
(* Expansion to n pixels: which input pixel each output pixel repeats (-1:   *)
(* none, gives zero)                                                         *)
Source(nin, f, n, off, incl) ==
  [k \in 1..n |-> LET p == k - 1
                      q == IF p < off THEN (IF incl THEN 0 ELSE -1)
                           ELSE (p - off) \div f + (IF incl /\ off > 0 THEN 1 ELSE 0)
                  IN  IF q >= nin THEN -1 ELSE q]
ExpandPos(f, n, off, incl) == [k \in 1..n |-> RDiv(1000 * (2 * (k - 1 - off) + 1), 2 * f) - 500 + (IF incl /\ off > 0 THEN 1000 ELSE 0)]
Upgrade(m, f, n, off, incl) ==
  LET sy == Source(m.n[1], f[1], n[1], off[1], incl)
      sx == Source(m.n[2], f[2], n[2], off[2], incl)
  IN  Make(n, LAMBDA y, x : IF sy[y + 1] < 0 \/ sx[x + 1] < 0 THEN 0 ELSE At(m, sy[y + 1], sx[x + 1]))
UpShape(n, f, off, incl) == [k \in 1..2 |-> (n[k] - (IF incl /\ off[k] > 0 THEN 1 ELSE 0)) * f[k] + off[k]]
\* blank margins {front, back} of rows and columns that only hold value v
BlankRows(m, v, front) == LET full(y) == \A x \in 0..(m.n[2] - 1) : At(m, y, x) = v
                              K == {k \in 0..m.n[1] : \A j \in 0..(k - 1) : full(IF front THEN j ELSE m.n[1] - 1 - j)}
                          IN  MaxOf(K)
BlankCols(m, v, front) == LET full(x) == \A y \in 0..(m.n[1] - 1) : At(m, y, x) = v
                              K == {k \in 0..m.n[2] : \A j \in 0..(k - 1) : full(IF front THEN j ELSE m.n[2] - 1 - j)}
                          IN  MaxOf(K)
=============================================================================
