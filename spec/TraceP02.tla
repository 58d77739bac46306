------------------------------ MODULE TraceP02 ------------------------------
EXTENDS Patch, TraceBase
(* Arguments common to all: n = <<ny, nx>>, nphi, wrap ("auto", "plain",     *)
(* "none"), pre (number of leading components), data (flat input).           *)
WrapOf(r) == IF r.a.wrap = "auto" THEN <<0, Period(r.a.nphi, r.a.n[2])>> ELSE <<0, 0>>
PosOK(obs, b, t, m, w) ==
  LET want == [j \in 1..m |-> 500 * BoxCentre2(b, t, j - 1)]
  IN  IF w = 0 THEN NearSeq(obs, want, 3) ELSE NearModSeq(obs, want, 3, 1000 * w)
\* flat value at component c, pixel (y, x) (0-based)
At(data, ny, nx, c, y, x) == data[c * ny * nx + y * nx + x + 1]
\* expected values of a my x mx cut
Cut2(r, by, ty, my, bx, tx, mx, fill(_, _, _)) ==
  LET ny == r.a.n[1] nx == r.a.n[2] w == WrapOf(r) IN
  [k \in 1..(r.a.pre * my * mx) |->
     LET c == (k - 1) \div (my * mx)  j == ((k - 1) \div mx) % my  l == (k - 1) % mx
         y == Home(Pos(by, ty, j), ny, w[1])  x == Home(Pos(bx, tx, l), nx, w[2])
     IN  IF y = Nowhere \/ x = Nowhere THEN fill(c, j, l) ELSE At(r.a.data, ny, nx, c, y, x)]
Comb(op, old, new) == CASE op = "set" -> new [] op = "add" -> old + new
                        [] op = "max" -> Max2(old, new) [] op = "sub" -> old - new
\* like Cut2, but combining with what is in an existing output
Comb2(r, by, ty, my, bx, tx, mx, odata, op) ==
  LET ny == r.a.n[1] nx == r.a.n[2] w == WrapOf(r) IN
  [k \in 1..(r.a.pre * my * mx) |->
     LET c == (k - 1) \div (my * mx)  j == ((k - 1) \div mx) % my  l == (k - 1) % mx
         y == Home(Pos(by, ty, j), ny, w[1])  x == Home(Pos(bx, tx, l), nx, w[2])
     IN  IF y = Nowhere \/ x = Nowhere THEN odata[k] ELSE Comb(op, odata[k], At(r.a.data, ny, nx, c, y, x))]
\* the map after inserting the my x mx piece idata
Ins2(r, by, ty, my, bx, tx, mx, idata, op) ==
  LET ny == r.a.n[1] nx == r.a.n[2] w == WrapOf(r)
      hy == [y \in 0..(ny - 1) |-> Hits(by, ty, my, ny, w[1], y)]
      hx == [x \in 0..(nx - 1) |-> Hits(bx, tx, mx, nx, w[2], x)]
  IN  [k \in 1..(r.a.pre * ny * nx) |->
        LET c == (k - 1) \div (ny * nx)  y == ((k - 1) \div nx) % ny  x == (k - 1) % nx
        IN  IF hy[y] = {} \/ hx[x] = {} THEN r.a.data[k]
            ELSE Comb(op, r.a.data[k], At(idata, my, mx, c, CHOOSE j \in hy[y] : TRUE, CHOOSE l \in hx[x] : TRUE))]

\* a box given as pixels from:to:step per axis
PixBox(r) ==
  LET B == r.a.box       \* <<<<y0,x0>>,<<y1,x1>>,<<ty,tx>>>>
      my == BoxLen(B[1][1], B[2][1], B[3][1])  mx == BoxLen(B[1][2], B[2][2], B[3][2])
      w == WrapOf(r)
  IN  Bad("shape", r.o.shape # <<my, mx>>)
      \cup Bad("data", r.o.data # Cut2(r, B[1][1], B[3][1], my, B[1][2], B[3][2], mx, LAMBDA c, j, l : r.a.cval))
      \cup Bad("pos", my > 0 /\ mx > 0 /\ ~(PosOK(r.o.ypos, B[1][1], B[3][1], my, w[1]) /\ PosOK(r.o.xpos, B[1][2], B[3][2], mx, w[2])))
      \cup Bad("args", ~r.o.same)
\* a geometry offset by whole pixels (and turns)
Extract(r) ==
  LET my == r.a.m[1] mx == r.a.m[2] by == r.a.off[1] bx == r.a.off[2] IN
  Bad("shape", r.o.shape # <<my, mx>>)
  \cup Bad("data", r.o.data # Cut2(r, by, 1, my, bx, 1, mx, LAMBDA c, j, l : r.a.cval))
  \cup Bad("wcs", ~r.o.wcs)
  \cup Bad("args", ~r.o.same)
ExtractInto(r) ==
  LET my == r.a.m[1] mx == r.a.m[2] by == r.a.off[1] bx == r.a.off[2] IN
  Bad("shape", r.o.shape # <<my, mx>>)
  \cup Bad("data", r.o.data # Comb2(r, by, 1, my, bx, 1, mx, r.a.odata, r.a.op))
  \cup Bad("args", ~r.o.same)
InsertR(r) ==
  LET my == r.a.m[1] mx == r.a.m[2] by == r.a.off[1] bx == r.a.off[2] IN
  Bad("data", r.o.data # Ins2(r, by, 1, my, bx, 1, mx, r.a.idata, r.a.op))
  \cup Bad("geo", ~r.o.geo) \cup Bad("args", ~r.o.same)
InsertBox(r) ==
  LET B == r.a.box
      my == BoxLen(B[1][1], B[2][1], B[3][1])  mx == BoxLen(B[1][2], B[2][2], B[3][2])
  IN  Bad("data", r.o.data # Ins2(r, B[1][1], B[3][1], my, B[1][2], B[3][2], mx, r.a.idata, r.a.op))
      \cup Bad("geo", ~r.o.geo) \cup Bad("args", ~r.o.same)
\* cut out a sky box, given by the pixel coordinates of its edges
SubMap(r) ==
  LET E == r.a.edges     \* <<<<y0,x0>>,<<y1,x1>>>> in 1/1000 pixel
      Y == BoxPix(r.a.mode, E[1][1], E[2][1], r.a.noflip)
      X == BoxPix(r.a.mode, E[1][2], E[2][2], r.a.noflip)
      w == WrapOf(r)
      wx == r.a.turn     \* the answer may be expressed any number of turns away
  IN  Bad("shape", r.o.shape # <<Y[3], X[3]>>)
      \cup (IF r.k = "subgeo" THEN {} ELSE Bad("data", r.o.data # Cut2(r, Y[1], Y[2], Y[3], X[1], X[2], X[3], LAMBDA c, j, l : 0)))
      \cup Bad("pos", Y[3] > 0 /\ X[3] > 0 /\ ~(PosOK(r.o.ypos, Y[1], Y[2], Y[3], 0) /\ PosOK(r.o.xpos, X[1], X[2], X[3], wx)))
      \cup Bad("args", ~r.o.same)
\* indices of a sky box, optionally cut down to the map
SubInds(r) ==
  LET E == r.a.edges
      capf(P, n) == IF ~r.a.cap THEN P
                    ELSE IF P[2] > 0 THEN LET a == Max2(P[1], 0) b == Min2(P[1] + P[3], n) IN <<a, 1, b - a>>
                    ELSE LET a == Min2(P[1], n - 1) b == Max2(P[1] - P[3], -1) IN <<a, -1, a - b>>
      Y == capf(BoxPix(r.a.mode, E[1][1], E[2][1], r.a.noflip), r.a.n[1])
      X == capf(BoxPix(r.a.mode, E[1][2], E[2][2], r.a.noflip), r.a.n[2])
      empty == BoxPix(r.a.mode, E[1][1], E[2][1], TRUE)[3] = 0 \/ BoxPix(r.a.mode, E[1][2], E[2][2], TRUE)[3] = 0
  IN  Bad("box", ~empty /\ r.o.box # <<Y[1], X[1], Y[1] + Y[2] * Y[3], X[1] + X[2] * X[3], Y[2], X[2]>>)
\* crop a geometry to a sky box
Crop(r) ==
  LET E == r.a.edges
      capf(P, n) == LET a == Max2(P[1], 0) b == Min2(P[1] + P[3], n) IN <<a, 1, b - a>>
      Y == capf(BoxPix("round", E[1][1], E[2][1], TRUE), r.a.n[1])
      X == capf(BoxPix("round", E[1][2], E[2][2], TRUE), r.a.n[2])
  IN  IF Y[3] < 0 \/ X[3] < 0 THEN {} ELSE
      Bad("shape", r.o.shape # <<Y[3], X[3]>>)
      \cup Bad("pos", Y[3] > 0 /\ X[3] > 0 /\ ~(PosOK(r.o.ypos, Y[1], 1, Y[3], 0) /\ PosOK(r.o.xpos, X[1], 1, X[3], 0)))
      \cup Bad("args", ~r.o.same)
\* union of two maps on the same grid; the second is offset from the first
Union(r) ==
  LET n1 == r.a.n n2 == r.a.m off == r.a.off
      lo == [k \in 1..2 |-> Min2(0, off[k])]
      hi == [k \in 1..2 |-> Max2(n1[k], off[k] + n2[k])]
      my == hi[1] - lo[1] mx == hi[2] - lo[2]
      v(d, n, o, c, y, x) == IF y - o[1] \in 0..(n[1] - 1) /\ x - o[2] \in 0..(n[2] - 1)
                             THEN At(d, n[1], n[2], c, y - o[1], x - o[2]) ELSE 0
  IN  Bad("shape", r.o.shape # <<my, mx>>)
      \cup Bad("data", r.o.data # [k \in 1..(r.a.pre * my * mx) |->
             LET c == (k - 1) \div (my * mx)  y == lo[1] + (((k - 1) \div mx) % my)  x == lo[2] + ((k - 1) % mx)
             IN  v(r.a.data, n1, <<0, 0>>, c, y, x) + v(r.a.idata, n2, off, c, y, x)])
      \cup Bad("pos", ~(PosOK(r.o.ypos, lo[1], 1, my, 0) /\ PosOK(r.o.xpos, lo[2], 1, mx, 0)))
      \cup Bad("args", ~r.o.same)
\* overlap of a geometry with a box of pixels of it
\* (around the sky, if r.a.per is its period in pixels): from the first to the
\* last pixel of the box that the geometry has
Overlap(r) ==
  LET n == r.a.n  off == r.a.off  per == <<0, r.a.per>>
      Has(k) == {p \in off[k]..(off[k] + r.a.m[k] - 1) : IF per[k] = 0 THEN p >= 0 /\ p < n[k] ELSE p % per[k] < n[k]}
      lo == [k \in 1..2 |-> IF Has(k) = {} THEN 0 ELSE MinOf(Has(k))]
      hi == [k \in 1..2 |-> IF Has(k) = {} THEN 0 ELSE MaxOf(Has(k)) + 1]
      my == hi[1] - lo[1] mx == hi[2] - lo[2]
  IN  Bad("shape", r.o.shape # <<my, mx>>)
      \cup Bad("pos", my > 0 /\ mx > 0 /\ ~(PosOK(r.o.ypos, lo[1], 1, my, 0) /\ PosOK(r.o.xpos, lo[2], 1, mx, 0)))
      \cup Bad("args", ~r.o.same)
Failing(r) ==
  IF r.x # "" THEN {"raised"}
  ELSE CASE r.k = "pixbox" -> PixBox(r)
         [] r.k = "extract" -> Extract(r)
         [] r.k = "into" -> ExtractInto(r)
         [] r.k = "insert" -> InsertR(r)
         [] r.k = "insertat" -> InsertBox(r)
         [] r.k = "submap" -> SubMap(r)
         [] r.k = "subgeo" -> SubMap(r)
         [] r.k = "crop" -> Crop(r)
         [] r.k = "subinds" -> SubInds(r)
         [] r.k = "union" -> Union(r)
         [] r.k = "overlap" -> Overlap(r)
TNext == i <= NTrace /\ Report(Trace[i], IF Trace[i].k = "deleg" THEN Deleg(Trace[i]) ELSE Failing(Trace[i])) /\ i' = i + 16
=============================================================================
