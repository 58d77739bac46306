------------------------------ MODULE TraceP05 ------------------------------
(* o.steps: the operations of a history, each with the map it started from,  *)
(* the map it gave (values times 10000) and the positions of the rows and    *)
(* columns of the result in pixel coordinates of the input map (1/1000).     *)
EXTENDS Resample, SinTab, TraceBase
U == 10000
M(io, c) == [n |-> io.n, d |-> io.d[c]]
Same(s, f(_), tol) ==
  Bad("pre", s.out.pre # s.in.pre)
  \cup UNION {LET e == f(M(s.in, c)) IN
              Bad("shape", s.out.n # e.n)
              \cup Bad("values", s.out.n = e.n /\ ~NearSeq(s.out.d[c], e.d, tol))
              : c \in 1..Len(s.in.d)}
Pos(s, py, px, tol) == Bad("rows", ~NearSeq(s.py, py, tol)) \cup Bad("cols", ~NearSeq(s.px, px, tol))
\* apodisation weights, times U
Prof(profile, k, w1) == IF profile = "lin" THEN RDiv(U * k, w1) ELSE RDiv(10000000 - Sin25(36 - ((72 * k) \div w1)), 2000)
ApodW(profile, w, n, p) == LET l == IF p < w THEN Prof(profile, p + 1, w + 1) ELSE U
                               h == IF n - 1 - p < w THEN Prof(profile, n - p, w + 1) ELSE U
                           IN  RDiv(l * h, U)
\* v*w/U without overflow
MulW(v, w) == (v \div U) * w + RDiv((v % U) * w, U)
\* crossfade along an axis of length n: weight of the pixel itself (U minus: of its partner)
CrossW(w, n, p) == IF p < w THEN U - RDiv(U * (w - p), 2 * w + 1) ELSE IF n - 1 - p < w THEN U - RDiv(U * (p - (n - 1 - w)), 2 * w + 1) ELSE U
Partner(w, n, p) == IF p < w THEN n - w + p ELSE p - (n - w)
CrossX(m, w) == IF w = 0 THEN m ELSE Make(m.n, LAMBDA y, x : LET c == CrossW(w, m.n[2], x) IN
   IF c = U THEN At(m, y, x) ELSE MulW(At(m, y, x), c) + MulW(At(m, y, Partner(w, m.n[2], x)), U - c))
CrossY(m, w) == IF w = 0 THEN m ELSE Make(m.n, LAMBDA y, x : LET c == CrossW(w, m.n[1], y) IN
   IF c = U THEN At(m, y, x) ELSE MulW(At(m, y, x), c) + MulW(At(m, Partner(w, m.n[1], y), x), U - c))
ApodM(m, s) == LET base == IF s.fill = "mean" THEN RDiv(SumSeq(m.d), Len(m.d)) ELSE 0 IN
  IF s.fill = "crossfade" THEN CrossX(CrossY(m, s.w[1]), s.w[2])
  ELSE Make(m.n, LAMBDA y, x : base + MulW(At(m, y, x) - base, RDiv(ApodW(s.profile, s.w[1], m.n[1], y) * ApodW(s.profile, s.w[2], m.n[2], x), U)))
Ident(n) == WindowPos(n, 0)
Step(s) ==
  Bad("modified", ~s.same)
  \cup
  CASE s.op = "pad" ->
         Same(s, LAMBDA m : IF s.wrap THEN PadWrap(m, s.pix) ELSE Pad(m, s.pix, s.value), 0)
         \cup Pos(s, WindowPos(s.out.n[1], -s.pix[1][1]), WindowPos(s.out.n[2], -s.pix[1][2]), 1)
         \cup Bad("slice", s.inner # s.in.d)
    [] s.op = "downgrade" ->
         Same(s, LAMBDA m : Downgrade(m, s.f, s.off, s.incl, s.red), 4)
         \cup Pos(s, BlockPos(s.in.n[1], s.f[1], s.off[1], s.incl), BlockPos(s.in.n[2], s.f[2], s.off[2], s.incl), 1)
    [] s.op = "upgrade" ->
         LET n == IF s.oshape = <<>> THEN UpShape(s.in.n, s.f, s.off, s.incl) ELSE s.oshape IN
         Same(s, LAMBDA m : Upgrade(m, s.f, n, s.off, s.incl), 0)
         \cup Pos(s, ExpandPos(s.f[1], n[1], s.off[1], s.incl), ExpandPos(s.f[2], n[2], s.off[2], s.incl), 1)
    [] s.op = "shift" ->
         Same(s, LAMBDA m : Shift(m, s.off), IF s.frac THEN 20 ELSE 0)
         \cup Pos(s, WindowPos(s.in.n[1], IF s.keep THEN 0 ELSE -s.off[1]), WindowPos(s.in.n[2], IF s.keep THEN 0 ELSE -s.off[2]), 1)
    [] s.op = "fftshift" ->
         Same(s, LAMBDA m : Shift(m, IF s.inv THEN <<-(m.n[1] \div 2), -(m.n[2] \div 2)>> ELSE <<m.n[1] \div 2, m.n[2] \div 2>>), 0)
    [] s.op = "stamp" ->
         Same(s, LAMBDA m : Window(m, s.n, s.o[1], s.o[2], s.value), 0)
         \cup Pos(s, WindowPos(s.n[1], s.o[1]), WindowPos(s.n[2], s.o[2]), 1)
    [] s.op = "apod" -> Same(s, LAMBDA m : ApodM(m, s), 60) \cup Pos(s, Ident(s.in.n[1]), Ident(s.in.n[2]), 1)
    [] s.op = "blank" -> Bad("blank", s.blanks # <<<<BlankRows(M(s.in, 1), s.value, TRUE), BlankCols(M(s.in, 1), s.value, TRUE)>>,
                                                   <<BlankRows(M(s.in, 1), s.value, FALSE), BlankCols(M(s.in, 1), s.value, FALSE)>>>>)
    [] s.op = "crop" ->      \* autocrop to the non-blank part, plus blank pixels up to the margin
         LET m == M(s.in, 1)
             b == <<<<BlankRows(m, s.value, TRUE), BlankCols(m, s.value, TRUE)>>, <<BlankRows(m, s.value, FALSE), BlankCols(m, s.value, FALSE)>>>>
             o == <<s.py[1] \div 1000, s.px[1] \div 1000>>       \* where the result starts
         IN  Bad("origin", s.py[1] % 1000 # 0 \/ s.px[1] % 1000 # 0)
             \cup Bad("short", \E k \in 1..2 : s.out.n[k] # m.n[k] - b[1][k] - b[2][k] + s.margin)
             \cup Bad("lost", \E k \in 1..2 : o[k] > b[1][k] \/ o[k] + s.out.n[k] < m.n[k] - b[2][k])
             \cup Same(s, LAMBDA x : Window(x, s.out.n, o[1], o[2], 0), 0)
             \cup Pos(s, WindowPos(s.out.n[1], o[1]), WindowPos(s.out.n[2], o[2]), 1)
             \cup Bad("padcrop", s.again # s.out.d)
    [] s.op = "geo" ->       \* geometry-only versions
         Bad("shape", s.shape # s.eshape) \cup Pos(s, s.ey, s.ex, 1)
    [] s.op = "tile" ->      \* cut the map and put it together again
         Same(s, LAMBDA m : m, 0) \cup Pos(s, Ident(s.in.n[1]), Ident(s.in.n[2]), 1)
    [] s.op = "union" ->
         LET lo == [k \in 1..2 |-> MinOf({s.boxes[b][1][k] : b \in 1..Len(s.boxes)})]
             hi == [k \in 1..2 |-> MaxOf({s.boxes[b][2][k] : b \in 1..Len(s.boxes)})]
         IN  Bad("shape", s.out.n # <<hi[1] - lo[1], hi[2] - lo[2]>>) \cup Pos(s, WindowPos(hi[1] - lo[1], lo[1]), WindowPos(hi[2] - lo[2], lo[2]), 1)
Failing(r) ==
  IF r.x # "" THEN {"raised"}
  ELSE UNION {Step(r.o.steps[k]) : k \in 1..Len(r.o.steps)}
TNext == i <= NTrace /\ Report(Trace[i], IF Trace[i].k = "deleg" THEN Deleg(Trace[i]) ELSE Failing(Trace[i])) /\ i' = i + 16
=============================================================================
