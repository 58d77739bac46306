------------------------------ MODULE TraceP03 ------------------------------
EXTENDS Sky, TraceBase
(* a.car: the sky position of everything follows from the header integers;   *)
(* otherwise o.rdec/o.rra (or o.rx, o.ry) hold wcslib's evaluation           *)
Tol == 3
\* expected latitude/longitude of the k'th pixel coordinate pair
WantDec(r, y, k) == IF r.a.car THEN CarSky(r.a.hy, Centred(y, r.a.corner)) ELSE r.o.rdec[k]
WantRa(r, x, k) == IF r.a.car THEN CarSky(r.a.hx, Centred(x, r.a.corner)) ELSE r.o.rra[k]
Sky2(r, ys, xs, n) ==
  LET m == Len(ys) IN
  IF Len(r.o.dec) # m \/ Len(r.o.ra) # m THEN {"length"} ELSE
  Bad("dec", \E k \in 1..m : ~Near(r.o.dec[k], WantDec(r, ys[k], k), Tol))
  \cup Bad("ra", \E k \in 1..m : ~SameAngle(r.o.ra[k], WantRa(r, xs[k], k), Tol))
  \cup Bad("jump", r.a.safe /\ ~r.a.plain /\ ~SmoothRows(r.o.ra, n, Tol))
  \cup Bad("args", ~r.o.same)
Pix2Sky(r) == Sky2(r, r.a.ys, r.a.xs, r.a.row)
\* position maps: pixel (j, k) in row-major order
PosMap(r) ==
  LET ny == r.a.n[1] nx == r.a.n[2]
      ys == [k \in 1..(ny * nx) |-> 10 * ((k - 1) \div nx)]
      xs == [k \in 1..(ny * nx) |-> 10 * ((k - 1) % nx)]
  IN  Sky2(r, ys, xs, nx) \cup Bad("shape", r.o.shape # <<2, ny, nx>>) \cup Bad("geo", ~r.o.geo)
PosAxes(r) ==
  LET ny == r.a.n[1] nx == r.a.n[2] IN
  Bad("dec", ~NearSeq(r.o.dec, [k \in 1..ny |-> WantDec(r, 10 * (k - 1), k)], Tol))
  \cup Bad("ra", ~NearModSeq(r.o.ra, [k \in 1..nx |-> WantRa(r, 10 * (k - 1), k)], Tol, Turn))
  \cup Bad("jump", r.a.safe /\ ~SmoothRows(r.o.ra, nx, Tol))
\* sky to pixel. The recorded pixels are in thousandths. a.per: columns per turn in thousandths, 0 if the
\* projection has no such freedom
Sky2Pix(r) ==
  LET off == IF r.a.corner THEN 500 ELSE 0
      m == Len(r.a.ys)
      wy == [k \in 1..m |-> 100 * r.a.ys[k] + off]
      wx == [k \in 1..m |-> 100 * r.a.xs[k] + off]
      mid == 500 * r.a.n[2] + off
      sm == \A k \in 1..(m - 1) : k % r.a.row # 0 => Abs(wx[k + 1] - wx[k]) < r.a.per \div 2 - 10
  IN  Bad("y", ~NearSeq(r.o.y, wy, 2))
      \cup Bad("x", IF r.a.per = 0 THEN ~NearSeq(r.o.x, wx, 2) ELSE ~NearModSeq(r.o.x, wx, 2, r.a.per))
      \cup Bad("branch", r.a.per > 0 /\ r.a.safe = 1 /\ \E k \in 1..Len(r.o.x) : Abs(r.o.x[k] - mid) > r.a.per \div 2 + 2)
      \* following a path: continuous, and starting within the principal range
      \cup Bad("path", r.a.per > 0 /\ r.a.safe = 2 /\ sm /\ Len(r.o.x) = m /\
              \E k \in 1..m : IF k = 1 THEN Abs(r.o.x[1] - mid) > r.a.per \div 2 + 2
                              ELSE (k - 1) % r.a.row # 0 /\ Abs((r.o.x[k] - r.o.x[k - 1]) - (wx[k] - wx[k - 1])) > 4)
      \cup Bad("args", ~r.o.same)
\* there and back again
Round(r) ==
  LET m == Len(r.a.ys) IN
  Bad("y", ~NearSeq(r.o.y, [k \in 1..m |-> 100 * r.a.ys[k]], 2))
  \cup Bad("x", ~NearModSeq(r.o.x, [k \in 1..m |-> 100 * r.a.xs[k]], 2, r.a.per))
PixMap(r) ==
  LET ny == r.a.n[1] nx == r.a.n[2] IN
  Bad("y", r.o.y # [k \in 1..(ny * nx) |-> (k - 1) \div nx]) \cup Bad("x", r.o.x # [k \in 1..(ny * nx) |-> (k - 1) % nx])
\* is a position inside the map? Left open within half a pixel of the edge
Contains(r) ==
  LET yes(p, n) == p > -5 /\ p < 10 * n - 5
      no(p, n) == p < -5 \/ p > 10 * n - 5
      T == r.a.per \div 100
      xyes(x) == \E t \in -5..5 : yes(x + t * T, r.a.n[2])
      xno(x) == \A t \in -5..5 : no(x + t * T, r.a.n[2])
  IN  Bad("len", Len(r.o.in) # Len(r.a.ys))
      \cup Bad("in", \E k \in 1..Len(r.a.ys) : yes(r.a.ys[k], r.a.n[1]) /\ xyes(r.a.xs[k]) /\ r.o.in[k] # 1)
      \cup Bad("out", \E k \in 1..Len(r.a.ys) : (no(r.a.ys[k], r.a.n[1]) \/ xno(r.a.xs[k])) /\ r.o.in[k] # 0)
\* utils.unwind and utils.rewind on integers
UnwindR(r) ==
  LET s == r.a.vals  n == Len(s)  P == r.a.per
      sm == \A k \in 1..(n - 1) : FMod(2 * (s[k + 1] - s[k]) + P, 2 * P) # 0     \* no ambiguous steps
  IN  Bad("equiv", ~NearModSeq(r.o.res, s, 0, P))
      \cup Bad("jump", r.a.mode = "unwind" /\ sm /\ \E k \in 1..(Len(r.o.res) - 1) : 2 * Abs(r.o.res[k + 1] - r.o.res[k]) > P)
      \cup Bad("ref", LET k0 == IF r.a.refmode = "middle" THEN n \div 2 + 1 ELSE 1 IN
                       IF r.a.mode = "rewind" THEN \E k \in 1..Len(r.o.res) : 2 * Abs(r.o.res[k] - r.a.ref) > P
                       ELSE 2 * Abs(r.o.res[k0] - r.a.ref) > P)
      \cup Bad("args", ~r.o.same)
Failing(r) ==
  IF r.x # "" THEN {"raised"}
  ELSE CASE r.k = "pix2sky" -> Pix2Sky(r)
         [] r.k = "sky2pix" -> Sky2Pix(r)
         [] r.k = "posmap" -> PosMap(r)
         [] r.k = "posaxes" -> PosAxes(r)
         [] r.k = "round" -> Round(r)
         [] r.k = "pixmap" -> PixMap(r)
         [] r.k = "contains" -> Contains(r)
         [] r.k = "unwind" -> UnwindR(r)
TNext == i <= NTrace /\ Report(Trace[i], IF Trace[i].k = "deleg" THEN Deleg(Trace[i]) ELSE Failing(Trace[i])) /\ i' = i + 16
=============================================================================
