------------------------------ MODULE TraceP21 ------------------------------
EXTENDS Powspec, TraceBase
(* recorded arrays: matrix entries row by row, every entry followed by its E further values *)
Mat(x, n, E, e) == [g \in 0..(n - 1) |-> [j \in 0..(n - 1) |-> x[(((g * n) + j) * E) + e]]]
PackK(r) ==
  LET a == r.a
      o == TLCEval(Order(a.k, a.scheme))
  IN  Bad("shape", ~r.o.shape) \cup Bad("values", r.o.v # [z \in 1..(a.k * a.E) |-> Pack(Mat(a.x, a.n, a.E, ((z - 1) % a.E) + 1), <<o[((z - 1) \div a.E) + 1]>>, a.combined)[1]])
      \cup Bad("input", ~r.o.same)
UnpackK(r) ==
  LET a == r.a
      o == TLCEval(Order(a.k, a.scheme))
      n == a.n
  IN  Bad("shape", ~r.o.shape) \cup
      Bad("values", r.o.v # [z \in 1..(n * n * a.E) |-> LET m == (z - 1) \div a.E
                                                           e == ((z - 1) % a.E) + 1
                                                       IN  Entry([p \in 1..a.k |-> a.x[((p - 1) * a.E) + e]], o, m \div n, m % n, a.combined)])
OrderK(r) == Bad("order", r.o.v # Order(r.a.k, r.a.scheme))
(* --- files.  a.d: the rows of numbers, <<l, c1, c2, ...>>; a.lmax: the largest l in it.
   Everything observed is in the units of the file.  Multipoles that are not in the file are zero,
   and so is multipole 0 when the spectrum is rescaled. *)
Col(a, l, c) == LET S == {k \in 1..Len(a.d) : a.d[k][1] = l} IN IF S = {} \/ (l = 0 /\ a.scale) THEN 0 ELSE a.d[CHOOSE k \in S : TRUE][c + 1]
ReadK(r) ==
  LET a == r.a
      L == a.lmax + 1
      n == a.n
      o == TLCEval(IF a.layout \in Schemes THEN Order(a.ncol, a.layout) ELSE <<>>)
      want(g, j, l) == IF a.layout = "full_lens"
                       THEN LET cols == (<<0, 0>> :> 5 @@ <<0, 1>> :> 6 @@ <<0, 2>> :> 7 @@ <<1, 1>> :> 1 @@ <<2, 2>> :> 2 @@ <<3, 3>> :> 3 @@ <<1, 2>> :> 4)
                                p == <<Min2(g, j), Max2(g, j)>>
                            IN  IF p \in DOMAIN cols THEN Col(a, l, cols[p]) ELSE 0
                       ELSE Entry([c \in 1..a.ncol |-> Col(a, l, c)], o, g, j, FALSE)
  IN  Bad("shape", r.o.shape # <<n, n, L>>) \cup
      (IF r.o.shape # <<n, n, L>> THEN {} ELSE
       Bad("values", \E z \in 1..(n * n * L) : LET m == (z - 1) \div L IN ~Near(r.o.v[z], 1000 * want(m \div n, m % n, (z - 1) % L), 2)))
      \cup (IF "phi" \in DOMAIN r.o THEN Bad("phi", Len(r.o.phi) # L \/ \E l \in 0..(L - 1) : ~Near(r.o.phi[l + 1], 1000 * Col(a, l, a.ncol + 1), 2)) ELSE {})
(* writing: the file holds one row per multipole, in order, of the packed entries *)
WriteK(r) ==
  LET a == r.a
      L == a.L
      o == TLCEval(Order(Tri(a.n), a.scheme))
      v(l, p) == IF l = 0 /\ a.scale THEN 0 ELSE a.x[(((o[p][1] * a.n) + o[p][2]) * L) + l + 1]
  IN  Bad("rows", Len(r.o.file) # L) \cup
      (IF Len(r.o.file) # L THEN {} ELSE Bad("file", \E l \in 0..(L - 1) : ~NearSeq(r.o.file[l + 1], (IF a.inds THEN <<1000 * l>> ELSE <<>>) \o [p \in 1..Len(o) |-> 1000 * v(l, p)], 2)))
      \cup Bad("back", ~NearSeq(r.o.back, [z \in 1..(a.n * a.n * L) |-> IF (z - 1) % L = 0 /\ a.scale THEN 0 ELSE 1000 * a.x[z]], 2))
      \cup Bad("input", ~r.o.same)
(* --- two-dimensional spectra: real part of a times the conjugate of b, broadcast.  sa, sb: leading shapes *)
Pick(ix, s) == LET d == Len(ix) - Len(s) IN Flat([k \in 1..Len(s) |-> IF s[k] = 1 THEN 0 ELSE ix[k + d]], s)
Ps2d(r) ==
  LET a == r.a
      P == a.npix
      N == Prod(a.so)
  IN  Bad("shape", r.o.shape # a.so) \cup Bad("values", Len(r.o.v) # N * P \/ \E z \in 1..(N * P) :
        LET ix == Unflat((z - 1) \div P, a.so)
            p == ((z - 1) % P) + 1
            u == (Pick(ix, a.sa) * P) + p
            w == (Pick(ix, a.sb) * P) + p
        IN  r.o.v[z] # (a.re1[u] * a.re2[w]) + (a.im1[u] * a.im2[w])) \cup Bad("input", ~r.o.same) \cup Bad("wcs", ~r.o.wcs)
(* --- radial bins.  a.r: the distance of every pixel, bins of width a.b; every whole bin below the largest distance *)
Bins(r) ==
  LET a == r.a
      P == Len(a.r)
      nb == MaxOf(Range(a.r)) \div a.b
      In(k) == {p \in 1..P : a.r[p] \div a.b = k - 1}
      Sum(S, f(_)) == SumSeq(LET F == TLCEval([p \in 1..P |-> IF p \in S THEN f(p) ELSE 0]) IN F)
      S == TLCEval([k \in 1..nb |-> In(k)])
      ok(v, k, f(_)) == IF S[k] = {} THEN v = a.nan ELSE Near(v, RDiv(1000 * Sum(S[k], f), Cardinality(S[k])), 1)
      rows == Len(a.x) \div P
  IN  Bad("count", r.o.nb # nb) \cup (IF r.o.nb # nb THEN {} ELSE
      Bad("means", \E c \in 1..rows : \E k \in 1..nb : ~ok(r.o.v[((c - 1) * nb) + k], k, LAMBDA p : a.x[((c - 1) * P) + p]))
      \cup Bad("radius", \E k \in 1..nb : ~ok(r.o.rad[k], k, LAMBDA p : a.r[p]))
      \cup Bad("hits", r.o.nhit # <<>> /\ r.o.nhit # [k \in 1..nb |-> Cardinality(S[k])])
      \cup Bad("edges", r.o.edges # <<>> /\ r.o.edges # [k \in 1..(2 * nb) |-> IF k <= nb THEN 1000 * (k - 1) * a.b ELSE 1000 * (k - nb) * a.b]))
(* --- a spectrum on the plane: every pixel has the value at its multipole (in thousandths), zero beyond the last *)
Lin(c, off, L, l) == LET k == l \div 1000
                         f == l % 1000
                     IN  (c[off + k + 1] * (1000 - f)) + (IF k + 1 < L THEN c[off + k + 2] * f ELSE 0)
FlatK(r) ==
  LET a == r.a
      P == Len(r.o.l)
      N == Len(a.c) \div a.L
  IN  Bad("shape", ~r.o.shape) \cup Bad("values", \E z \in 1..(N * P) : LET l == r.o.l[((z - 1) % P) + 1]
                                                    off == ((z - 1) \div P) * a.L
                                                IN  IF l > 1000 * a.L + 5 THEN r.o.v[z] # 0
                                                    ELSE IF l >= 1000 * (a.L - 1) - 5 THEN FALSE
                                                    ELSE ~Near(r.o.v[z], Lin(a.c, off, a.L, l), 60))
      \cup Bad("input", ~r.o.same)
(* --- smoothing: symmetric convolution of the weighted spectrum with the kernel, over that of the weights *)
Smooth(r) ==
  LET a == r.a
      L == Len(a.k)
      N == IF L = 1 THEN 1 ELSE 2 * (L - 1)
      m(t) == LET u == t % N IN (IF u < L THEN u ELSE N - u) + 1
      num(s, l) == SumSeq([t \in 1..N |-> a.p[((s - 1) * L) + m(t - 1)] * a.w[m(t - 1)] * a.k[m((l - 1) - (t - 1))]])
      den(l) == SumSeq([t \in 1..N |-> a.w[m(t - 1)] * a.k[m((l - 1) - (t - 1))]])
  IN  Bad("values", \E s \in 1..(Len(a.p) \div L) : \E l \in 1..L : den(l) # 0 /\ ~Near(r.o.v[((s - 1) * L) + l], RDiv(1000 * num(s, l), den(l)), 2))
      \cup Bad("input", ~r.o.same)
(* --- correlation function: sum over l of (2l+1)/4pi C_l P_l(x), x and P_l in millionths; observed times 4pi *)
RECURSIVE Leg(_, _)
Leg(l, x) == IF l = 0 THEN 1000000 ELSE IF l = 1 THEN x
             ELSE LET p1 == Leg(l - 1, x)
                      p2 == Leg(l - 2, x)
                      xp == RDiv((x \div 1000) * (p1 \div 100), 10)
                  IN  RDiv(((2 * l - 1) * xp) - ((l - 1) * p2), l)
Corr(r) ==
  LET a == r.a
      L == a.L
      X == Len(a.pos)
      P == TLCEval([l \in 1..L |-> [k \in 1..X |-> Leg(l - 1, a.pos[k])]])
      n == a.n
  IN  Bad("shape", Len(r.o.v) # n * n * X) \cup Bad("values", Len(r.o.v) = n * n * X /\ \E z \in 1..(n * n * X) :
        LET m == (z - 1) \div X
            k == ((z - 1) % X) + 1
        IN  ~Near(r.o.v[z], SumSeq([l \in 1..L |-> (2 * l - 1) * a.c[(m * L) + l] * (P[l][k] \div 1000)]), 25 * (L + 1) * (L + 1)))
(* --- powers of matrices: A positive definite, B the recorded power, both row by row *)
MM(x, y, n, off, s, g, j) == SumSeq([b \in 1..n |-> (x[off + ((g - 1) * n) + b] * y[off + ((b - 1) * n) + j]) \div s])
EigK(r) ==
  LET a == r.a
      n == a.n
      B == r.o.v
      bad(k) == LET off == (k - 1) * n * n IN
        \E g, j \in 1..n : CASE a.e = "half" -> ~Near(MM(B, B, n, off, 10, g, j), 100000 * a.A[off + ((g - 1) * n) + j], 4000)
                             [] a.e = "inv" -> ~Near(MM(B, a.A, n, off, 1, g, j), IF g = j THEN 1000000 ELSE 0, 500)
                             [] a.e = "two" -> ~Near(B[off + ((g - 1) * n) + j], 1000 * MM(a.A, a.A, n, off, 1, g, j), 5)
                             [] a.e = "one" -> ~Near(B[off + ((g - 1) * n) + j], 1000 * a.A[off + ((g - 1) * n) + j], 5)
                             [] a.e = "minushalf" -> ~Near(MM(B, a.H, n, off, 1, g, j), IF g = j THEN 1000000 ELSE 0, 500)
  IN  Bad("shape", ~r.o.shape) \cup Bad("power", Len(B) # Len(a.A) \/ \E k \in 1..(Len(a.A) \div (n * n)) : bad(k)) \cup Bad("input", ~r.o.same)
(* --- conditional distributions: A C_kk = C_uk and cov + A C_ku = C_uu.  a.known, a.unknown: one-based *)
Cond(r) ==
  LET a == r.a
      n == a.n
      u == a.unknown
      k == a.known
      C(m, g, j) == a.C[((m - 1) * n * n) + ((g - 1) * n) + j]
      A(m, g, j) == r.o.A[((m - 1) * Len(u) * Len(k)) + ((g - 1) * Len(k)) + j]
      V(m, g, j) == r.o.cov[((m - 1) * Len(u) * Len(u)) + ((g - 1) * Len(u)) + j]
      M == 1..(Len(a.C) \div (n * n))
  IN  Bad("shape", ~r.o.shape) \cup (IF ~r.o.shape THEN {} ELSE
      Bad("response", \E m \in M : \E g \in 1..Len(u) : \E j \in 1..Len(k) : ~Near(SumSeq([b \in 1..Len(k) |-> A(m, g, b) * C(m, k[b], k[j])]), 100000 * C(m, u[g], k[j]), 200))
      \cup Bad("covariance", \E m \in M : \E g, j \in 1..Len(u) : ~Near(V(m, g, j) + SumSeq([b \in 1..Len(k) |-> A(m, g, b) * C(m, k[b], u[j])]), 100000 * C(m, u[g], u[j]), 200)))
(* --- spectra fitted to a number of components: the shared upper left part, zero elsewhere *)
Massage(r) ==
  LET a == r.a IN Bad("shape", ~r.o.shape) \cup Bad("values", r.o.v # [z \in 1..(a.m * a.m * a.M) |->
      LET c == (z - 1) \div a.M
          l == (z - 1) % a.M
          g == c \div a.m
          j == c % a.m
      IN  IF g < a.n /\ j < a.n /\ l < a.L THEN a.x[(((g * a.n) + j) * a.L) + l + 1] ELSE 0])
(* correlation matrices: unit diagonal, and times the deviations the covariance again. Scales: rows of s_i s_j c_ij *)
CovCorr(r) == Bad("correlation", ~NearSeq(r.o.corr, r.a.corr, 3)) \cup Bad("back", ~NearSeq(r.o.back, r.a.cov, 3))
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x} ELSE
  CASE r.k = "pack" -> PackK(r) [] r.k = "unpack" -> UnpackK(r) [] r.k = "order" -> OrderK(r) [] r.k = "read" -> ReadK(r) [] r.k = "write" -> WriteK(r)
    [] r.k = "ps2d" -> Ps2d(r) [] r.k = "bins" -> Bins(r) [] r.k = "flat" -> FlatK(r) [] r.k = "smooth" -> Smooth(r) [] r.k = "corr" -> Corr(r)
    [] r.k = "eig" -> EigK(r) [] r.k = "cond" -> Cond(r) [] r.k = "massage" -> Massage(r) [] r.k = "pure" -> Bad("input", ~r.o.same) \cup Bad("finite", ~r.o.finite) [] r.k = "covcorr" -> CovCorr(r)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
