------------------------------ MODULE TraceP12 ------------------------------
(* Transforms of integer arrays against their definitions. Observed values    *)
(* have scale 1000, sums here scale Unit (times the number of samples where   *)
(* noted). Axes in the records are 0-based.                                   *)
EXTENDS Fourier, TraceBase
Plus1(s) == TLCEval([j \in 1..Len(s) |-> s[j] + 1])
Single(r) == r.a.dt \in {"f4", "c8"}
\* near: observed g (scale 1000), expected e (scale Unit)
Close(g, e, tol) == Abs(g) < 10000000 /\ Abs((g * 100) - e) <= tol
Pairs2(re, im, e, k, tol) == Close(re[k], e[1], tol) /\ Close(im[k], e[2], tol)
N1(r) == Prod(Sub(r.a.dims, Plus1(r.a.ax)))
Dft(r) ==
  LET a == r.a
      ax == Plus1(a.ax)
      fwd == a.op \in {"fft", "rfft", "efft"}
      last == ax[Len(ax)]
      od == IF a.op = "rfft" THEN [d \in 1..Len(a.dims) |-> IF d = last THEN (a.dims[d] \div 2) + 1 ELSE a.dims[d]] ELSE a.dims
      n == N1(r)
      f == IF a.norm THEN n ELSE 1
      tol == (300 + (10 * n)) * f
  IN  Bad("shape", r.o.shape # od) \cup Bad("dtype", ~r.o.dt) \cup
      (IF r.o.shape # od THEN {} ELSE
       Bad("values", \E k \in 1..Prod(od) :
         LET ix == TLCEval(Unflat(k - 1, od))
             e == IF a.op = "irfft" THEN <<n * a.x[k] * Unit, 0>>        \* the inverse of the transform of a.x
                  ELSE TLCEval(DftAt(a.x, a.y, a.dims, ax, IF fwd THEN -1 ELSE 1, ix))
         IN  ~Pairs2([j \in {k} |-> r.o.re[k] * f], [j \in {k} |-> r.o.im[k] * f], e, k, tol)))
\* coefficients k and n - k are conjugates
Irfft1(r) ==
  LET a == r.a
      n == a.n
      h == (n \div 2) + 1
      f == IF a.norm THEN n ELSE 1
      P == Prod(a.pre)
  IN  Bad("shape", r.o.shape # a.pre \o <<n>>) \cup
      (IF r.o.shape # a.pre \o <<n>> THEN {} ELSE
       Bad("values", \E p \in 0..(P - 1) :
         LET re == TLCEval([k \in 1..n |-> a.x[(p * h) + (IF k <= h THEN k ELSE (n - k) + 2)]])
             im == TLCEval([k \in 1..n |-> IF k <= h THEN a.y[(p * h) + k] ELSE -a.y[(p * h) + (n - k) + 2]])
         IN  \E j \in 0..(n - 1) : ~Close(r.o.re[(p * n) + j + 1] * f, DftAt(re, im, <<n>>, <<1>>, 1, <<j>>)[1], (300 + (10 * n)) * f)))
RtoR(r) ==
  LET a == r.a
      ax == Plus1(a.ax)
      t == IF a.op = "dct" THEN a.type ELSE Inverse(a.type)
      norm == a.norm /\ a.op = "idct"
      f == IF norm /\ ~a.emap THEN Prod([j \in 1..Len(ax) |-> Period(a.type, a.dims[ax[j]])]) ELSE 1
      \* the map version is normalised by the square root of the same number, which the harness takes out of the forward
      \* transform and leaves in twice for the inverse
      g == IF norm /\ a.emap THEN Prod([j \in 1..Len(ax) |-> Period(a.type, a.dims[ax[j]])]) ELSE f
  IN  Bad("shape", r.o.shape # a.dims) \cup
      (IF r.o.shape # a.dims THEN {} ELSE
       Bad("values", \E k \in 1..Prod(a.dims) : ~Close(r.o.re[k] * g, R2RAt(a.x, a.dims, ax, t, TLCEval(Unflat(k - 1, a.dims))), (300 + (40 * N1(r))) * g)))
\* sum over k of c_k cos(pi j k/(n - 1))
Cheb(r) ==
  LET a == r.a
      n == a.n
      Ev(c, p, j) == SumSeq([k \in 1..n |-> c[(p * n) + k] * RDiv(Cos((k - 1) * j, 2 * (n - 1)), IF a.op = "chebt" THEN 100 ELSE 1)])
  IN  Bad("shape", r.o.shape # a.pre \o <<n>>) \cup
      (IF r.o.shape # a.pre \o <<n>> THEN {} ELSE
       Bad("values", \E p \in 0..(Prod(a.pre) - 1) : \E j \in 0..(n - 1) :
          IF a.op = "chebt" THEN Abs(RDiv(Ev(r.o.re, p, j), 1000) - (a.x[(p * n) + j + 1] * 1000)) > 30 * n
          ELSE ~Close(r.o.re[(p * n) + j + 1], Ev(a.x, p, j), 300 + (10 * n))))
\* rows along one axis
RowOf(x, dims, ax, ix) == TLCEval([m \in 1..dims[ax] |-> x[Flat([ix EXCEPT ![ax] = m - 1], dims) + 1]])
Shift(r) ==
  LET a == r.a
      ax == a.ax + 1
      n == a.dims[ax]
  IN  Bad("shape", r.o.shape # a.dims) \cup Bad("dtype", ~r.o.dt) \cup
      (IF r.o.shape # a.dims THEN {} ELSE
       Bad("values", \E k \in 1..Prod(a.dims) :
         LET ix == TLCEval(Unflat(k - 1, a.dims))
             p == (4 * ix[ax]) - a.s
             xr == RowOf(a.x, a.dims, ax, ix)
             xi == RowOf(a.y, a.dims, ax, ix)
         IN  IF a.deriv   \* derivative with respect to the shift, in units of 2 pi/n
             THEN LET e == SumSeq([m \in 1..n |-> xr[m] * SumSeq([f \in 1..n |-> Freq(f - 1, n) * Sin(Freq(f - 1, n) * (p - (4 * (m - 1))), 4 * n)])])
                  IN  ~Close(r.o.re[k] * n, e, (300 + (100 * n)) * n)
             ELSE LET e == InterpAt(xr, xi, n, n, p, 4)
                  IN  ~Close(r.o.re[k] * n, e[1], (300 + (20 * n)) * n) \/ (a.cplx /\ ~Close(r.o.im[k] * n, e[2], (300 + (20 * n)) * n))))
Resam(r) ==
  LET a == r.a
      ax == a.ax + 1
      n == a.dims[ax]
      od == [a.dims EXCEPT ![ax] = a.n]
      c == Min2(n, a.n)
  IN  Bad("shape", r.o.shape # od) \cup Bad("dtype", ~r.o.dt) \cup
      (IF r.o.shape # od THEN {} ELSE
       Bad("values", \E k \in 1..Prod(od) :
         LET ix == TLCEval(Unflat(k - 1, od))
             e == InterpAt(RowOf(a.x, a.dims, ax, ix), RowOf(a.y, a.dims, ax, ix), n, c, ix[ax] * n, a.n)
         IN  ~Close(r.o.re[k] * n, e[1], (300 + (20 * n)) * n) \/ (a.cplx /\ ~Close(r.o.im[k] * n, e[2], (300 + (20 * n)) * n))))
\* derivatives of the wave A cos + B sin
Grad(r) ==
  LET a == r.a
      P == a.ny * a.nx
      th(k) == ((a.k[1] * (((k - 1) % P) \div a.nx)) * a.nx) + ((a.k[2] * ((k - 1) % a.nx)) * a.ny)
      pc(k) == ((k - 1) \div P) + 1
      N == Len(a.A) * P
      M(k) == (a.A[pc(k)] * Cos(th(k), P)) + (a.B[pc(k)] * Sin(th(k), P))
      dM(k) == (a.B[pc(k)] * Cos(th(k), P)) - (a.A[pc(k)] * Sin(th(k), P))
      tol == 400
      Is(s, w) == Len(s) = N /\ \A k \in 1..N : Close(s[k], w * dM(k), tol)
      zero == a.k = <<0, 0>>
  IN  Bad("shape", r.o.shape # <<2>> \o a.pre \o <<a.ny, a.nx>>) \cup Bad("same", ~r.o.same) \cup Bad("wcs", ~r.o.wcs)
      \cup Bad("grad", ~Is(r.o.gy, a.k[1]) \/ ~Is(r.o.gx, a.k[2])) \cup Bad("gradpix", ~Is(r.o.py, a.k[1]) \/ ~Is(r.o.px, a.k[2]))
      \cup Bad("laplace", Len(r.o.lap) # N \/ \E k \in 1..N : ~Close(r.o.lap[k], IF zero THEN 0 ELSE -M(k), tol))
      \cup Bad("div", Len(r.o.div) # N \/ \E k \in 1..N : ~Close(r.o.div[k], IF zero THEN 0 ELSE -M(k), tol))
\* averaging and repeating blocks of a time series
TsBin(r) ==
  LET a == r.a
      D == Len(a.dims)
      od == [d \in 1..D |-> IF a.up THEN a.dims[d] * a.full[d] ELSE a.dims[d] \div a.full[d]]
      nb == Prod(a.full)
  IN  Bad("shape", r.o.shape # od) \cup Bad("same", ~r.o.same) \cup
      (IF r.o.shape # od THEN {} ELSE
       Bad("values", \E k \in 1..Prod(od) :
         LET ix == TLCEval(Unflat(k - 1, od))
             c == IF a.up THEN 1 ELSE nb
             at(j) == LET w == TLCEval(Unflat(j, a.full)) IN a.x[Flat([d \in 1..D |-> IF a.up THEN ix[d] \div a.full[d] ELSE ix[d] * a.full[d] + w[d]], a.dims) + 1]
         IN  Abs((r.o.v[k] * c) - 1000 * SumSeq([j \in 1..c |-> at(j - 1)])) > 2 * c))
\* padding and truncating: modes keep their frequency
Holds(f, n) == 2 * f < n /\ 2 * f >= -n
Pad(r) ==
  LET a == r.a
      ax == Plus1(a.ax)
      od == a.odims
      was(k) == IF a.given THEN a.w[k] ELSE 0
      fr(ix, d) == Freq(ix[d], od[d])
  IN  Bad("shape", r.o.shape # od) \cup Bad("isout", ~r.o.isout) \cup
      (IF r.o.shape # od THEN {} ELSE
       Bad("values", \E k \in 1..Prod(od) :
         LET ix == TLCEval(Unflat(k - 1, od))
             in == \A j \in 1..Len(ax) : Holds(fr(ix, ax[j]), Min2(a.dims[ax[j]], od[ax[j]]))
             src == Flat([d \in 1..Len(od) |-> IF InAxes(ax, d) THEN fr(ix, d) % a.dims[d] ELSE ix[d]], a.dims) + 1
             e == IF in THEN <<a.x[src] * a.norm, a.y[src] * a.norm>> ELSE <<0, 0>>
             base == IF a.op = "add" \/ ~in THEN was(k) ELSE 0
         IN  r.o.re[k] # e[1] + base \/ r.o.im[k] # e[2]))
\* non-uniform transforms. positions in quarter samples
RECURSIVE NDot(_, _, _, _, _, _)
NDot(k, dims, pos, per, D, j) == IF j = 0 THEN 0 ELSE (NDot(k, dims, pos, per, D, j - 1) + ((Freq(k[j], dims[j]) * pos[j]) * (D \div (4 * per[j])))) % D
Nufft(r) ==
  LET a == r.a
      ax == Plus1(a.ax)
      sub == TLCEval(Sub(a.dims, ax))
      D == 4 * LcmAll(a.per)
      sg == IF a.neg THEN -1 ELSE 1
      np == Prod(a.post)
      pax == SelectSeq([d \in 1..Len(a.dims) |-> d], LAMBDA d : ~InAxes(ax, d))
      ns == Prod(sub)
      PosAt(p) == TLCEval([j \in 1..Len(ax) |-> a.pos[j][p]])
      \* coordinates of an element of the grid from those of the untransformed and transformed axes
      Put(pi, c) == [d \in 1..Len(a.dims) |-> IF InAxes(ax, d) THEN c[PosOf(ax, d)] ELSE pi[PosOf(pax, d)]]
      Ph(k, p) == NDot(k, sub, PosAt(p), a.per, D, Len(ax))
      U2N(pi, p) == CSum([t \in 1..ns |-> LET k == TLCEval(Unflat(t - 1, sub))
                                             g == Flat(Put(pi, k), a.dims) + 1
                                             ph == Ph(k, p)
                                         IN  <<a.x[g], a.y[g], Cos(ph, D), sg * Sin(ph, D)>>])
      N2U(pf, k) == CSum([p \in 1..np |-> LET ph == Ph(k, p) IN <<a.x[(pf * np) + p], a.y[(pf * np) + p], Cos(ph, D), sg * Sin(ph, D)>>])
      Itp(pi, p) == \* interpolation: the transform and back
           LET F == TLCEval([t \in 1..ns |-> DftAt(a.x, a.y, a.dims, ax, -1, Put(pi, Unflat(t - 1, sub)))])
           IN  CSum([t \in 1..ns |-> LET ph == Ph(Unflat(t - 1, sub), p) IN <<RDiv(F[t][1], 10000), RDiv(F[t][2], 10000), Cos(ph, D), Sin(ph, D)>>])
      down == a.op \in {"nu2u", "nufft_adjoint"}
      inv == a.op \in {"iu2nu", "nufft"}
      osh == IF down \/ inv THEN a.dims ELSE a.pre \o a.post
      tol == 600 + (20 * (ns + np))
  IN  Bad("shape", r.o.shape # osh) \cup
      (IF r.o.shape # osh THEN {}
       ELSE IF inv THEN Bad("values", \E k \in 1..Prod(a.dims) : Abs(r.o.re[k] - (1000 * a.x[k])) > 3 \/ Abs(r.o.im[k] - (1000 * a.y[k])) > 3)
       ELSE IF down THEN Bad("values", \E k \in 1..Prod(a.dims) :
              LET ix == TLCEval(Unflat(k - 1, a.dims))
                  pf == Flat([j \in 1..Len(pax) |-> ix[pax[j]]], a.pre)
                  e == TLCEval(N2U(pf, TLCEval([j \in 1..Len(ax) |-> ix[ax[j]]])))
              IN  ~Pairs2(r.o.re, r.o.im, e, k, tol))
       ELSE Bad("values", \E k \in 1..Prod(osh) :
              LET pf == (k - 1) \div np
                  pi == TLCEval(Unflat(pf, a.pre))
                  p == ((k - 1) % np) + 1
              IN  IF a.op = "interpol" THEN LET e == Itp(pi, p) IN Abs((r.o.re[k] * 10) - RDiv(e[1], 100)) > (700 * ns) + 100
                  ELSE ~Pairs2(r.o.re, r.o.im, TLCEval(U2N(pi, p)), k, tol)))
Freqs(r) ==
  LET n == r.a.n
      f == [k \in 1..n |-> 1000 * (IF 2 * (k - 1) < n THEN k - 1 ELSE (k - 1) - n)]
      h == [k \in 1..((n \div 2) + 1) |-> 1000 * (k - 1)]
  IN  Bad("fftfreq", r.o.f # f) \cup Bad("rfftfreq", r.o.rf # h) \cup Bad("ind2freq", r.o.i2f # f)
      \cup Bad("freq2ind", ~NearSeq(r.o.f2i, [k \in 1..n |-> 1000 * (k - 1)], 1)) \cup Bad("rfreq2ind", ~NearSeq(r.o.rf2i, h, 1))
\* wavenumbers, times the width of the map over 2 pi (scale 6000). Oversampling divides each cell
\* in s equal parts around its centre
LAxis(n, s) == [k \in 1..(n * s) |-> ((6000 * Freq(k - 1, n * s)) + (3000 * (1 - s))) \div s]
LMap(r) ==
  LET W(l, n) == NearSeq(l, LAxis(n, r.a.os), 3)
  IN  Bad("ly", ~W(r.o.ly, r.a.ny)) \cup Bad("lx", ~W(r.o.lx, r.a.nx)) \cup Bad("consistent", ~r.o.same)
      \cup Bad("lpix", ~NearSeq(r.o.lp, <<1000, 1000>>, 2))
\* E and B: each pair of components of spin s is rotated by s times the angle of the wave vector; components of spin 0 are left alone
RECURSIVE Layout(_, _, _, _)
Layout(spin, c, n, at) == IF at > n THEN <<>> ELSE
  LET s == spin[(c % Len(spin)) + 1] IN <<[s |-> s, at |-> at]>> \o Layout(spin, c + 1, n, at + (IF s = 0 THEN 1 ELSE 2))
RECURSIVE ISqrtIt(_, _)
ISqrtIt(v, g) == LET h == (g + (v \div g)) \div 2 IN IF h >= g THEN g ELSE ISqrtIt(v, h)
ISqrt(v) == IF v = 0 THEN 0 ELSE ISqrtIt(v, v)
\* cos and sin (scale 1000) of s times the angle whose cosine and sine are in the ratio ly:lx
RotCS(s, ly, lx) ==
  LET l2 == (ly * ly) + (lx * lx)
      l == ISqrt(l2 * 1000000)
      c1 == <<RDiv(1000000 * ly, l), RDiv(1000000 * lx, l)>>
      c2 == <<RDiv(1000 * ((ly * ly) - (lx * lx)), l2), RDiv(2000 * lx * ly, l2)>>
      c4 == <<RDiv(((c2[1] * c2[1]) - (c2[2] * c2[2])), 1000), RDiv(2 * c2[1] * c2[2], 1000)>>
      c3 == <<RDiv((c2[1] * c1[1]) - (c2[2] * c1[2]), 1000), RDiv((c2[1] * c1[2]) + (c2[2] * c1[1]), 1000)>>
  IN  IF l2 = 0 THEN <<1000, 0>> ELSE IF s = 1 THEN c1 ELSE IF s = 2 THEN c2 ELSE IF s = 3 THEN c3 ELSE c4
Harm(r) ==
  LET a == r.a
      n == a.ny * a.nx
      dims == <<a.ny, a.nx>>
      comp(c) == TLCEval([k \in 1..n |-> a.x[((c - 1) * n) + k]])
      zero == TLCEval([k \in 1..n |-> 0])
      lay == TLCEval(Layout(a.spin, 0, a.nc, 1))
      sx == (IF a.flip THEN 1 ELSE -1) * (IF a.iau THEN -1 ELSE 1)
      tol == 400 + (20 * n)
  IN  Bad("shape", r.o.shape # <<a.nc, a.ny, a.nx>>)
      \cup Bad("back", ~NearSeq(r.o.back, [k \in 1..Len(a.x) |-> 1000 * a.x[k]], IF Single(r) THEN 20 ELSE 2))
      \cup (IF Len(r.o.re) # a.nc * n THEN {"shape"} ELSE
        Bad("scalar", \E p \in 1..Len(lay) : lay[p].s = 0 /\ \E k \in 1..n :
              ~Pairs2(r.o.re, r.o.im, TLCEval(DftAt(comp(lay[p].at), zero, dims, <<1, 2>>, -1, Unflat(k - 1, dims))), ((lay[p].at - 1) * n) + k, tol))
        \cup Bad("eb", \E p \in 1..Len(lay) : lay[p].s # 0 /\ \E k \in 1..n :
              LET q1 == lay[p].at
                  ix == TLCEval(Unflat(k - 1, dims))
                  Q == TLCEval(DftAt(comp(q1), zero, dims, <<1, 2>>, -1, ix))
                  U == TLCEval(DftAt(comp(q1 + 1), zero, dims, <<1, 2>>, -1, ix))
                  CS == TLCEval(RotCS(lay[p].s, Freq(ix[1], a.ny) * a.nx, Freq(ix[2], a.nx) * a.ny * sx))
                  C == CS[1]
                  S == CS[2]
                  kE == ((q1 - 1) * n) + k
                  kB == (q1 * n) + k
                  T(j, c1, c2) == (RDiv(Q[j], 100) * c1) + (RDiv(U[j], 100) * c2)       \* scale 10^6
                  W(g, e) == Abs((g * 1000) - e) <= 20000 + ((30 * 1000 * n) \div 10) + (4 * (Abs(RDiv(Q[1], 100)) + Abs(RDiv(Q[2], 100)) + Abs(RDiv(U[1], 100)) + Abs(RDiv(U[2], 100))))
              IN  ~(W(r.o.re[kE], T(1, C, -S)) /\ W(r.o.im[kE], T(2, C, -S)) /\ W(r.o.re[kB], T(1, S, C)) /\ W(r.o.im[kB], T(2, S, C)))))
Adj(r) == Bad("adjoint", Abs(r.o.l - r.o.r) > 2 + (Abs(r.o.l) \div 100000))
Compose(r) == Bad("shape", r.o.sh1 # r.o.sh2) \cup Bad("values", ~NearSeq(r.o.r1, r.o.r2, 3))
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x} ELSE
  (CASE r.k = "dft" -> Dft(r) [] r.k = "irfft1" -> Irfft1(r) [] r.k = "r2r" -> RtoR(r) [] r.k = "cheb" -> Cheb(r) [] r.k = "shift" -> Shift(r)
     [] r.k = "resample" -> Resam(r) [] r.k = "tsbin" -> TsBin(r) [] r.k = "grad" -> Grad(r) [] r.k = "pad" -> Pad(r) [] r.k = "nufft" -> Nufft(r) [] r.k = "freq" -> Freqs(r) [] r.k = "lmap" -> LMap(r)
     [] r.k = "harm" -> Harm(r) [] r.k = "adjoint" -> Adj(r) [] r.k = "compose" -> Compose(r))
  \cup (IF r.k \in {"dft", "irfft1", "r2r"} THEN Bad("isout", ~r.o.isout) ELSE {})
  \cup (IF r.k \in {"freq", "lmap", "adjoint", "compose"} THEN {} ELSE Bad("inputs", ~r.o.same))
TNext == i <= NTrace /\ Report(Trace[i], IF Trace[i].k = "deleg" THEN Deleg(Trace[i]) ELSE Failing(Trace[i])) /\ i' = i + 16
=============================================================================
