------------------------------ MODULE TraceP13 ------------------------------
(* a.y (a.y2): layouts as constructed by the code, checked against the        *)
(* definition in "info"; coefficients are pairs of integers                   *)
EXTENDS Alm, TraceBase
\* alm flattened as re, im, re, im ...: component c (0-based), element e
Re(d, ne, c, e) == d[(2 * ((c * ne) + e)) + 1]
Im(d, ne, c, e) == d[(2 * ((c * ne) + e)) + 2]
F(f, nl, c, l) == IF l < nl THEN f[(c * nl) + l + 1] ELSE 0
Want(a) == CASE a.layout = "tri" -> Tri(a.lmax, a.mmax, a.stride)
             [] a.layout = "rect" -> Rect(a.lmax, a.mmax, a.stride)
             [] a.layout = "own" -> [lmax |-> a.lmax, mmax |-> a.mmax, stride |-> a.stride, mstart |-> a.mstart]
\* which component of an array with leading shape sh goes with component c of the broadcast shape bs
RECURSIVE Bc(_, _, _)
Bc(c, bs, sh) == IF sh = <<>> THEN 0 ELSE
   LET n == bs[Len(bs)]
       k == sh[Len(sh)] IN (Bc(c \div n, SubSeq(bs, 1, Len(bs) - 1), SubSeq(sh, 1, Len(sh) - 1)) * k) + (IF k = 1 THEN 0 ELSE c % n)
Info(r) == LET y == Want(r.a) IN
   Bad("nelem", r.o.nelem # NElem(y)) \cup Bad("size", r.o.nl # y.lmax + 1 \/ r.o.nm # y.mmax + 1 \/ r.o.lmax # y.lmax \/ r.o.mmax # y.mmax)
   \cup Bad("index", \E l \in 0..y.lmax, m \in 0..y.mmax : m <= l /\ r.o.ind[m + 1][l + 1] # At(y, l, m))
Lmul(r) ==
  LET y == Want(r.a)
      ne == NElem(y)
      nl == r.a.nl
  IN  Bad("shape", r.o.shape # r.a.bs \o <<ne>>)
      \cup Bad("values", Len(r.o.data) = 2 * Prod(r.a.bs) * ne /\ \E c \in 0..(Prod(r.a.bs) - 1) : \E p \in Pairs(y) :
             LET e == At(y, p[1], p[2])
                 f == F(r.a.f, nl, Bc(c, r.a.bs, r.a.fsh), p[1])
                 ca == Bc(c, r.a.bs, r.a.ash)
             IN  Re(r.o.data, ne, c, e) # f * Re(r.a.alm, ne, ca, e) \/ Im(r.o.data, ne, c, e) # f * Im(r.a.alm, ne, ca, e))
Lmat(r) ==
  LET y == Want(r.a)
      ne == NElem(y)
      N == r.a.N
      M == r.a.M
  IN  Bad("shape", r.o.shape # <<N, ne>>)
      \cup Bad("values", Len(r.o.data) = 2 * N * ne /\ \E c \in 0..(N - 1) : \E p \in Pairs(y) :
             LET e == At(y, p[1], p[2])
                 S(part(_)) == SumSeq([j \in 1..M |-> F(r.a.f, r.a.nl, (c * M) + j - 1, p[1]) * part(j - 1)])
             IN  Re(r.o.data, ne, c, e) # S(LAMBDA j : Re(r.a.alm, ne, j, e)) \/ Im(r.o.data, ne, c, e) # S(LAMBDA j : Im(r.a.alm, ne, j, e)))
\* spectra times 2l+1: sum over m of re*re + im*im, twice for m > 0; the m = 0 coefficients are real
Cl(r) ==
  LET y == Want(r.a)
      ne == NElem(y)
      nl == y.lmax + 1
      Sum(c, l) == LET c1 == Bc(c, r.a.bs, r.a.ash)
                       c2 == Bc(c, r.a.bs, r.a.bsh)
                       T(m) == LET e == At(y, l, m) IN (IF m = 0 THEN 1 ELSE 2) * ((Re(r.a.alm, ne, c1, e) * Re(r.a.alm2, ne, c2, e)) + (IF m = 0 THEN 0 ELSE Im(r.a.alm, ne, c1, e) * Im(r.a.alm2, ne, c2, e)))
                   IN  SumSeq([k \in 1..(Min2(l, y.mmax) + 1) |-> T(k - 1)])
  IN  Bad("shape", r.o.shape # r.a.bs \o <<nl>>)
      \cup Bad("values", Len(r.o.data) = Prod(r.a.bs) * nl /\ \E c \in 0..(Prod(r.a.bs) - 1), l \in 0..y.lmax : Abs(r.o.data[(c * nl) + l + 1] - 100 * Sum(c, l)) > 3)
Transp(r) ==
  LET y == Want(r.a)
      ne == NElem(y)
      nc == Prod(r.a.ash)
  IN  Bad("shape", r.o.shape # r.a.ash \o <<ne>>)
      \cup Bad("values", \E c \in 0..(nc - 1) : \E p \in Pairs(y) :
             LET e == At(y, p[1], p[2])
                 s == From(y, p[1], p[2])
                 g == At(y, s[1], s[2]) IN Re(r.o.data, ne, c, e) # Re(r.a.alm, ne, c, g) \/ Im(r.o.data, ne, c, e) # Im(r.a.alm, ne, c, g))
Transf(r) ==
  LET y == Want(r.a)
      z == Want(r.a.to)
      ni == NElem(y)
      no == NElem(z)
      nc == Prod(r.a.ash)
      both == Pairs(y) \cap Pairs(z)
      New(old, v) == IF r.a.op = "set" THEN v ELSE old + v
      Old(part(_, _, _, _), c, e) == IF r.a.given THEN part(r.a.oalm, no, c, e) ELSE 0
      Exp(part(_, _, _, _), c, e) ==
         LET S == {p \in both : At(z, p[1], p[2]) = e} IN
         IF S = {} THEN Old(part, c, e) ELSE LET p == CHOOSE p \in S : TRUE IN New(Old(part, c, e), part(r.a.alm, ni, c, At(y, p[1], p[2])))
  IN  Bad("shape", r.o.shape # r.a.ash \o <<no>>)
      \cup Bad("values", \E c \in 0..(nc - 1), e \in 0..(no - 1) : Re(r.o.data, no, c, e) # Exp(Re, c, e) \/ Im(r.o.data, no, c, e) # Exp(Im, c, e))
      \cup Bad("out", r.a.given /\ ~r.o.isout)
\* same seed, different lmax: the common coefficients agree
Rand(r) == LET y == Tri(r.a.l1, r.a.l1, 1)
               z == Tri(r.a.l2, r.a.l2, 1) IN
   Bad("prefix", \E p \in Pairs(y) \cap Pairs(z) : Abs(Re(r.o.a1, NElem(y), 0, At(y, p[1], p[2])) - Re(r.o.a2, NElem(z), 0, At(z, p[1], p[2]))) > 3 \/ Abs(Im(r.o.a1, NElem(y), 0, At(y, p[1], p[2])) - Im(r.o.a2, NElem(z), 0, At(z, p[1], p[2]))) > 3)
   \cup Bad("m0", \E l \in 0..r.a.l1 : Im(r.o.a1, NElem(y), 0, At(y, l, 0)) # 0)
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x}
              ELSE (CASE r.k = "info" -> Info(r) [] r.k = "lmul" -> IF r.o.refused THEN {} ELSE Lmul(r) [] r.k = "lmat" -> IF r.o.refused THEN {} ELSE Lmat(r) [] r.k = "cl" -> Cl(r)
                      [] r.k = "transpose" -> Transp(r) [] r.k = "transfer" -> Transf(r) [] r.k = "rand" -> Rand(r))
                   \cup (IF r.k \in {"info", "rand"} THEN {} ELSE Bad("inputs", ~r.o.same) \cup Bad("guard", ~r.o.guard))
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
