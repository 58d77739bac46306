------------------------------ MODULE TraceP23 ------------------------------
(* Records: haar (images times 64), resample (values times 1e4), basis        *)
(* (squared profiles times 1e6), needle (profiles times 1e5), wave and uht    *)
(* (relative deviations in units of 1e-9).                                    *)
EXTENDS Wavelets, TraceBase
RECURSIVE Offs(_, _, _)
\* the block offsets of each level keep the reference pixel at the start of a block
Offs(y, x, n) == IF n = 0 THEN <<>> ELSE
   LET oy == y % 2  ox == x % 2 IN <<<<oy, ox>>>> \o Offs(((y - oy) \div 2) + oy, ((x - ox) \div 2) + ox, n - 1)
RECURSIVE Centre(_, _, _, _)
\* 16 times the position, in pixels of the finest level, of pixel b of level k (0 = finest)
Centre(b16, offs, k, ax) == IF k = 0 THEN b16 ELSE Centre(((2 * b16) - (16 * offs[k][ax])) + 8, offs, k - 1, ax)
Haar(r) ==
  LET n == r.a.nlevel
      offs == TLCEval(IF r.a.useref THEN Offs(r.a.ref[1], r.a.ref[2], n) ELSE [k \in 1..n |-> <<0, 0>>])
      npre == IF r.a.pre = 0 THEN 1 ELSE r.a.pre
  IN IF Len(r.o.lev) # n + 1 THEN {"levels"} ELSE
     Bad("scales", \E p \in 1..npre : LET P == Pyramid(r.a.m[p], r.a.ny, r.a.nx, offs, 1) IN
         \E k \in 1..(n + 1) : LET g == r.o.lev[(n + 2) - k] IN g.ny # P[k].ny \/ g.nx # P[k].nx \/ ~NearSeq(g.m[p], P[k].m, 0))
     \cup Bad("place", \E k \in 0..n : LET g == r.o.lev[(n + 1) - k] IN \E ax \in 1..2 :
         \/ ~Near(g.c[1][ax], Centre(0, offs, k, ax), 0)
         \/ ~Near(g.c[2][ax], Centre(16 * ((IF ax = 1 THEN g.ny ELSE g.nx) - 1), offs, k, ax), 0))
     \cup Bad("inverse", r.o.dev > 1000) \cup Bad("geometry", ~r.o.geo) \cup Bad("input", ~r.o.same) \cup Bad("type", ~r.o.dt)
Resample(r) == Bad("geometry", ~r.o.geo) \cup Bad("input", ~r.o.same) \cup Bad("leading", ~r.o.two) \cup
   Bad("values", Len(r.o.m) # r.a.my * r.a.mx \/ \E y \in 0..(r.a.my - 1) : \E x \in 0..(r.a.mx - 1) :
      ~Near(10 * r.o.m[(y * r.a.mx) + x + 1], Wave(r.a.modes, r.a.my, r.a.mx, y, x, r.a.corner), 10 * r.o.tol + 20))
Pow(b, e) == Prod([k \in 1..e |-> b])
Basis(r) ==
  LET n == r.o.n  L == r.a.lmax  W(j, l) == r.o.w2[j][l + 1]
      tail == IF r.a.kind = "butter" THEN (1000 * r.a.tol) + 2 ELSE 2
  IN Bad("number", n < 1 \/ Len(r.o.lmaxs) # n \/ Len(r.o.w2) # n)
     \cup Bad("last", r.o.lmaxs[n] # L \/ \E j \in 1..(n - 1) : r.o.lmaxs[j] > r.o.lmaxs[j + 1] /\ j # n - 1)
     \cup Bad("range", \E j \in 1..n : \E l \in 0..L : W(j, l) < 0 \/ W(j, l) > 1000002)
     \cup Bad("unity", \E l \in 0..L : ~Near(SumSeq([j \in 1..n |-> W(j, l)]), 1000000, 2 * n))
     \cup Bad("band", \E j \in 1..n : \E l \in 0..L : l > r.o.lmaxs[j] + (IF r.a.kind = "butter" THEN 1 ELSE 0) /\ W(j, l) > tail)
     \* each scale dominates between its crossings with its neighbours, lmin step^(j-1/2)
     \cup Bad("order", r.a.kind # "digital" /\ \E j \in 1..n : \E l \in 0..L :
          LET in1 == j = 1 \/ l * l > r.a.lmin * r.a.lmin * Pow(r.a.step, (2 * (j - 2)) + 1)
              in2 == j = n \/ l * l < r.a.lmin * r.a.lmin * Pow(r.a.step, (2 * (j - 1)) + 1)
          IN in1 /\ in2 /\ \E j2 \in 1..n : W(j2, l) > W(j, l) + 2)
     \cup Bad("digital", r.a.kind = "digital" /\ \E j \in 1..n : \E l \in 0..L : W(j, l) \notin {0, 1000000})
Needle(r) == LET p == r.a.peaks IN Bad("shape", ~r.o.ok) \cup Bad("number", r.o.n # Len(p) \/ Len(r.o.lmaxs) # Len(p)) \cup
   Bad("profile", \E j \in 1..Len(p) : \E l \in 0..p[Len(p)] : ~Near(r.o.w[j][l + 1], Needlet(p, j, l), 4))
   \cup Bad("band", \E j \in 1..Len(p) : \E l \in 0..p[Len(p)] : l > r.o.lmaxs[j] /\ r.o.w[j][l + 1] # 0)
WaveRec(r) == Bad("inverse", r.o.dev > r.o.tol) \cup Bad("filtered", r.o.filt > r.o.ftol) \cup Bad("coverage", r.o.cov > 1000)
   \cup Bad("geometry", ~r.o.geo) \cup Bad("input", ~r.o.same) \cup Bad("identity", ~r.o.ident) \cup Bad("subset", ~r.o.sub)
   \cup Bad("ordered", ~r.o.mid) \cup Bad("type", ~r.o.dt)
Uht(r) == Bad("area", r.o.area > 10) \cup Bad("input", ~r.o.same) \cup {r.o.names[j] : j \in {j \in 1..Len(r.o.names) : r.o.dev[j] > r.o.tol}}
Failing(r) == IF r.x # "" THEN {"exception"} ELSE
   CASE r.k = "haar" -> Haar(r) [] r.k = "resample" -> Resample(r) [] r.k = "basis" -> Basis(r) [] r.k = "needle" -> Needle(r)
     [] r.k = "wave" -> WaveRec(r) [] OTHER -> Uht(r)
TNext == i <= NTrace /\ Report(Trace[i], IF Trace[i].k = "deleg" THEN Deleg(Trace[i]) ELSE Failing(Trace[i])) /\ i' = i + 16
=============================================================================
