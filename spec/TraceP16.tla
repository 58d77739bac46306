------------------------------ MODULE TraceP16 ------------------------------
EXTENDS Srcsim, TraceBase
(* r.o.d: distance of every object from every pixel; r.o.m: map of every component in units of 1e-4 *)
AMax(a, o) == MaxOf({Abs(a.amps[c][o]) : c \in 1..Len(a.amps)})
Sim(r) ==
  LET a == r.a
      NO == Len(r.o.d)
      P == a.npix
      NC == Len(a.amps)
      prof(o) == a.profs[a.ids[o] + 1]
      R == TLCEval([o \in 1..NO |-> Radius(prof(o), AMax(a, o), a.vmin, a.rmax)])
      end(o) == prof(o)[Len(prof(o))][1]
      V == TLCEval([o \in 1..NO |-> [p \in 1..P |-> ProfAt(prof(o), r.o.d[o][p])]])
      \* near the jump at its end a profile may have either value
      edge(o, p) == Near(r.o.d[o][p], end(o), 3)
      must(o, p) == r.o.d[o][p] <= R[o] - 3 /\ ~edge(o, p)
      con(c, o, p) == a.amps[c][o] * V[o][p]
      \* everything an object that need not be there may add
      opts(c, o, p) == {0, con(c, o, p)} \cup (IF edge(o, p) THEN {a.amps[c][o] * 100 * prof(o)[Len(prof(o))][2]} ELSE {})
      tol(c, p) == 30 + (a.tol * SumSeq([o \in 1..NO |-> IF r.o.d[o][p] > end(o) + 3 THEN 0 ELSE Abs(a.amps[c][o])]))
      m0(c, p) == 10000 * a.m0[((c - 1) * P) + p]
      fixed(c, p) == [o \in 1..NO |-> IF must(o, p) THEN con(c, o, p) ELSE 0]
      lo(c, p) == IF a.op = "add" THEN m0(c, p) + SumSeq(fixed(c, p)) + SumSeq([o \in 1..NO |-> IF must(o, p) THEN 0 ELSE MinOf(opts(c, o, p))])
                  ELSE IF a.op = "max" THEN MaxOf({m0(c, p)} \cup {con(c, o, p) : o \in {q \in 1..NO : must(q, p)}})
                  ELSE MinOf({m0(c, p)} \cup UNION {opts(c, o, p) : o \in 1..NO})
      hi(c, p) == IF a.op = "add" THEN m0(c, p) + SumSeq(fixed(c, p)) + SumSeq([o \in 1..NO |-> IF must(o, p) THEN 0 ELSE MaxOf(opts(c, o, p))])
                  ELSE IF a.op = "min" THEN MinOf({m0(c, p)} \cup {con(c, o, p) : o \in {q \in 1..NO : must(q, p)}})
                  ELSE MaxOf({m0(c, p)} \cup UNION {opts(c, o, p) : o \in 1..NO})
      bad(c, p) == LET v == r.o.m[((c - 1) * P) + p] IN v < lo(c, p) - tol(c, p) \/ v > hi(c, p) + tol(c, p)
  IN  Bad("shape", ~r.o.shape) \cup (IF ~r.o.shape THEN {} ELSE Bad("values", \E c \in 1..NC : \E p \in 1..P : bad(c, p)))
      \cup Bad("target", ~r.o.same) \cup Bad("inputs", ~r.o.inputs)
(* sums of the map in rings; pixels on an edge may be on either side *)
Sums(r) ==
  LET a == r.a
      NO == Len(r.o.d)
      P == a.npix
      NB == Len(a.edges) - 1
      sure(o, k) == {p \in 1..P : (r.o.d[o][p] >= a.edges[k] + 3 /\ r.o.d[o][p] < a.edges[k + 1] - 3) \/ (a.edges[k] = 0 /\ r.o.d[o][p] < 3)}
      maybe(o, k) == {p \in 1..P : Near(r.o.d[o][p], a.edges[k], 3) \/ Near(r.o.d[o][p], a.edges[k + 1], 3)} \ sure(o, k)
      Sum(S, f(_)) == LET F == TLCEval([p \in 1..P |-> IF p \in S THEN f(p) ELSE 0]) IN SumSeq(F)
      badsum(c, o, k) == LET v == r.o.v[((((o - 1) * a.nc) + (c - 1)) * NB) + k]
                             s == Sum(sure(o, k), LAMBDA p : a.m0[((c - 1) * P) + p])
                             n == Sum(maybe(o, k), LAMBDA p : Min2(0, a.m0[((c - 1) * P) + p]))
                             x == Sum(maybe(o, k), LAMBDA p : Max2(0, a.m0[((c - 1) * P) + p]))
                         IN  v < s + n \/ v > s + x
      badmean(c, o, k) == LET v == r.o.v[((((o - 1) * a.nc) + (c - 1)) * NB) + k]
                              s == Sum(sure(o, k), LAMBDA p : a.w[p] * a.m0[((c - 1) * P) + p])
                              n == Sum(sure(o, k), LAMBDA p : a.w[p])
                          IN  IF maybe(o, k) # {} THEN FALSE ELSE IF n = 0 THEN v # a.nan ELSE ~Near(v, RDiv(1000 * s, n), 2)
  IN  Bad("shape", ~r.o.shape) \cup (IF ~r.o.shape THEN {} ELSE
      IF a.mean THEN Bad("means", \E c \in 1..a.nc : \E o \in 1..NO : \E k \in 1..NB : badmean(c, o, k))
      ELSE Bad("sums", \E c \in 1..a.nc : \E o \in 1..NO : \E k \in 1..NB : badsum(c, o, k)))
      \cup Bad("inputs", ~r.o.inputs)
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x} ELSE CASE r.k = "sim" -> Sim(r) [] r.k = "sum" -> Sums(r) [] r.k = "none" -> Bad("map", ~r.o.same) \cup Bad("shape", ~r.o.shape)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
