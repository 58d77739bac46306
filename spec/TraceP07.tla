------------------------------ MODULE TraceP07 ------------------------------
(* hist: a behaviour of Files (a.hist) over contents a.C; a.parts[k] says    *)
(* which part step k reads; o[k]: what came back.                            *)
(* A content: n, P (leading dims), data (as stored), nphi, proj, dt, sign    *)
(* (per component: -1 where the file's polarisation convention differs).     *)
EXTENDS Files, TraceBase
SL == INSTANCE Slicing
PT == INSTANCE Patch
NComp(c) == Prod(c.P)
\* value of component k (1-based) at pixel y, x
Val(c, k, y, x) == c.sign[k] * c.data[((k - 1) * c.n[1] * c.n[2]) + (y * c.n[2]) + x + 1]
\* selected components (1-based), and the leading shape that remains
Comp(c, p) == CASE p.pre = "all" -> [k \in 1..NComp(c) |-> k]
                [] p.pre = "int" -> [k \in 1..(NComp(c) \div c.P[1]) |-> (p.ci * (NComp(c) \div c.P[1])) + k]
                [] p.pre = "rev" -> LET m == NComp(c) \div c.P[1] IN [k \in 1..NComp(c) |-> ((c.P[1] - 1 - ((k - 1) \div m)) * m) + ((k - 1) % m) + 1]
PreSh(c, p) == IF p.pre = "int" THEN Tail(c.P) ELSE c.P
Grid(c, comps, Y, X) == Cat([k \in 1..Len(comps) |-> Cat([j \in 1..Len(Y) |-> [l \in 1..Len(X) |-> IF Y[j] < 0 \/ X[l] < 0 THEN 0 ELSE Val(c, comps[k], Y[j], X[l])]])])
PosOk(obs, want, w) == IF w = 0 THEN NearSeq(obs, want, 3) ELSE NearModSeq(obs, want, 3, 1000 * w)
Part(c, p, o) ==
  LET w == PT!Period(c.nphi, c.n[2])
      all == [k \in 1..NComp(c) |-> k]
      Chk(sh, data, yp, xp, wx) ==
        Bad("shape", o.shape # sh) \cup Bad("data", o.data # data)
        \cup Bad("map", ~o.ismap) \cup Bad("sky", ~o.sky)
        \cup Bad("pos", (Len(yp) > 0 /\ Len(xp) > 0) /\ ~(PosOk(o.ypos, yp, 0) /\ PosOk(o.xpos, xp, wx)))
      Box(Y, X, wx) == \* Y, X: <<first, step, number>>
        Chk(c.P \o <<Y[3], X[3]>>, Grid(c, all, PT!Source(Y[1], Y[2], Y[3], c.n[1], 0), PT!Source(X[1], X[2], X[3], c.n[2], w)),
            [j \in 1..Y[3] |-> 1000 * (Y[1] + Y[2] * (j - 1))], [j \in 1..X[3] |-> 1000 * (X[1] + X[2] * (j - 1))], wx)
      Sel(ys, xs) ==
        LET ay == SL!Cut(SL!Base(c.n[1]), ys)
            ax == SL!Cut(SL!Base(c.n[2]), xs)
        IN  Chk(PreSh(c, p) \o <<ay.n, ax.n>>, Grid(c, Comp(c, p), SL!DataIdx(ay), SL!DataIdx(ax)),
                [j \in 1..ay.n |-> 500 * SL!Centre2(ay, j - 1)], [j \in 1..ax.n |-> 500 * SL!Centre2(ax, j - 1)], 0)
  IN  CASE p.kind = "full" -> Box(<<0, 1, c.n[1]>>, <<0, 1, c.n[2]>>, 0)
        [] p.kind = "pixbox" -> Box(<<p.box[1][1], 1, p.box[2][1] - p.box[1][1]>>, <<p.box[1][2], 1, p.box[2][2] - p.box[1][2]>>, w)
        [] p.kind = "geo" -> Box(<<p.off[1], 1, p.m[1]>>, <<p.off[2], 1, p.m[2]>>, w)
        [] p.kind = "box" -> LET Y == PT!BoxPix(p.mode, p.edges[1][1], p.edges[2][1], FALSE)
                                 X == PT!BoxPix(p.mode, p.edges[1][2], p.edges[2][2], FALSE) IN Box(Y, X, w)
        [] p.kind \in {"sel", "name"} -> Sel(p.ys, p.xs)
        [] p.kind = "row" -> Bad("shape", o.shape # PreSh(c, p) \o <<c.n[2]>>) \cup Bad("map", o.ismap) \cup Bad("data", o.data # Grid(c, Comp(c, p), <<p.ci2 % c.n[1]>>, [k \in 1..c.n[2] |-> k - 1]))
        [] p.kind = "col" -> Bad("shape", o.shape # PreSh(c, p) \o <<c.n[1]>>) \cup Bad("map", o.ismap) \cup Bad("data", o.data # Grid(c, Comp(c, p), [k \in 1..c.n[1] |-> k - 1], <<p.ci2 % c.n[2]>>))
        [] p.kind = "meta" -> Bad("shape", o.shape # c.P \o c.n) \cup Bad("pos", ~(PosOk(o.ypos, [j \in 1..c.n[1] |-> 1000 * (j - 1)], 0) /\ PosOk(o.xpos, [j \in 1..c.n[2] |-> 1000 * (j - 1)], 0)))
RECURSIVE Run(_, _, _, _)
Run(s, h, r, k) ==
  IF k > Len(h) THEN {} ELSE
  LET o == h[k]
      g == r.o.steps[k]
      c == r.a.C[What(s, o)]
  IN  (IF o.op \in {"wf", "wh"} THEN Bad("written", ~g.same)
       ELSE IF o.op \in {"of", "oh"} THEN LET d == r.a.C[IF o.op = "of" THEN s.f[o.f][o.u] ELSE s.h[o.a]] IN Bad("lazyshape", g.shape # d.P \o d.n) \cup Bad("lazydtype", g.dt # d.dt)
       ELSE Part(c, r.a.parts[k], g) \cup Bad("dtype", g.dt # c.dt))
      \cup Run(Apply(s, o), h, r, k + 1)
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x}
              ELSE IF r.k = "geo" THEN Bad("same", ~r.o.same) \cup Bad("shape", r.o.shape # r.a.P \o r.a.n) \cup Bad("pos", ~PosOk(r.o.ypos, [j \in 1..r.a.n[1] |-> 1000 * (j - 1)], 0) \/ ~PosOk(r.o.xpos, [j \in 1..r.a.n[2] |-> 1000 * (j - 1)], 0))
              ELSE Run(Start, r.a.hist, r, 1)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
