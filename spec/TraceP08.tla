------------------------------ MODULE TraceP08 ------------------------------
(* hist: a behaviour of Tiles (a.n, a.t, a.P, a.A, a.hist) and, after each   *)
(*       step, for each tile map: act (its tiles in order), raw (its numbers *)
(*       per component), dense (converted to an ordinary map), none (tiles   *)
(*       that read as missing), pos (offsets of its tiles), refused.         *)
(* geom: a tile geometry's tables. oper: an operator on matching maps.       *)
(* tiles: building from lists of tiles, iterating, slicing tiles.            *)
EXTENDS Tiles, TraceBase
RECURSIVE States(_, _, _, _, _)
States(n, t, s, h, k) == IF k > Len(h) THEN <<>> ELSE LET x == Apply(n, t, s, h[k]) IN <<x>> \o States(n, t, x, h, k + 1)
Rng(q) == {q[k] : k \in 1..Len(q)}
One(n, t, s, j, o) ==
  LET A == Act(s, j)
      d == Comps(s, j)
  IN  Bad("type", ~o.istm)
      \cup Bad("active", Rng(o.act) # A \/ Len(o.act) # Cardinality(A))
      \cup Bad("pre", o.pre # (IF Pre(s, j) = 0 THEN <<>> ELSE <<Pre(s, j)>>))
      \cup Bad("values", Rng(o.act) = A /\ Len(o.act) = Cardinality(A) /\ o.raw # [c \in 1..Len(d) |-> Store(n, t, o.act, d[c])])
      \cup Bad("dense", o.dense # d)
      \cup Bad("lookup", o.none # [g \in 1..NTile(n, t) |-> (g - 1) \notin A])
      \cup Bad("tilepos", o.pos # [k \in 1..Len(o.act) |-> <<Y1(n, t, o.act[k]), X1(n, t, o.act[k])>>])
Hist(r) ==
  LET n == r.a.n
      t == r.a.t
      s0 == Start(n, t, r.a.P, {r.a.act0[k] : k \in 1..Len(r.a.act0)})
      S == States(n, t, s0, r.a.hist, 1)
      o == r.o.snaps
  IN  Bad("length", Len(o) # Len(S))
      \cup UNION {LET pre == IF k = 1 THEN s0 ELSE S[k - 1]
                      op == r.a.hist[k] IN
           Bad("refusal", o[k].refused # Refused(n, t, pre, op))
           \cup Bad("objects", Len(o[k].objs) # Len(S[k].objs))
           \cup (IF op.op = "with" /\ op.strict /\ Len(o[k].objs) = Len(S[k].objs) THEN
                   Bad("order", LET got == o[k].objs[Len(S[k].objs)].act IN got # (IF op.j = 0 THEN op.act ELSE o[k].objs[op.j].act)) ELSE {})
           \cup UNION {One(n, t, S[k], j, o[k].objs[j]) : j \in 1..Min2(Len(o[k].objs), Len(S[k].objs))}
           : k \in 1..Min2(Len(o), Len(S))}
Geom(r) ==
  LET n == r.a.n
      t == r.a.t
      N == NTile(n, t)
      o == r.o IN
  Bad("grid", o.grid # Grid(n, t) \/ o.ntile # N)
  \cup Bad("shapes", o.shapes # [g \in 1..N |-> TileShape(n, t, g - 1)])
  \cup Bad("npix", o.npixs # [g \in 1..N |-> TileShape(n, t, g - 1)[1] * TileShape(n, t, g - 1)[2]])
  \cup Bad("index", o.ind2grid # [g \in 1..N |-> TilePos(n, t, g - 1)] \/ o.grid2ind # [g \in 1..N |-> g - 1])
  \cup Bad("tilegeo", o.tshapes # [g \in 1..N |-> TileShape(n, t, g - 1)] \/ o.tpos # [g \in 1..N |-> <<Y1(n, t, g - 1), X1(n, t, g - 1)>>])
  \cup Bad("lookup", o.lookup # [g \in 1..N |-> IF \E k \in 1..Len(r.a.act) : r.a.act[k] = g - 1 THEN (CHOOSE k \in 1..Len(r.a.act) : r.a.act[k] = g - 1) - 1 ELSE -1])
  \cup Bad("size", o.size # Max2(1, r.a.P) * SumSeq([k \in 1..Len(r.a.act) |-> TileShape(n, t, r.a.act[k])[1] * TileShape(n, t, r.a.act[k])[2]]))
  \cup Bad("compat", o.compat # <<2, IF Len(r.a.act) < 2 THEN 2 ELSE 1, IF N = Len(r.a.act) THEN 2 ELSE 1, 0>>)
B01(b) == IF b THEN 1 ELSE 0
F2(f, a, b) ==
  CASE f = "add" -> a + b [] f = "sub" -> a - b [] f = "mul" -> a * b
    [] f = "gt" -> B01(a > b) [] f = "lt" -> B01(a < b) [] f = "eq" -> B01(a = b)
    [] f = "ne" -> B01(a # b) [] f = "ge" -> B01(a >= b) [] f = "le" -> B01(a <= b)
    [] f = "floordiv" -> IF b > 0 THEN a \div b ELSE (-a) \div (-b)
    [] f = "truediv" -> a * b            \* recorded as a/(1/b): b is a unit
    [] f = "maximum" -> Max2(a, b) [] f = "hypot2" -> a * a + b * b
    [] f = "rsub" -> b - a [] f = "radd" -> a + b
Oper(r) ==
  LET d1 == r.o.d1
      d2 == r.o.d2
      nc == Max2(Len(d1), Len(d2)) IN
  Bad("values", r.o.out # [c \in 1..nc |-> LET x == d1[IF Len(d1) = 1 THEN 1 ELSE c]
                                                y == d2[IF Len(d2) = 1 THEN 1 ELSE c] IN
                              [p \in 1..Len(x) |-> F2(r.a.f, x[p], y[p])]])
  \cup Bad("geometry", ~r.o.samegeo) \cup Bad("modified", ~r.o.same)
TilesC(r) ==
  LET n == r.a.n
      t == r.a.t
      A == Rng(r.a.act)
      d == [c \in 1..NComp(r.a.P) |-> Vals(n, r.a.P)[c]]
      D == [c \in 1..NComp(r.a.P) |-> Restrict(n, t, A, d[c])]
      T(c, g) == LET P == TilePix(n, t, g) IN [k \in 1..Len(P) |-> d[c][P[k] + 1]]
  IN  Bad("from_tiles", r.o.from_tiles # D) \cup Bad("from_active", r.o.from_active # D)
      \cup Bad("tiles", r.o.tiles # [g \in 1..NTile(n, t) |-> IF g - 1 \in A THEN [c \in 1..Len(d) |-> T(c, g - 1)] ELSE <<>>])
      \cup Bad("iter", r.o.iter # r.o.tiles) \cup Bad("active_tiles", r.o.atiles # [k \in 1..Len(r.a.act) |-> [c \in 1..Len(d) |-> T(c, r.a.act[k])]])
      \cup Bad("aiter", r.o.aiter # r.o.atiles) \cup Bad("plainslice", ~r.o.plain)
      \cup Bad("rows", r.o.rows # [k \in 1..Len(r.a.act) |-> [c \in 1..Len(d) |-> SubSeq(T(c, r.a.act[k]), 1, TileShape(n, t, r.a.act[k])[2])]])
      \cup Bad("full", r.o.full # [c \in 1..NComp(r.a.P) |-> Restrict(n, t, A, [p \in 1..(n[1] * n[2]) |-> 7])])
      \cup Bad("refuse", ~r.o.refused)
      \cup Bad("mul", r.a.P = 2 /\ r.o.mul # LET z == r.o.mat IN [c \in 1..2 |-> [p \in 1..Len(D[1]) |-> z[c][1] * D[1][p] + z[c][2] * D[2][p]]])
Failing(r) == IF r.x # "" THEN {"raised"} ELSE
  CASE r.k = "hist" -> Hist(r) [] r.k = "geom" -> Geom(r) [] r.k = "oper" -> Oper(r) [] r.k = "tiles" -> TilesC(r)
    [] r.k = "loose" -> Bad("dense", r.o.got # r.o.want)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
