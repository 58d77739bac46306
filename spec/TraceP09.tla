------------------------------ MODULE TraceP09 ------------------------------
(* Records of operations carried out by a.P processes. Every process's result *)
(* is compared with what a single process holding everything would have.      *)
(*  tiles: a.has[p], a.wants[p]: tile numbers (from 0) in the order of the     *)
(*         process's own list, a.val[p][k]: their pixels; o.act, o.res.        *)
(*  cat:   arrays put together along an axis, a.v[p]: rows of integers.       *)
(*  red:   reductions and gathering of equal arrays.                          *)
(*  boxes: slices of a global array of shape a.dims with G(pos) = number+1.   *)
EXTENDS Common, TraceBase
PartSize(n, P, p) == (n \div P) + (IF p <= n % P THEN 1 ELSE 0)
Before(n, P, p) == SumSeq([q \in 1..(p - 1) |-> PartSize(n, P, q)])
RECURSIVE Sorted(_, _, _)
Sorted(T, t, n) == IF t >= n THEN <<>> ELSE (IF t \in T THEN <<t>> ELSE <<>>) \o Sorted(T, t + 1, n)
\* tiles of a ny by nx map in tiles of th by tw
NTX(r) == CDiv(r.a.nx, r.a.tw)
NTiles(r) == CDiv(r.a.ny, r.a.th) * NTX(r)
TH(r, t) == Min2(r.a.th, r.a.ny - ((t \div NTX(r)) * r.a.th))
TW(r, t) == Min2(r.a.tw, r.a.nx - ((t % NTX(r)) * r.a.tw))
Size(r, t) == TH(r, t) * TW(r, t) * r.a.pre
SumTile(r, t) == TLCEval([j \in 1..Size(r, t) |-> SumSeq([q \in 1..r.a.P |->
    SumSeq([k \in 1..Len(r.a.has[q]) |-> IF r.a.has[q][k] = t THEN r.a.val[q][k][j] ELSE 0])])])
Owned(r) == UNION {Range(r.a.has[q]) : q \in 1..r.a.P}
Wanted(r, p) ==
  LET all == Sorted(Owned(r), 0, NTiles(r)) IN
  CASE r.a.how \in {"wants", "omap"} -> r.a.wants[p]
    [] r.a.how = "auto" -> SubSeq(all, Before(Len(all), r.a.P, p) + 1, Before(Len(all), r.a.P, p + 1))
    [] OTHER -> IF p = r.a.root + 1 THEN all ELSE <<>>
Tiles(r) == IF r.a.how = "file" THEN
     \* the whole map, rows first, one layer after the other
     Bad("file", \E c \in 0..(r.a.pre - 1) : \E y \in 0..(r.a.ny - 1) : \E x \in 0..(r.a.nx - 1) :
        LET t == ((y \div r.a.th) * NTX(r)) + (x \div r.a.tw)
            j == (((c * TH(r, t)) + (y % r.a.th)) * TW(r, t)) + (x % r.a.tw) + 1
        IN r.o.full[(((c * r.a.ny) + y) * r.a.nx) + x + 1] # SumTile(r, t)[j])
  ELSE Bad("owners", \E p \in 1..r.a.P : r.o.act[p] # Wanted(r, p))
     \cup Bad("data", \E p \in 1..r.a.P : r.o.act[p] = Wanted(r, p) /\ \E k \in 1..Len(r.o.act[p]) :
                 r.o.res[p][k] # SumTile(r, r.o.act[p][k]))
     \cup Bad("input", ~r.o.same) \cup Bad("identity", ~r.o.ident) \cup Bad("union", r.o.union # [p \in 1..r.a.P |-> Sorted(Owned(r), 0, NTiles(r))])
CatRec(r) == LET want == Cat(r.a.v) IN
   Bad("data", \E p \in 1..r.a.P : r.o.res[p] # want) \cup Bad("shape", \E p \in 1..r.a.P : r.o.sh[p] # r.o.wsh) \cup Bad("input", ~r.o.same) \cup Bad("type", ~r.o.dt)
Comb(op, s) == CASE op = "sum" -> SumSeq(s) [] op = "max" -> MaxOf(Range(s)) [] op = "min" -> MinOf(Range(s))
Red(r) ==
  LET n == Len(r.a.v[1])
      want == TLCEval(IF r.a.how = "gather" THEN Cat(r.a.v) ELSE [j \in 1..n |-> Comb(r.a.op, [p \in 1..r.a.P |-> r.a.v[p][j]])])
  IN Bad("data", \E p \in 1..r.a.P : IF r.a.how = "reduce" /\ p # r.a.root + 1 THEN r.o.res[p] # <<-1>>
                 ELSE IF r.a.how = "send" THEN r.o.res[p] # r.a.v[(IF p = 1 THEN r.a.P ELSE p - 1)] ELSE r.o.res[p] # want)
     \cup Bad("input", ~r.o.same) \cup Bad("type", ~r.o.dt)
\* boxes <<start, end, step>> per axis, their ends whole steps from their starts
BSize(b) == IF b[3] > 0 THEN Max2(0, CDiv(b[2] - b[1], b[3])) ELSE Max2(0, CDiv(b[1] - b[2], -b[3]))
Wrapped(x, w) == IF w = 0 THEN x ELSE x % w
Within(x, b, w) == \E j \in 0..(BSize(b) - 1) : Wrapped(b[1] + (j * b[3]), w) = x
Boxes(r) ==
  LET nd == Len(r.a.dims)
      In(pos) == \E q \in 1..r.a.P : \E k \in 1..Len(r.a.ib[q]) : \A d \in 1..nd : Within(pos[d], r.a.ib[q][k][d], r.a.wrap[d])
      Want(b) == LET sz == [d \in 1..nd |-> BSize(b[d])]
                     n == Prod(sz)
                     One(f, c) == LET ix == Unflat(f, sz)
                                      pos == TLCEval([d \in 1..nd |-> Wrapped(b[d][1] + (ix[d] * b[d][3]), r.a.wrap[d])])
                                  IN IF In(pos) THEN Flat(pos, r.a.dims) + 1 + (c * 1000) ELSE 0
                 IN [k \in 1..(n * r.a.pre) |-> One((k - 1) % n, (k - 1) \div n)]
  IN Bad("data", \E p \in 1..r.a.P : Len(r.o.res[p]) # Len(r.a.ob[p]) \/ \E k \in 1..Len(r.a.ob[p]) : r.o.res[p][k] # Want(r.a.ob[p][k]))
     \cup Bad("input", ~r.o.same) \cup Bad("type", ~r.o.dt)
Failing(r) == IF r.x # "" THEN {"exception"} ELSE
   CASE r.k = "tiles" -> Tiles(r) [] r.k = "cat" -> CatRec(r) [] r.k = "red" -> Red(r) [] r.k = "boxes" -> Boxes(r)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
