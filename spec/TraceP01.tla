------------------------------ MODULE TraceP01 ------------------------------
(* Indexing of maps and geometries *)
EXTENDS Slicing, TraceBase

\* Positions are recorded as a thousand times the base pixel coordinate
PosTol == 3
ExpPos(ax) == [j \in 1..ax.n |-> 500 * Centre2(ax, j - 1)]
Pre(r) == r.a.pre
Axis(r, k) == CutAll(Base(r.a.n[k]), [c \in 1..Len(r.a.chain) |-> r.a.chain[c][k]])
All0(n) == [j \in 1..n |-> j - 1]

GeoClauses(r, ay, ax, shape, yp, xp) ==
  Bad("shape", shape # Pre(r) \o <<ay.n, ax.n>>)
  \cup Bad("ypos", ay.n > 0 /\ ax.n > 0 /\ ~NearSeq(yp, ExpPos(ay), PosTol))
  \cup Bad("xpos", ay.n > 0 /\ ax.n > 0 /\ ~NearSeq(xp, ExpPos(ax), PosTol))

\* A chain of 2d slices of a map
Chain(r) ==
  LET ay == Axis(r, 1)
      ax == Axis(r, 2)
      dims == Pre(r) \o r.a.n
      want == PickAll([k \in 1..Len(Pre(r)) |-> All0(Pre(r)[k])] \o <<DataIdx(ay), DataIdx(ax)>>, dims)
      pos(f) == {k \in 1..Len(want) : want[k] = f}
  IN  GeoClauses(r, ay, ax, r.o.shape, r.o.ypos, r.o.xpos)
      \cup Bad("data", r.o.data # want)
      \* writing k-1 -> -k through the result reaches exactly the selected base pixels
      \cup Bad("view", r.o.written # [f \in 1..Prod(dims) |->
                          IF pos(f - 1) = {} THEN f - 1 ELSE -(CHOOSE k \in pos(f - 1) : TRUE)])
      \cup Bad("type", r.o.type # "ndmap")
      \cup Bad("basegeo", ~r.o.basesame)

\* The same on geometries
Geo(r) ==
  LET ay == Axis(r, 1)
      ax == Axis(r, 2)
  IN  GeoClauses(r, ay, ax, r.o.shape, r.o.ypos, r.o.xpos)
      \cup Bad("basegeo", ~r.o.basesame)

(* General index expressions. Items: [t |-> "s", v |-> slice], [t |-> "i",   *)
(* v |-> <<int>>], [t |-> "e", v |-> <<>>] (ellipsis), [t |-> "n"] (newaxis),*)
(* [t |-> "a", v |-> list of ints] (at most one, on a leading axis)          *)
Consumes(it) == it.t \in {"s", "i", "a"}
Full == [t |-> "s", v |-> <<None, None, None>>]
Expand(items, nd) ==
  LET used == Cardinality({k \in 1..Len(items) : Consumes(items[k])})
      ell  == {k \in 1..Len(items) : items[k].t = "e"}
      fill == [k \in 1..(nd - used) |-> Full]
  IN  IF ell = {} THEN items \o fill
      ELSE LET e == CHOOSE k \in ell : TRUE
           IN  SubSeq(items, 1, e - 1) \o fill \o SubSeq(items, e + 1, Len(items))
AxisNo(its, k) == Cardinality({m \in 1..k : Consumes(its[m])})
Wrap(v, n) == IF v < 0 THEN v + n ELSE v
\* new axes among or after the sky axes: what comes back is the user's problem
Odd(r) == LET its == Expand(r.a.items, Len(r.a.pre) + 2)
              cons == SelectSeq([k \in 1..Len(its) |-> k], LAMBDA k : Consumes(its[k]))
          IN  \E k \in 1..Len(its) : its[k].t = "n" /\ k > cons[Len(cons) - 1]
Index(r) ==
  LET dims == r.a.pre \o r.a.n
      nd == Len(dims)
      its == Expand(r.a.items, nd)
      idx(k) == LET n == dims[AxisNo(its, k)] IN
                CASE its[k].t = "s" -> DataIdx(Cut(Base(n), its[k].v))
                  [] its[k].t = "i" -> <<Wrap(its[k].v[1], n)>>
                  [] its[k].t = "a" -> [j \in 1..Len(its[k].v) |-> Wrap(its[k].v[j], n)]
                  [] OTHER -> <<0>>
      cons == SelectSeq([k \in 1..Len(its) |-> k], LAMBDA k : Consumes(its[k]))
      kept == SelectSeq([k \in 1..Len(its) |-> k], LAMBDA k : its[k].t # "i")
      shape == [m \in 1..Len(kept) |-> IF its[kept[m]].t = "n" THEN 1 ELSE Len(idx(kept[m]))]
      want == PickAll([m \in 1..nd |-> idx(cons[m])], dims)
      \* the sky axes are the last two consuming items
      sky == <<cons[nd - 1], cons[nd]>>
      isMap == /\ its[sky[1]].t = "s" /\ its[sky[2]].t = "s"
               /\ sky[2] = Len(its) /\ sky[1] = Len(its) - 1
      ay == Cut(Base(r.a.n[1]), its[sky[1]].v)
      ax == Cut(Base(r.a.n[2]), its[sky[2]].v)
  IN  Bad("shape", r.o.shape # shape)
      \cup Bad("data", r.o.data # want)
      \cup Bad("type", ~Odd(r) /\ r.o.type # IF isMap THEN "ndmap" ELSE "ndarray")
      \cup (IF isMap /\ r.o.type = "ndmap" /\ ay.n > 0 /\ ax.n > 0
            THEN Bad("ypos", ~NearSeq(r.o.ypos, ExpPos(ay), PosTol)) \cup Bad("xpos", ~NearSeq(r.o.xpos, ExpPos(ax), PosTol))
            ELSE {})
      \cup Bad("basegeo", ~r.o.basesame)

Failing(r) ==
  IF r.x # "" THEN Bad("raised", ~(r.k = "index" /\ Odd(r)))
  ELSE CASE r.k = "chain" -> Chain(r)
         [] r.k = "geo" -> Geo(r)
         [] r.k = "geoclass" -> Geo(r)
         [] r.k = "index" -> Index(r)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
