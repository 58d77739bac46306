----------------------------- MODULE Container ------------------------------
(* Maps as array objects: a heap of buffers, and objects that are views of   *)
(* them. An object is [b: buffer, idx: elements of it in row-major order,    *)
(* n: shape, g: reference pixel <<y, x>> of its geometry].                   *)
EXTENDS Common
Obj(b, idx, n, g) == [b |-> b, idx |-> idx, n |-> n, g |-> g]
Vals(s, i) == [k \in 1..Len(s.objs[i].idx) |-> s.bufs[s.objs[i].b][s.objs[i].idx[k]]]
New(s, vals, n, g) == [bufs |-> Append(s.bufs, vals),
                       objs |-> Append(s.objs, Obj(Len(s.bufs) + 1, [k \in 1..Len(vals) |-> k], n, g))]
Write(s, i, vals) == LET o == s.objs[i] IN
  [s EXCEPT !.bufs[o.b] = [p \in 1..Len(@) |-> IF \E k \in 1..Len(o.idx) : o.idx[k] = p
                                                THEN vals[CHOOSE k \in 1..Len(o.idx) : o.idx[k] = p] ELSE @[p]]]
Bin(op, a, b) == [k \in 1..Len(a) |-> CASE op = "add" -> a[k] + b[k] [] op = "sub" -> a[k] - b[k] [] op = "mul" -> a[k] * b[k]
                                        [] op = "max" -> Max2(a[k], b[k]) [] op = "min" -> Min2(a[k], b[k])]
Const(c, n) == [k \in 1..n |-> c]
(* The effect of an operation. o.op names it, o.i and o.j are the objects it *)
(* works on                                                                  *)
Apply(s, o) ==
  LET i == o.i
      v == Vals(s, i)
      x == s.objs[i] IN
  CASE o.op \in {"copy", "deepcopy", "shallow", "pickle", "enmap", "plus0"} -> New(s, v, x.n, x.g)
    [] o.op = "rows" -> [s EXCEPT !.objs = Append(@, Obj(x.b, SubSeq(x.idx, o.lo * x.n[2] + 1, o.hi * x.n[2]), <<o.hi - o.lo, x.n[2]>>, <<x.g[1] - o.lo, x.g[2]>>))]
    [] o.op = "cols" -> [s EXCEPT !.objs = Append(@, LET w == o.hi - o.lo IN
                           Obj(x.b, [k \in 1..(x.n[1] * w) |-> x.idx[((k - 1) \div w) * x.n[2] + o.lo + ((k - 1) % w) + 1]], <<x.n[1], w>>, <<x.g[1], x.g[2] - o.lo>>))]
    [] o.op = "bin"  -> New(s, Bin(o.f, v, Vals(s, o.j)), x.n, x.g)
    [] o.op = "binc" -> New(s, Bin(o.f, v, Const(o.c, Len(v))), x.n, x.g)
    [] o.op = "rbinc" -> New(s, Bin(o.f, Const(o.c, Len(v)), v), x.n, x.g)
    [] o.op = "ibin" -> Write(s, i, Bin(o.f, v, Vals(s, o.j)))
    [] o.op = "ibinc" -> Write(s, i, Bin(o.f, v, Const(o.c, Len(v))))
    [] o.op = "set"  -> Write(s, i, [v EXCEPT ![o.k] = o.c])
    [] o.op = "assign" -> Write(s, i, Vals(s, o.j))
    [] o.op = "geo"  -> [s EXCEPT !.objs[i].g = <<@[1] + o.d[1], @[2] + o.d[2]>>]
Fits(s, o) ==
  /\ o.i \in 1..Len(s.objs)
  /\ o.op \in {"bin", "ibin", "assign"} => (o.j \in 1..Len(s.objs) /\ s.objs[o.i].n = s.objs[o.j].n)
  /\ o.op = "rows" => o.lo < o.hi /\ o.hi <= s.objs[o.i].n[1]
  /\ o.op = "cols" => o.lo < o.hi /\ o.hi <= s.objs[o.i].n[2]
  /\ o.op = "set" => o.k \in 1..Len(s.objs[o.i].idx)
Start(n) == New([bufs |-> <<>>, objs |-> <<>>], [k \in 1..(n[1] * n[2]) |-> ((7 * k) % 11) - 4], n, <<0, 0>>)
Copies == {"copy", "deepcopy", "shallow", "pickle", "enmap", "plus0"}
=============================================================================
