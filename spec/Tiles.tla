------------------------------- MODULE Tiles --------------------------------
(* Tile maps, abstractly: the dense map they stand for, and the set of tiles *)
(* that are stored. A buffer is [act: set of tiles, P: number of components  *)
(* (0: no leading axis), d: for every component the dense map, which is zero *)
(* in the tiles that are not stored]. An object is [b: buffer, c: component  *)
(* it is a view of, or 0].                                                   *)
EXTENDS Common
Grid(n, t) == <<CDiv(n[1], t[1]), CDiv(n[2], t[2])>>
NTile(n, t) == Grid(n, t)[1] * Grid(n, t)[2]
TilePos(n, t, gi) == <<gi \div Grid(n, t)[2], gi % Grid(n, t)[2]>>
Y1(n, t, gi) == TilePos(n, t, gi)[1] * t[1]
X1(n, t, gi) == TilePos(n, t, gi)[2] * t[2]
TileShape(n, t, gi) == <<Min2(t[1], n[1] - Y1(n, t, gi)), Min2(t[2], n[2] - X1(n, t, gi))>>
TileOf(n, t, p) == (((p \div n[2]) \div t[1]) * Grid(n, t)[2]) + ((p % n[2]) \div t[2])
\* dense pixels of a tile in the order they are stored
TilePix(n, t, gi) == LET s == TileShape(n, t, gi) IN
  [k \in 1..(s[1] * s[2]) |-> ((Y1(n, t, gi) + ((k - 1) \div s[2])) * n[2]) + X1(n, t, gi) + ((k - 1) % s[2])]
Layout(n, t, act) == Cat([k \in 1..Len(act) |-> TilePix(n, t, act[k])])
Store(n, t, act, d) == LET L == Layout(n, t, act) IN [k \in 1..Len(L) |-> d[L[k] + 1]]
Restrict(n, t, A, d) == [p \in 1..Len(d) |-> IF TileOf(n, t, p - 1) \in A THEN d[p] ELSE 0]
---------------------------------------------------------------------------
NComp(P) == Max2(P, 1)
Comps(s, i) == LET o == s.objs[i] IN IF o.c = 0 THEN s.bufs[o.b].d ELSE <<s.bufs[o.b].d[o.c]>>
Act(s, i) == s.bufs[s.objs[i].b].act
Pre(s, i) == IF s.objs[i].c = 0 THEN s.bufs[s.objs[i].b].P ELSE 0
New(s, act, P, d) == [bufs |-> Append(s.bufs, [act |-> act, P |-> P, d |-> d]), objs |-> Append(s.objs, [b |-> Len(s.bufs) + 1, c |-> 0])]
Write(s, i, d) == LET o == s.objs[i] IN
  IF o.c = 0 THEN [s EXCEPT !.bufs[o.b].d = d] ELSE [s EXCEPT !.bufs[o.b].d[o.c] = d[1]]
F(f, a, b) == CASE f = "add" -> a + b [] f = "sub" -> a - b [] f = "mul" -> a * b
Elem(f, d1, d2) == LET n == Max2(Len(d1), Len(d2)) IN
  [c \in 1..n |-> LET x == d1[IF Len(d1) = 1 THEN 1 ELSE c]
                      y == d2[IF Len(d2) = 1 THEN 1 ELSE c] IN [p \in 1..Len(x) |-> F(f, x[p], y[p])]]
Stack(d) == [p \in 1..Len(d[1]) |-> SumSeq([c \in 1..Len(d) |-> d[c][p]])]
(* Whether an operation is refused, leaving everything as it was *)
Refused(n, t, s, o) ==
  CASE o.op = "ibin" -> Act(s, o.j) \ Act(s, o.i) # {} \/ (Pre(s, o.j) # Pre(s, o.i) /\ Pre(s, o.j) # 0)
    [] o.op \in {"tile", "pix"} -> o.gi \notin Act(s, o.i)
    [] OTHER -> FALSE
Apply(n, t, s, o) ==
  LET i == o.i
      d == Comps(s, i)
      A == Act(s, i)
      In(p, gi) == TileOf(n, t, p - 1) = gi
  IN IF Refused(n, t, s, o) THEN s ELSE
  CASE o.op = "copy" -> New(s, A, Pre(s, i), d)
    [] o.op = "comp" -> [s EXCEPT !.objs = Append(@, [b |-> s.objs[i].b, c |-> o.c])]
    [] o.op = "bin"  -> New(s, A \cup Act(s, o.j), Max2(Pre(s, i), Pre(s, o.j)), Elem(o.f, d, Comps(s, o.j)))
    [] o.op = "binc" -> New(s, A, Pre(s, i), [c \in 1..Len(d) |-> Restrict(n, t, A, [p \in 1..Len(d[c]) |-> F(o.f, d[c][p], o.v)])])
    [] o.op = "ibin" -> Write(s, i, Elem(o.f, d, Comps(s, o.j)))
    [] o.op = "ibinc" -> Write(s, i, [c \in 1..Len(d) |-> Restrict(n, t, A, [p \in 1..Len(d[c]) |-> F(o.f, d[c][p], o.v)])])
    [] o.op = "with" -> LET B == IF o.j = 0 THEN {o.act[k] : k \in 1..Len(o.act)} ELSE Act(s, o.j)
                            C == IF o.strict THEN B ELSE A \cup B
                        IN  New(s, C, Pre(s, i), [c \in 1..Len(d) |-> Restrict(n, t, C, d[c])])
    [] o.op = "tile" -> Write(s, i, [c \in 1..Len(d) |-> [p \in 1..Len(d[c]) |-> IF In(p, o.gi) THEN o.v ELSE d[c][p]]])
    [] o.op = "pix"  -> LET P == TilePix(n, t, o.gi)
                            q == P[((o.k) % Len(P)) + 1] IN
                        Write(s, i, [c \in 1..Len(d) |-> [d[c] EXCEPT ![q + 1] = o.v]])
    [] o.op = "sum"  -> New(s, A, 0, <<Stack(d)>>)
    [] o.op = "insert" -> New(s, A \cup Act(s, o.j), Max2(Pre(s, i), Pre(s, o.j)),
                              [c \in 1..Max2(Len(d), Len(Comps(s, o.j))) |->
                                 LET x == d[IF Len(d) = 1 THEN 1 ELSE c]
                                     y == Comps(s, o.j)[IF Len(Comps(s, o.j)) = 1 THEN 1 ELSE c]
                                 IN  [p \in 1..Len(x) |-> IF TileOf(n, t, p - 1) \in Act(s, o.j) THEN y[p] ELSE x[p]]])
Fits(s, o) ==
  /\ o.i \in 1..Len(s.objs)
  /\ (o.op \in {"bin", "ibin", "insert"} => (o.j \in 1..Len(s.objs) /\ (Pre(s, o.i) = Pre(s, o.j) \/ Pre(s, o.i) = 0 \/ Pre(s, o.j) = 0)))
  /\ (o.op = "with" => o.j \in 0..Len(s.objs))
  /\ (o.op = "comp" => o.c \in 1..Pre(s, o.i))
  /\ (o.op = "sum" => Pre(s, o.i) > 0)
\* multiplication of maps with different active tiles is left out: see DESIGN.md
Same(s, o) == (o.op \in {"bin", "ibin"} /\ o.f = "mul") => Act(s, o.i) = Act(s, o.j)
Vals(n, P) == [c \in 1..NComp(P) |-> [p \in 1..(n[1] * n[2]) |-> ((5 * p + 3 * c) % 11) - 5]]
Start(n, t, P, A) == New([bufs |-> <<>>, objs |-> <<>>], A, P, [c \in 1..NComp(P) |-> Restrict(n, t, A, Vals(n, P)[c])])
=============================================================================
