------------------------------ MODULE TraceP19 ------------------------------
(* Records:                                                                  *)
(*  pad:    a.n, a.t, a.p, a.g, a.per as in Padtiles; the maps o.old, which  *)
(*          are read or written (o.real); o.its the tiles handed out in each *)
(*          iteration (values d, pixel position off of their first and last  *)
(*          pixels); o.new the maps afterwards, in units of 1/Full(p).       *)
(*          Tile ti was filled with A*read + B*(ti+1) + C*component.         *)
(*  stamps: stamps cut out of a map. join: tiles put together.               *)
EXTENDS Padtiles, TraceBase
Order(r) == Cat([j \in 1..Len(r.a.order) |->
   LET s == r.a.order[j]
       nt == Tiles(r.a.n, r.a.t) IN
   [u \in 1..(IF s >= nt THEN 0 ELSE CDiv(nt - s, r.a.step)) |-> s + (u - 1) * r.a.step]])
Comp(m, npix, c) == SubSeq(m, c * npix + 1, (c + 1) * npix)
Reads(r, mi, ti) == Cat([c \in 1..r.o.pre[mi] |-> ReadTile(Comp(r.o.old[mi], r.a.n[1] * r.a.n[2], c - 1), r.a.n, r.a.t, r.a.p, r.a.g, r.a.per, ti)])
Zero(s) == \A k \in 1..Len(s) : s[k] = 0
AtPix(off, y, x, h, w, per) ==
  LET okx(v, e) == IF per = 0 THEN Near(v, 1000 * e, 2) ELSE NearMod(v, 1000 * e, 2, 1000 * per) IN
  Near(off[1], 1000 * y, 2) /\ okx(off[2], x) /\ Near(off[3], 1000 * (y + h - 1), 2) /\ okx(off[4], x + w - 1)
First(r) == CHOOSE m \in 1..Len(r.o.real) : r.o.real[m] = "r"
Pad(r) ==
  LET n == r.a.n
      t == r.a.t
      p == r.a.p
      g == r.a.g
      npix == n[1] * n[2]
      h == t[1] + 2 * (p[1] + g[1])
      w == t[2] + 2 * (p[2] + g[2])
      order == TLCEval(Order(r))
      nm == Len(r.o.real)
      src == TLCEval([j \in 1..Len(order) |-> IF \E m \in 1..nm : r.o.real[m] = "r"
               THEN ReadTile(r.o.old[First(r)], n, t, p, g, r.a.per, order[j]) ELSE [q \in 1..(h * w) |-> 0]])
      Add(j, c, y, x) == LET wt == W2(order[j], n, t, p, y, x) IN
         IF wt = 0 THEN 0 ELSE wt * (r.a.A * TileVal(src[j], n, t, p, g, order[j], y, x) + (r.a.B * (order[j] + 1)) + (r.a.C * c))
      New(m) == IF r.o.real[m] = "r" THEN [q \in 1..Len(r.o.old[m]) |-> r.o.old[m][q] * Full(p)]
                ELSE [q \in 1..Len(r.o.old[m]) |-> LET c == (q - 1) \div npix
                                                       y == ((q - 1) % npix) \div n[2]
                                                       x == (q - 1) % n[2] IN
                        (r.o.old[m][q] * Full(p)) + SumSeq([j \in 1..Len(order) |-> Add(j, c, y, x)])]
  IN  Bad("count", Len(r.o.its) # Len(order))
      \cup UNION {UNION {
            Bad("tile", r.o.its[j][m].d # (IF r.o.real[m] = "r" THEN Reads(r, m, order[j]) ELSE [q \in 1..(r.o.pre[m] * h * w) |-> 0]))
            \cup Bad("shape", Last2(r.o.its[j][m].sh) # <<h, w>> \/ Len(r.o.its[j][m].sh) # Len(r.a.maps[m].pre) + 2)
            \cup Bad("position", LET k == TileYX(order[j], n, t) IN
                   ~AtPix(r.o.its[j][m].off, Pix(k[1], t[1], p[1] + g[1], 0), Pix(k[2], t[2], p[2] + g[2], 0), h, w, r.a.per))
            : m \in 1..nm} : j \in 1..Min2(Len(order), Len(r.o.its))}
      \cup Bad("result", Len(r.o.its) = Len(order) /\ \E m \in 1..nm : r.o.new[m] # New(m))
Stamps(r) ==
  LET sh == IF r.a.scalar THEN <<r.a.sh[1], r.a.sh[1]>> ELSE r.a.sh
      Want(j) == [q \in 1..(sh[1] * sh[2]) |->
         LET y == Wrapped(r.a.pos[j][1] + ((q - 1) \div sh[2]), r.a.n[1], 0)
             x == Wrapped(r.a.pos[j][2] + ((q - 1) % sh[2]), r.a.n[2], 0)
             \* whether the map continues around the sky is up to the code
         IN IF y = -1 \/ x = -1 THEN {2000000001} \cup (IF r.a.per = 0 \/ y = -1 THEN {} ELSE
                  LET v == Wrapped(r.a.pos[j][2] + ((q - 1) % sh[2]), r.a.n[2], r.a.per) IN IF v = -1 THEN {} ELSE {r.o.m[y * r.a.n[2] + v + 1]})
            ELSE {r.o.m[y * r.a.n[2] + x + 1]}]
  IN  Bad("count", r.o.n # Len(r.a.pos))
      \cup Bad("shape", Last2(r.o.sh) # sh)
      \cup Bad("stamp", r.o.n = Len(r.a.pos) /\ \E j \in 1..Len(r.a.pos) : LET e == Want(j) IN Len(r.o.d[j]) # Len(e) \/ \E q \in 1..Len(e) : r.o.d[j][q] \notin e[q])
      \cup Bad("position", \E j \in 1..Len(r.o.off) : ~AtPix(r.o.off[j], r.a.pos[j][1], r.a.pos[j][2], sh[1], sh[2], r.a.per))
Join(r) == Bad("values", r.o.d # r.o.m \/ r.o.sh # r.o.msh)
      \cup Bad("position", ~AtPix(r.o.off, 0, 0, Last2(r.o.msh)[1], Last2(r.o.msh)[2], r.a.per))
Failing(r) == IF r.x # "" THEN {"raised"} ELSE CASE r.k = "pad" -> Pad(r) [] r.k = "stamps" -> Stamps(r) [] r.k = "join" -> Join(r)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
