------------------------------ MODULE Padtiles ------------------------------
(* Splitting a map of n = <<ny, nx>> pixels into logical tiles of t = <<ty,  *)
(* tx>> pixels which are handed out enlarged by p pixels of padding and g    *)
(* pixels of margin on each side. Reading sees the map (which continues      *)
(* around the sky with period per, 0 if it does not), and zero outside it.   *)
(* Writing drops the margin and adds the rest into the map with weights that *)
(* cross-fade over the 2p pixels that neighbouring tiles share.              *)
EXTENDS Common
Count(n, t) == CDiv(n, t)
Tiles(n, t) == Count(n[1], t[1]) * Count(n[2], t[2])
TileYX(ti, n, t) == <<ti \div Count(n[2], t[2]), ti % Count(n[2], t[2])>>
(* Map pixel of cell c of enlarged tile k along one axis *)
Pix(k, t, grow, c) == k * t - grow + c
(* The pixel that is actually read, or -1 *)
Wrapped(x, n, per) == LET w == IF per = 0 THEN x ELSE FMod(x, per) IN IF w >= 0 /\ w < n THEN w ELSE -1
(* Weight of cell c of padded tile k of nt, in units of 1/(2p+1). 2p <= t *)
One(p) == 2 * p + 1
Weight(k, nt, t, p, c) == IF k > 0 /\ c < 2 * p THEN c + 1
                          ELSE IF k < nt - 1 /\ c >= t THEN 2 * p - (c - t)
                          ELSE One(p)
(* Weight with which tile k contributes to pixel x *)
WeightAt(k, n, t, p, x) == LET c == x - (k * t - p) IN
                           IF c < 0 \/ c >= t + 2 * p THEN 0 ELSE Weight(k, Count(n, t), t, p, c)
W2(ti, n, t, p, y, x) == LET k == TileYX(ti, n, t) IN WeightAt(k[1], n[1], t[1], p[1], y) * WeightAt(k[2], n[2], t[2], p[2], x)
Full(p) == One(p[1]) * One(p[2])
(* What reading tile ti sees of the row-major values m *)
ReadTile(m, n, t, p, g, per, ti) ==
  LET k == TileYX(ti, n, t)
      h == t[1] + 2 * (p[1] + g[1])
      w == t[2] + 2 * (p[2] + g[2]) IN
  [q \in 1..(h * w) |->
     LET y == Wrapped(Pix(k[1], t[1], p[1] + g[1], (q - 1) \div w), n[1], 0)
         x == Wrapped(Pix(k[2], t[2], p[2] + g[2], (q - 1) % w), n[2], per)
     IN  IF y = -1 \/ x = -1 THEN 0 ELSE m[y * n[2] + x + 1]]
(* The value a tile d (enlarged by p+g) holds for map pixel y,x, which it covers *)
TileVal(d, n, t, p, g, ti, y, x) ==
  LET k == TileYX(ti, n, t)
      w == t[2] + 2 * (p[2] + g[2]) IN
  d[(y - Pix(k[1], t[1], p[1] + g[1], 0)) * w + (x - Pix(k[2], t[2], p[2] + g[2], 0)) + 1]
=============================================================================
