------------------------------ MODULE TraceP04 ------------------------------
EXTENDS Grid, SinTab, TraceBase
Tol == 3
Turn == 360000000
\* a.ky row intervals, a.nx columns; o.dec, o.ra: positions of rows and columns, 1e-6 degrees
FullSky(r) ==
  LET ny == Rows(r.a.variant, r.a.ky) IN
  Bad("shape", r.o.shape # r.a.pre \o <<ny, r.a.nx>>)
  \cup Bad("rows", ~NearSeq(r.o.dec, [j \in 1..ny |-> RowDeg(r.a.variant, r.a.ky, j - 1)], Tol))
  \cup Bad("cols", ~NearModSeq(r.o.ra, [c \in 1..r.a.nx |-> ColDeg(r.a.nx, c - 1)], Tol, Turn))
\* band: a.f = <<f1, f2>> position of the requested limits in rows (1/1000)
Band(r) ==
  LET Ny == Rows(r.a.variant, r.a.ky)
      ny == Len(r.o.dec)
      \* the row of the full grid that the first row of the band is
      near == {j \in 0..(Ny - 1) : ny > 0 /\ Near(r.o.dec[1], RowDeg(r.a.variant, r.a.ky, j), Tol)}
  IN  Bad("empty", ny = 0)
      \cup Bad("subset", ny > 0 /\ near = {})
      \cup (IF ny = 0 \/ near = {} THEN {} ELSE
            LET j0 == CHOOSE j \in near : TRUE IN
            Bad("shape", r.o.shape # r.a.pre \o <<ny, r.a.nx>>)
            \cup Bad("rows", j0 + ny > Ny \/ ~NearSeq(r.o.dec, [j \in 1..ny |-> RowDeg(r.a.variant, r.a.ky, j0 + j - 1)], Tol))
            \cup Bad("cols", ~NearModSeq(r.o.ra, [c \in 1..r.a.nx |-> ColDeg(r.a.nx, c - 1)], Tol, Turn))
            \* edges of the band within a pixel of what was asked for
            \cup Bad("lower", Abs(1000 * j0 - 500 - r.a.f[1]) > 1000)
            \cup Bad("upper", Abs(1000 * (j0 + ny) - 500 - r.a.f[2]) > 1000))
(* Box geometries. o.c1, o.c2: pixel coordinates <<y, x>> (1/1000) of the    *)
(* requested corners, o.org that of the standard reference point, o.cd: pixel*)
(* size (1e-7 degrees, signed)                                               *)
Box(r) ==
  Bad("shape", r.a.shape # <<>> /\ r.o.shape # r.a.pre \o r.a.shape)
  \cup Bad("pre", SubSeq(r.o.shape, 1, Len(r.a.pre)) # r.a.pre)
  \cup LET n == Last2(r.o.shape) IN
       Bad("lower", \E d \in 1..2 : Abs(r.o.c1[d] + 500) > r.a.tol[1])
       \cup Bad("upper", \E d \in 1..2 : Abs(r.o.c2[d] - (1000 * n[d] - 500)) > r.a.tol[2])
       \cup Bad("res", (r.a.shape = <<>> \/ r.a.centre) /\ ~NearSeq([d \in 1..2 |-> Abs(r.o.cd[d])], r.o.res, 2))
       \cup Bad("dir", \E d \in 1..2 : Sgn(r.o.cd[d]) # r.a.dirs[d])
       \cup Bad("ref", r.a.std /\ \E d \in 1..2 : ~NearMod(r.o.org[d], 0, 2, 1000))
\* thumbnails: centred on the origin, which is a pixel centre
Thumb(r) ==
  LET n == Last2(r.o.shape) IN
  Bad("pre", r.o.shape # r.a.pre \o n)
  \cup Bad("odd", \E d \in 1..2 : n[d] % 2 # 1)
  \cup Bad("centre", \E d \in 1..2 : Abs(r.o.org[d] - 500 * (n[d] - 1)) > 1)
  \cup Bad("shape", r.a.shape # <<>> /\ n # [d \in 1..2 |-> 2 * (r.a.shape[d] \div 2) + 1])
  \cup Bad("res", r.a.res # <<>> /\ ~NearSeq([d \in 1..2 |-> Abs(r.o.cd[d])], r.o.res, 2))
  \* o.rad: pixel coordinates of the point r above and left of the centre
  \cup Bad("radius", r.a.hasr /\ \E d \in 1..2 : Abs(Abs(r.o.rad[d] - 500 * (n[d] - 1)) - 500 * (n[d] - 1)) > (IF r.a.res # <<>> THEN 502 ELSE 3))
  \cup Bad("dir", \E d \in 1..2 : Sgn(r.o.cd[d]) # r.a.dirs[d])
(* Areas of a plate carree grid with rows of 2.5*a.h degrees, the first row  *)
(* starting at 2.5*a.e degrees, and columns of a.dra degrees. Areas are      *)
(* recorded in degree-radians: area * 180/pi, scaled.                        *)
RowArea(r, j) == LET e == IF r.a.dn THEN r.a.e - r.a.h * j ELSE r.a.e + r.a.h * j
                     f == IF r.a.dn THEN e - r.a.h ELSE e + r.a.h
                 IN  r.a.dra * Abs(Sin25(f) - Sin25(e))       \* times 1e7
RowH(r, j) == LET e == IF r.a.dn THEN r.a.e - r.a.h * j ELSE r.a.e + r.a.h * j
                  f == IF r.a.dn THEN e - r.a.h ELSE e + r.a.h
              IN  Abs(Clip(f, -36, 36) - Clip(e, -36, 36))      \* in 2.5 degrees
Areas(r) ==
  LET ny == r.a.n[1] nx == r.a.n[2]
      rows == [j \in 1..ny |-> RowArea(r, j - 1)]
      total == SumSeq([j \in 1..ny |-> RDiv(rows[j], 100)]) * nx        \* times 1e5
      hs == SumSeq([j \in 1..ny |-> RowH(r, j - 1)])
  IN  Bad("psize", ~NearSeq(r.o.psize, [k \in 1..(ny * nx) |-> rows[((k - 1) \div nx) + 1]], 30))
      \cup Bad("area", ~Near(r.o.area, total, 3 + ny * nx))
      \cup Bad("height", ~NearSeq(r.o.height, [j \in 1..ny |-> 2500000 * RowH(r, j - 1)], Tol))
      \* width = area / height;  height in degrees * 1e3
      \cup Bad("width", \E j \in 1..ny : RowH(r, j - 1) > 0 /\ ~Near(RDiv(r.o.width[j] * RowH(r, j - 1), 4), RDiv(rows[j], 100) , 20 + r.a.dra))
      \cup Bad("extent", ~Near(r.o.extent[1], 2500000 * hs, Tol))
      \cup Bad("extarea", ~Near(r.o.extprod, r.o.area, 3 + Abs(r.o.area) \div 100000))
      \cup Bad("pixsize", ~Near(r.o.pixsize, RDiv(total, nx * ny), 3))
      \cup Bad("shapes", r.o.shapes # <<r.a.n, <<2, ny, nx>>>>)
      \cup Bad("broadcast", ~NearSeq(r.o.bsize, r.o.psize, 1))
      \cup Bad("psigns", r.o.psgn # r.o.sgn \o r.o.sgn \o r.o.sgn)
      \cup Bad("signs", r.o.sgn # <<IF r.a.dn THEN -1 ELSE 1, r.a.sra>>)
      \cup Bad("members", ~Near(r.o.mprod, r.o.area, 3 + Abs(r.o.area) \div 100000) \/ ~Near(r.o.method, r.o.area, 1))
      \cup Bad("methods", ~Near(r.o.contour, r.o.area, 3 + Abs(r.o.area) \div 1000))
\* any projection: all measures of area agree with the area spanned by the pixel outlines
GenArea(r) ==
  LET t == r.o.ref IN
  Bad("ref", t <= 0)
  \cup Bad("area", ~Near(r.o.area, t, 2 + t \div 500))
  \cup Bad("sum", ~Near(r.o.sum, t, 2 + t \div 500))
  \cup Bad("extent", ~Near(r.o.extprod, r.o.area, 2 + t \div 1000))
  \cup Bad("pixsize", ~Near(r.o.npixsize, r.o.area, 2 + t \div 1000))
  \cup Bad("pixels", ~NearSeq(r.o.psize, r.o.pref, 300))
  \cup Bad("heights", ~NearSeq(r.o.shp[1], r.o.shp[2], 3))
  \cup Bad("widths", Len(r.o.shp[3]) # Len(r.o.shp[4]) \/ \E k \in 1..Len(r.o.shp[3]) : ~Near(r.o.shp[3][k], r.o.shp[4][k], 3 + r.o.shp[4][k] \div 1000))
Bounds(r) == Bad("bounds", Len(r.o.b) # 2 \/ ~NearSeq(r.o.b[1], r.o.lo, 2) \/ ~NearSeq(r.o.b[2], r.o.hi, 2))
\* corners of a plate carree geometry, which may wrap: 1/10 pixels -> 1e-6 degrees
Corners(r) ==
  LET lo == IF r.a.corner THEN -5 ELSE 0
      hi(n) == IF r.a.corner THEN 10 * n - 5 ELSE 10 * (n - 1)
      S(h, p) == 1000 * h.cv + (p + 10 - 5 * h.cp) * h.cd * 100
  IN  Bad("dec", ~Near(r.o.box[1], S(r.a.hy, lo), Tol) \/ ~Near(r.o.box[3], S(r.a.hy, hi(r.a.n[1])), Tol))
      \cup Bad("ra", ~NearMod(r.o.box[2], S(r.a.hx, lo), Tol, Turn))
      \cup Bad("width", ~Near(r.o.box[4] - r.o.box[2], S(r.a.hx, hi(r.a.n[2])) - S(r.a.hx, lo), Tol))
      \cup Bad("member", ~NearSeq(r.o.box2, r.o.box, 1))
Failing(r) ==
  IF r.x # "" THEN {"raised"}
  ELSE CASE r.k = "fullsky" -> FullSky(r)
         [] r.k = "band" -> Band(r)
         [] r.k = "box" -> Box(r)
         [] r.k = "thumb" -> Thumb(r)
         [] r.k = "areas" -> Areas(r)
         [] r.k = "genarea" -> GenArea(r)
         [] r.k = "bounds" -> Bounds(r)
         [] r.k = "corners" -> Corners(r)
TNext == i <= NTrace /\ Report(Trace[i], IF Trace[i].k = "deleg" THEN Deleg(Trace[i]) ELSE Failing(Trace[i])) /\ i' = i + 16
=============================================================================
