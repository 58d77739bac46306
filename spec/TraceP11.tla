------------------------------ MODULE TraceP11 ------------------------------
(* Records (distances in units of 1e-7 radians):                             *)
(*  from:  o.D[pixel][point], o.d distances, o.l labels (empty if not asked) *)
(*  mask:  o.D[pixel][pixel], masks o.m, distance transforms o.d or grown or *)
(*         shrunk masks o.g by o.r. label: labels o.m, result o.d, o.l       *)
(*  hp:    the same on the HEALPix sphere. cross: pairs o.s of catalogues.   *)
(*  Infinite distances are recorded as -2.                                   *)
EXTENDS Distances, TraceBase
From(r) ==
  LET o == r.o IN
  Bad("shape", o.sh # o.wsh) \cup Bad("given", ~o.same)
  \cup IF o.n = 0 THEN Bad("empty", (\E p \in 1..Len(o.d) : o.d[p] # (IF o.rmax < 0 THEN -2 ELSE o.rmax)) \/ (\E p \in 1..Len(o.l) : o.l[p] # -1))
       ELSE Bad("distance", Len(o.d) # Len(o.D) \/ \E p \in 1..Len(o.D) : ~DistOk(o.d[p], MinD(o.D[p]), o.rmax, o.tol))
            \cup Bad("label", \E p \in 1..Len(o.l) : ~LabelOk(o.l[p], o.d[p], o.D[p], o.rmax, o.tol))
(* Distance of pixel p to the nearest pixel in S *)
To(D, p, S) == MinOf({D[p][s] : s \in S})
Mask(r) ==
  LET o == r.o
      NP == Len(o.D) IN
  Bad("modified", ~o.same) \cup Bad("shape", o.sh # o.wsh)
  \cup UNION {
     LET m == o.m[c]
         F == {p \in 1..NP : m[p] = 0}
         T == (1..NP) \ F
     IN  IF r.k = "hp" \/ r.a.op = "dist" THEN
            Bad("inside", \E p \in F : o.d[c][p] # 0)
            \cup Bad("distance", \E p \in T : IF F = {} THEN o.d[c][p] # (IF o.rmax < 0 THEN -2 ELSE o.rmax)
                                                    ELSE ~DistOk(o.d[c][p], To(o.D, p, F), o.rmax, o.tol))
         ELSE IF r.a.op = "grow" THEN
            Bad("kept", \E p \in T : o.g[c][p] # 1)
            \cup Bad("grown", \E p \in F : IF T = {} THEN o.g[c][p] # 0
                  ELSE LET d == To(o.D, p, T) IN (d > o.r + Eps /\ o.g[c][p] # 0) \/ (d < o.r - o.slop - Eps /\ o.g[c][p] # 1))
         ELSE
            Bad("kept", \E p \in F : o.g[c][p] # 0)
            \cup Bad("shrunk", \E p \in T : IF F = {} THEN o.g[c][p] # 1
                  ELSE LET d == To(o.D, p, F) IN (d > o.r + Eps /\ o.g[c][p] # 1) \/ (d < o.r - o.slop - Eps /\ o.g[c][p] # 0))
     : c \in 1..Len(o.m)}
Label(r) ==
  LET o == r.o
      NP == Len(o.D) IN
  UNION {LET L == {p \in 1..NP : o.m[c][p] # 0} IN
  Bad("inside", \E p \in L : o.d[c][p] # 0 \/ o.l[c][p] # o.m[c][p])
  \cup Bad("distance", \E p \in (1..NP) \ L : IF L = {} THEN o.d[c][p] # (IF o.rmax < 0 THEN -2 ELSE o.rmax) ELSE ~DistOk(o.d[c][p], To(o.D, p, L), o.rmax, o.tol))
  \cup Bad("label", \E p \in (1..NP) \ L : IF o.l[c][p] = 0 THEN L # {} /\ ~(o.rmax >= 0 /\ Near(o.d[c][p], o.rmax, Eps))
                                          ELSE ~\E s \in L : o.m[c][s] = o.l[c][p] /\ Near(o.D[p][s], o.d[c][p], Eps))
  : c \in 1..Len(o.m)}
Cross(r) == CASE r.a.mode = "all" -> Bad("pairs", ~AllOk(r.o.D, r.o.r, r.o.s))
              [] r.a.mode = "closest" -> Bad("closest", ~ClosestOk(r.o.D, r.o.r, r.o.s))
              [] r.a.mode = "nearest" -> Bad("nearest", ~NearestOk(r.o.D, r.o.r, r.o.s))
              [] r.a.mode = "first" -> Bad("first", ~FirstOk(r.o.D, r.o.r, r.o.s))
Failing(r) == IF r.x # "" THEN {"raised"} ELSE
  CASE r.k = "from" -> From(r) [] r.k = "mask" -> Mask(r) [] r.k = "label" -> Label(r) [] r.k = "cross" -> Cross(r)
    [] r.k = "hp" -> IF r.a.op = "from" THEN From(r) ELSE IF r.a.op = "mask" THEN Mask(r) ELSE Label(r)
TNext == i <= NTrace /\ Report(Trace[i], IF Trace[i].k = "deleg" THEN Deleg(Trace[i]) ELSE Failing(Trace[i])) /\ i' = i + 16
=============================================================================
