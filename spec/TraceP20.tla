------------------------------ MODULE TraceP20 ------------------------------
EXTENDS Multimap, TraceBase
\* replay the history on the model and compare what was observed after every step
RECURSIVE Walk(_, _, _, _)
Walk(s, h, obs, k) ==
  IF k > Len(h) THEN {} ELSE
  LET e == h[k]
      t == TLCEval(Apply(s, e))
      b == obs[k]
      new == t.obj[Len(t.obj)]
      F == IF b.x # "" THEN {"raised_" \o b.x \o "_in_" \o e.op} ELSE
           (IF Creates(e.op) THEN Bad("kind_" \o e.op, b.mm # new.mm) \cup Bad("leading_" \o e.op, b.pre # new.pre) \cup Bad("geometry_" \o e.op, b.geos # new.geos) ELSE {})
           \cup (IF Len(b.all) # Len(t.obj) THEN {"objects"} ELSE
                 Bad("values_" \o e.op, \E j \in 1..Len(t.obj) : b.all[j] # Val(t, t.obj[j]))
                 \cup Bad("counts", b.nmap # [j \in 1..Len(t.obj) |-> Len(t.obj[j].geos)] \/ b.ntot # [j \in 1..Len(t.obj) |-> Ntot(t.obj[j].geos)]))
  IN  IF F # {} THEN F ELSE Walk(t, h, obs, k + 1)
Hist(r) == Walk(Empty0, r.a.hist, r.o.steps, 1)
\* --- statistics of every member: a.x holds rows x ntot values
Cells(a, row, m) == [k \in 1..NPix(a.geos[m]) |-> a.x[((row - 1) * Ntot(a.geos)) + Off(a.geos, m) + k]]
ISum(v) == SumSeq(v)
Sorted(v) == SortSeq(v, <)
Want(a, row, m) ==
  LET v == TLCEval(Cells(a, row, m))
      n == Len(v)
  IN  CASE a.f = "max" -> 1000 * MaxOf(Range(v)) [] a.f = "min" -> 1000 * MinOf(Range(v)) [] a.f = "mean" -> RDiv(1000 * ISum(v), n)
        [] a.f = "median" -> LET t == Sorted(v) IN IF n % 2 = 1 THEN 1000 * t[(n + 1) \div 2] ELSE 500 * (t[n \div 2] + t[(n \div 2) + 1])
        [] a.f = "var" -> RDiv(1000 * ((n * SumSeq([k \in 1..n |-> v[k] * v[k]])) - (ISum(v) * ISum(v))), n * n)
Stat(r) == LET a == r.a
               rows == Prod(a.pre)
               nm == Len(a.geos)
           IN  Bad("shape", Len(r.o.v) # rows * nm) \cup (IF Len(r.o.v) # rows * nm THEN {} ELSE
               Bad("values", \E k \in 1..(rows * nm) : ~Near(r.o.v[k], Want(a, ((k - 1) % rows) + 1, ((k - 1) \div rows) + 1), 2)))
\* --- functions of whole maps act on each member as on a map of its own
Each(r) == Bad("members", ~NearSeq(r.o.v, r.o.parts, 1)) \cup Bad("geometry", r.o.geos # r.a.geos) \cup Bad("inputs", ~r.o.same) \cup Bad("kind", ~r.o.mm)
\* elementwise product with a matrix: a.mat is rows x cols x ntot, a.x cols x ntot
MatMul(r) == LET a == r.a
                 w == Ntot(a.geos)
             IN  Bad("values", r.o.v # [k \in 1..(a.n * w) |-> LET c == ((k - 1) \div w)
                                                                  p == ((k - 1) % w) + 1
                                                              IN  SumSeq([b \in 1..a.n |-> a.mat[(((c * a.n) + (b - 1)) * w) + p] * a.x[((b - 1) * w) + p]])])
                 \cup Bad("geometry", r.o.geos # a.geos)
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x} ELSE
  CASE r.k = "hist" -> Hist(r) [] r.k = "stat" -> Stat(r) [] r.k = "each" -> Each(r) [] r.k = "matmul" -> MatMul(r)
    [] r.k = "none" -> Bad("empty", <<r.o.nmap, r.o.ntot, r.o.n, r.o.size>> # <<0, 0, 0, 0>>)
    [] r.k = "range" -> LET n == Len(r.a.geos)
                            j == IF r.a.i < 0 THEN r.a.i + n + 1 ELSE r.a.i + 1
                        IN  Bad("index", r.o.ok # (1 <= j /\ j <= n) \/ (r.o.ok /\ (r.o.v # <<j>> \/ r.o.g # r.a.geos[j])))
    [] r.k = "refuse" -> Bad("accepted", ~r.o.refused)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
