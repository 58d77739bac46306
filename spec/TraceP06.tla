------------------------------ MODULE TraceP06 ------------------------------
(* Records:                                                                  *)
(*  hist: a.n, a.hist a behaviour of Container; o.snaps after each step, for *)
(*        each object, its values d, its shape n, its reference pixel g      *)
(*        relative to the first map's, and whether it still is a map.        *)
(*  op:   one array operation on o.ins (shape n, values d), result o.out     *)
EXTENDS Container, TraceBase
---------------------------------------------------------------------------
RECURSIVE States(_, _, _)
States(s, h, k) == IF k > Len(h) THEN <<>> ELSE LET t == Apply(s, h[k]) IN <<t>> \o States(t, h, k + 1)
Snap(s) == [j \in 1..Len(s.objs) |-> [d |-> Vals(s, j), n |-> s.objs[j].n, g |-> s.objs[j].g]]
Hist(r) ==
  LET S == States(Start(r.a.n), r.a.hist, 1)
      o == r.o.snaps
  IN  Bad("length", Len(o) # Len(S))
      \cup UNION {LET e == Snap(S[k]) IN
           Bad("objects", Len(o[k]) # Len(e))
           \cup Bad("values", \E j \in 1..Min2(Len(e), Len(o[k])) : o[k][j].d # e[j].d)
           \cup Bad("shape",  \E j \in 1..Min2(Len(e), Len(o[k])) : o[k][j].n # e[j].n)
           \cup Bad("geometry", \E j \in 1..Min2(Len(e), Len(o[k])) : o[k][j].g # e[j].g)
           \cup Bad("type", \E j \in 1..Len(o[k]) : ~o[k][j].ismap)
           : k \in 1..Min2(Len(o), Len(S))}
---------------------------------------------------------------------------
(* Broadcasting *)
Ndim(a, b) == Max2(Len(a), Len(b))
Dim(s, nd, k) == LET j == k - (nd - Len(s)) IN IF j < 1 THEN 1 ELSE s[j]
BShape(a, b) == [k \in 1..Ndim(a, b) |-> IF Dim(a, Ndim(a, b), k) = 1 THEN Dim(b, Ndim(a, b), k) ELSE Dim(a, Ndim(a, b), k)]
BAt(m, shape, f) == LET ix == Unflat(f, shape)
                        off == Len(shape) - Len(m.n)
                        jx == [k \in 1..Len(m.n) |-> IF m.n[k] = 1 THEN 0 ELSE ix[k + off]]
                    IN  m.d[Flat(jx, m.n) + 1]
B01(b) == IF b THEN 1 ELSE 0
F2(f, a, b) ==
  CASE f = "add" -> a + b [] f = "subtract" -> a - b [] f = "multiply" -> a * b
    [] f = "maximum" -> Max2(a, b) [] f = "minimum" -> Min2(a, b)
    [] f = "greater" -> B01(a > b) [] f = "less" -> B01(a < b) [] f = "equal" -> B01(a = b)
    [] f = "not_equal" -> B01(a # b) [] f = "greater_equal" -> B01(a >= b) [] f = "less_equal" -> B01(a <= b)
    [] f = "floor_divide" -> IF b > 0 THEN a \div b ELSE (-a) \div (-b)
    [] f = "mod" -> IF b > 0 THEN a % b ELSE -((-a) % (-b))
    [] f = "logical_and" -> B01(a # 0 /\ b # 0) [] f = "logical_or" -> B01(a # 0 \/ b # 0)
F1(f, a) == CASE f = "negative" -> -a [] f = "absolute" -> Abs(a) [] f = "square" -> a * a [] f = "sign" -> Sgn(a)
              [] f = "logical_not" -> B01(a = 0) [] f = "isfinite" -> 1 [] f = "conj" -> a
(* Reductions over a set of axes *)
RECURSIVE FoldS(_, _, _, _)
FoldS(f, acc, s, k) == IF k > Len(s) THEN acc ELSE FoldS(f, CASE f = "sum" -> acc + s[k] [] f = "max" -> Max2(acc, s[k]) [] f = "min" -> Min2(acc, s[k])
                                                       [] f = "any" -> B01(acc # 0 \/ s[k] # 0) [] f = "all" -> B01(acc # 0 /\ s[k] # 0), s, k + 1)
RedShape(n, ax, keep) == LET full == [k \in 1..Len(n) |-> IF k - 1 \in ax THEN 1 ELSE n[k]] IN
   IF keep THEN full ELSE LET K == SelectSeq([k \in 1..Len(n) |-> k], LAMBDA k : k - 1 \notin ax) IN [j \in 1..Len(K) |-> n[K[j]]]
RedFull(n, ax) == [k \in 1..Len(n) |-> IF k - 1 \in ax THEN 1 ELSE n[k]]
RedVals(f, m, ax) ==
  LET fs == RedFull(m.n, ax)
      sub == [k \in 1..Len(m.n) |-> IF k - 1 \in ax THEN m.n[k] ELSE 1]
      N == Prod(sub) IN
  [q \in 1..Prod(fs) |->
     LET ix == Unflat(q - 1, fs)
         els == [e \in 1..N |-> LET jx == Unflat(e - 1, sub) IN m.d[Flat([k \in 1..Len(m.n) |-> ix[k] + jx[k]], m.n) + 1]]
     IN  IF f = "mean" THEN FDiv(SumSeq(els) * 5040, N)
         ELSE FoldS(f, IF f \in {"any", "all"} THEN B01(els[1] # 0) ELSE els[1], els, 2)]
CumVals(m, ax) == [q \in 1..Len(m.d) |-> LET ix == Unflat(q - 1, m.n) IN
                     SumSeq([e \in 1..(ix[ax + 1] + 1) |-> m.d[Flat([ix EXCEPT ![ax + 1] = e - 1], m.n) + 1]])]
OutT(o, n, d, tol) == Bad("shape", o.n # n) \cup Bad("values", o.n = n /\ ~NearSeq(o.d, d, tol))
Out(o, n, d) == Bad("shape", o.n # n) \cup Bad("values", o.n = n /\ o.d # d)
AxSet(r) == {r.a.axes[k] : k \in 1..Len(r.a.axes)}
Sky(n, ax) == {Len(n) - 1, Len(n) - 2} \cap ax = {}
OpC(r) ==
  LET o == r.o.out
      m == r.o.ins[1] IN
  Bad("modified", ~r.o.same)
  \cup
  CASE r.a.op = "bin" ->
         LET p == r.o.ins[2]
             n == BShape(m.n, p.n)
             sw == r.a.swap
         IN  Out(o, n, [f \in 1..Prod(n) |-> LET x == BAt(m, n, f - 1)
                                               y == BAt(p, n, f - 1) IN IF sw THEN F2(r.a.f, y, x) ELSE F2(r.a.f, x, y)])
             \cup Bad("geometry", ~o.ismap \/ ~o.samewcs)
    [] r.a.op = "un" -> Out(o, m.n, [f \in 1..Len(m.d) |-> F1(r.a.f, m.d[f])]) \cup Bad("geometry", ~o.ismap \/ ~o.samewcs)
    [] r.a.op = "red" ->
         OutT(o, RedShape(m.n, AxSet(r), r.a.keep), RedVals(r.a.f, m, AxSet(r)), IF r.a.f = "mean" THEN 1 ELSE 0)
         \cup Bad("geometry", Sky(m.n, AxSet(r)) /\ (~o.ismap \/ ~o.samewcs))
    [] r.a.op = "cum" -> Out(o, m.n, CumVals(m, r.a.axes[1])) \cup Bad("geometry", ~o.ismap \/ ~o.samewcs)
    [] r.a.op = "same" -> Out(o, m.n, m.d) \cup Bad("geometry", ~o.ismap \/ ~o.samewcs) \cup Bad("dtype", o.dt # r.o.edt)
    [] r.a.op = "stack" ->
         Out(o, <<Len(r.o.ins)>> \o m.n, Cat([k \in 1..Len(r.o.ins) |-> r.o.ins[k].d])) \cup Bad("geometry", ~o.ismap \/ ~o.samewcs)
    [] r.a.op = "flat" ->
         Out(o, <<Prod(SubSeq(m.n, 1, Len(m.n) - 2))>> \o Last2(m.n), m.d) \cup Bad("geometry", ~o.ismap \/ ~o.samewcs)
    [] r.a.op = "fill" -> Out(o, m.n, [f \in 1..Len(m.d) |-> r.a.c]) \cup Bad("geometry", ~o.ismap \/ ~o.samewcs) \cup Bad("dtype", o.dt # r.o.edt)
    [] r.a.op = "fillbad" -> Out(o, m.n, [f \in 1..Len(m.d) |-> IF r.o.bad[f] THEN r.a.c ELSE m.d[f]]) \cup Bad("geometry", ~o.ismap \/ ~o.samewcs)
    [] r.a.op = "mul" ->     \* matrix times vector in every pixel
         LET v == r.o.ins[2]
             P == Prod(Last2(v.n))
             A == v.n[Len(v.n) - 2]
             K == Prod(SubSeq(v.n, 1, Len(v.n) - 3))
         IN  Out(o, v.n, [f \in 1..Len(v.d) |->
                LET p == (f - 1) % P
                    a == ((f - 1) \div P) % A
                    k == (f - 1) \div (P * A)
                    km == IF Len(m.n) > Len(v.n) THEN k ELSE 0     \* the same matrix for all
                IN  SumSeq([b \in 1..A |-> m.d[((km * A + a) * A + b - 1) * P + p + 1] * v.d[(k * A + b - 1) * P + p + 1]])])
             \cup Bad("geometry", ~o.ismap \/ ~o.samewcs)
Failing(r) == IF r.x # "" THEN {"raised"} ELSE IF r.k = "hist" THEN Hist(r) ELSE OpC(r)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
