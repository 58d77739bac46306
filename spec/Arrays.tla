------------------------------- MODULE Arrays -------------------------------
(* Arrays as a shape and the row-major sequence of their elements, and the   *)
(* reshaping and counting operations on them                                 *)
EXTENDS Ranges
Arr(sh, v) == [sh |-> sh, v |-> v]
\* Array of a given shape from a function of the zero-based multi-index
Build(sh, f(_)) == Arr(sh, [k \in 1..Prod(sh) |-> f(Unflat(k - 1, sh))])
El(a, ix) == a.v[Flat(ix, a.sh) + 1]
Iota(sh, off) == Arr(sh, [k \in 1..Prod(sh) |-> off + k - 1])
Norm(ax, n) == IF ax < 0 THEN ax + n ELSE ax
Ins(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))      \* before zero-based position p
Del(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
Rest(n, axes) == SelectSeq([k \in 1..n |-> k - 1], LAMBDA k : \A j \in 1..Len(axes) : axes[j] # k)
Pick(s, axes) == [j \in 1..Len(axes) |-> s[axes[j] + 1]]
\* Flatten all axes but the given ones; the flattened axis goes to pos
PFlat(a, axes, pos) ==
  LET n == Len(a.sh)
      rest == Rest(n, axes)
      rsh == Pick(a.sh, rest)
      osh == Ins(Pick(a.sh, axes), pos, Prod(rsh))
      src(o) == LET keep == Del(o, pos)
                    ri == Unflat(o[pos + 1], rsh)
                IN  [k \in 1..n |-> IF \E j \in 1..Len(axes) : axes[j] = k - 1 THEN keep[CHOOSE j \in 1..Len(axes) : axes[j] = k - 1]
                                    ELSE ri[CHOOSE j \in 1..Len(rest) : rest[j] = k - 1]]
  IN  Build(osh, LAMBDA o : El(a, src(o)))
\* Move one axis' elements through a function of the sequence along it
Along(a, ax) == [k \in 1..a.sh[ax + 1] |-> k - 1]
Line(a, ax, ix) == [k \in 1..a.sh[ax + 1] |-> El(a, [ix EXCEPT ![ax + 1] = k - 1])]
\* Apply a sequence function of output length m along axis ax
MapLines(a, ax, m, F(_)) ==
  Build([a.sh EXCEPT ![ax + 1] = m], LAMBDA o : F(Line(a, ax, o))[o[ax + 1] + 1])
BCast2(s, t) == \* broadcast two shapes, <<-1>> when impossible
  LET n == Max2(Len(s), Len(t))
      g(u, k) == IF k <= n - Len(u) THEN 1 ELSE u[k - (n - Len(u))]
  IN  IF s = <<-1>> \/ t = <<-1>> THEN <<-1>>
      ELSE IF \E k \in 1..n : g(s, k) # g(t, k) /\ g(s, k) # 1 /\ g(t, k) # 1 THEN <<-1>>
      ELSE [k \in 1..n |-> Max2(g(s, k), g(t, k))]
RECURSIVE BCast(_)
BCast(ss) == IF Len(ss) = 1 THEN ss[1] ELSE BCast2(ss[1], BCast(Tail(ss)))
\* Element of shape s that position o of the broadcast shape shows
BIx(s, o) == [k \in 1..Len(s) |-> IF s[k] = 1 THEN 0 ELSE o[k + Len(o) - Len(s)]]
\* Insertion sort
RECURSIVE InsS(_, _)
InsS(s, v) == IF s = <<>> THEN <<v>> ELSE IF v < Head(s) THEN <<v>> \o s ELSE <<Head(s)>> \o InsS(Tail(s), v)
RECURSIVE SortS(_)
SortS(s) == IF s = <<>> THEN <<>> ELSE InsS(SortS(Tail(s)), Head(s))
RECURSIVE InsR(_, _)
InsR(s, v) == IF s = <<>> THEN <<v>> ELSE IF v[1] < Head(s)[1] THEN <<v>> \o s ELSE <<Head(s)>> \o InsR(Tail(s), v)
RECURSIVE SortR(_)
SortR(s) == IF s = <<>> THEN <<>> ELSE InsR(SortR(Tail(s)), Head(s))
Asc(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
IsPartition(parts, n) == \* sequences of zero-based indices that use each of 0..n-1 exactly once
  LET c == Cat(parts) IN Len(c) = n /\ {c[k] : k \in 1..Len(c)} = 0..(n - 1)
BinsCover(b, n) == Len(b) > 0 /\ b[1][1] = 0 /\ b[Len(b)][2] = n /\ (\A k \in 1..(Len(b) - 1) : b[k][2] = b[k + 1][1]) /\ \A k \in 1..Len(b) : b[k][1] <= b[k][2]
RECURSIVE Factors(_, _)
Factors(n, f) == IF n = 1 THEN TRUE ELSE \E k \in 1..Len(f) : n % f[k] = 0 /\ Factors(n \div f[k], f)
=============================================================================
