------------------------------ MODULE TraceP10 ------------------------------
(* Range, box, index, bin and reshaping functions against the sets,          *)
(* sequences and arrays they denote. same: the arguments were left alone     *)
EXTENDS Arrays, TraceBase
Rng(q) == {q[k] : k \in 1..Len(q)}
W2(o) == o.shape = <<Len(o.c), 2>>
RSub(a, o) ==
  LET A == SortR(a.A)
      B == SortR(a.B)
      st(v) == IF v >= 0 THEN o.c[v + 1][1] ELSE a.B[-v][1]
      pos == SelectSeq(o.abmap, LAMBDA v : v >= 0)
  IN Bad("cells", o.c # SubPass(A, B) \/ o.c2 # o.c)
     \cup Bad("shape", ~W2(o))
     \cup Bad("rmap", Len(o.rmap) # Len(o.c) \/ \E k \in 1..Len(o.rmap) : ~(o.rmap[k] + 1 \in 1..Len(a.A)) \/ ~Within(o.c[k], a.A[o.rmap[k] + 1]))
     \cup Bad("abmap", pos # [k \in 1..Len(o.c) |-> k - 1] \/ \E k \in 1..(Len(o.abmap) - 1) : st(o.abmap[k]) > st(o.abmap[k + 1]))
RUnion(a, o) ==
  Bad("cells", o.c # MergePass(SortR(a.A), <<>>) \/ o.c2 # o.c)
  \cup Bad("shape", ~W2(o))
  \cup Bad("rmap", Len(o.rmap) # Len(a.A) \/ \E k \in 1..Len(o.rmap) : ~(o.rmap[k] + 1 \in 1..Len(o.c)) \/ ~Within(a.A[k], o.c[o.rmap[k] + 1]))
RNorm(a, o) == Bad("cells", o.c # SelectSeq(a.A, LAMBDA r : r[1] < r[2])) \cup Bad("shape", ~W2(o))
RCut(a, o) == Bad("cells", o.c # SubPass(SortR(a.A), [k \in 1..Len(a.C) |-> <<a.C[k], a.C[k]>>]))
Mask(a, o) ==
  Bad("cells", Cells(o.c) # {k - 1 : k \in {j \in 1..Len(a.m) : a.m[j] = 1}})
  \cup Bad("runs", ~Proper(o.c) \/ \E k \in 1..(Len(o.c) - 1) : o.c[k][2] >= o.c[k + 1][1])
  \cup Bad("shape", ~W2(o))
SBox(a, o) ==
  LET s == a.s IN
  Bad("fix", o.fix # Fix(s) \/ o.fixs # <<Fix(s), Fix(s)>>) \cup Bad("flip", o.flip # Flip(s) \/ o.flips # <<Flip(s), Flip(s)>>)
  \cup Bad("size", o.size # SLen(s) \/ o.sizes # <<SLen(s), SLen(s)>>) \cup Bad("slice", o.sl # SEl(s))
  \cup Bad("nostep", s[2] > s[1] /\ o.two # <<s[1], s[2], 1>>)
SMul(a, o) == Bad("elements", SEl(o.c) # Compose(a.s, a.t)) \cup Bad("batch", o.c2 # <<o.c, o.c2[2]>> \/ SEl(o.c2[2]) # <<a.s[1]>>)
SDiv(a, o) == Bad("elements", SLen(o.c) # SLen(o.a) \/ Compose(a.s, o.c) # SEl(o.a)) \cup Bad("batch", o.c2 # <<o.c, o.c>>)
Mods(S, w) == IF w = 0 THEN S ELSE {x % w : x \in S}
Inter1(s, t, w, c) == \* c: list of strided boxes
  Mods(UNION {SSet(c[k]) : k \in 1..Len(c)}, w) = Mods(SSet(s), w) \cap Mods(SSet(t), w)
  /\ SumSeq([k \in 1..Len(c) |-> SLen(c[k])]) = Cardinality(Mods(SSet(s), w) \cap Mods(SSet(t), w))
  /\ \A k \in 1..Len(c) : c[k][3] > 0
SInt1(a, o) == Bad("set", ~Inter1(a.s, a.t, a.w, o.c))
ModP(p, w) == <<IF w[1] = 0 THEN p[1] ELSE p[1] % w[1], IF w[2] = 0 THEN p[2] ELSE p[2] % w[2]>>
InterN(s, t, w, c) ==
  LET want == {ModP(p, w) : p \in SSet(s[1]) \X SSet(s[2])} \cap {ModP(p, w) : p \in SSet(t[1]) \X SSet(t[2])}
  IN  UNION {{ModP(p, w) : p \in SSet(c[k][1]) \X SSet(c[k][2])} : k \in 1..Len(c)} = want
      /\ SumSeq([k \in 1..Len(c) |-> SLen(c[k][1]) * SLen(c[k][2])]) = Cardinality(want)
SInt(a, o) ==
  Bad("set", ~InterN(a.s, a.t[1], a.w, o.one))
  \cup Bad("batch", o.shape # <<1, Len(a.t)>> \/ Len(o.many) # Len(a.t) \/ \E k \in 1..Len(a.t) : ~InterN(a.s, a.t[k], a.w, o.many[k]))
Src(s, w, c) == \* pairs of output and source index along one axis
  {p \in {<<k - 1, IF w = 0 THEN SEl(s)[k] ELSE SEl(s)[k] % w>> : k \in 1..SLen(s)} : c = 0 \/ (p[2] >= 0 /\ p[2] < c)}
Zip(ib, ob) == {<<SEl(ob)[k], SEl(ib)[k]>> : k \in 1..SLen(ib)}
SWrap(a, o) ==
  LET nd == Len(a.S)
      want == IF nd = 1 THEN Src(a.S[1], a.w[1], a.c[1]) ELSE Src(a.S[1], a.w[1], a.c[1]) \X Src(a.S[2], a.w[2], a.c[2])
      part(b) == IF nd = 1 THEN Zip(b[1][1], b[2][1]) ELSE Zip(b[1][1], b[2][1]) \X Zip(b[1][2], b[2][2])
      lens == \A k \in 1..Len(o.r) : \A d \in 1..nd : SLen(o.r[k][1][d]) = SLen(o.r[k][2][d]) /\ o.r[k][1][d][3] > 0
      n == SumSeq([k \in 1..Len(o.r) |-> Prod([d \in 1..nd |-> SLen(o.r[k][1][d])])])
  IN  IF ~lens THEN {"lengths"} ELSE Bad("pairs", UNION {part(o.r[k]) : k \in 1..Len(o.r)} # want \/ n # Cardinality(want))
Find(a, o) ==
  Bad("good", Len(o.good) # Len(a.good) \/ \E k \in 1..Len(o.good) : ~(o.good[k] + 1 \in 1..Len(a.arr)) \/ a.arr[o.good[k] + 1] # a.good[k])
  \cup Bad("default", Len(o.dft) # Len(a.vals) \/ \E k \in 1..Len(o.dft) : IF a.vals[k] \in Rng(a.arr) THEN ~(o.dft[k] + 1 \in 1..Len(a.arr)) \/ a.arr[o.dft[k] + 1] # a.vals[k] ELSE o.dft[k] # -1)
  \cup Bad("any", o.any # SelectSeq(o.dft, LAMBDA v : v >= 0))
  \cup Bad("raised", o.raised # (\E k \in 1..Len(a.vals) : a.vals[k] \notin Rng(a.arr)))
  \cup Bad("contains", o.cont # [k \in 1..Len(a.arr) |-> IF a.arr[k] \in Rng(a.vals) THEN 1 ELSE 0])
IsNear(arr, vals, ind) == Len(ind) = Len(vals) /\ \A k \in 1..Len(vals) : ind[k] + 1 \in 1..Len(arr) /\ \A j \in 1..Len(arr) : Abs(arr[ind[k] + 1] - vals[k]) <= Abs(arr[j] - vals[k])
NearK(a, o) ==
  Bad("nearest", ~IsNear(a.arr, a.vals, o.ind)) \cup Bad("sorted", ~IsNear(o.sarr, a.vals, o.sind))
  \cup Bad("inverse", \E k \in 1..Len(a.arr) : o.order[o.perm[k] + 1] # k - 1)
Common_(a, o) ==
  LET S == {v \in Rng(a.arrs[1]) : \A k \in 1..Len(a.arrs) : v \in Rng(a.arrs[k])} IN
  Bad("common", Rng(o.vals) # S \/ ~Asc(o.vals)) \cup Bad("union", Rng(o.union) # UNION {Rng(a.arrs[k]) : k \in 1..Len(a.arrs)} \/ ~Asc(o.union))
  \cup Bad("inds", Len(o.inds) # Len(a.arrs) \/ \E k \in 1..Len(a.arrs) : Len(o.inds[k]) # Len(o.vals) \/ \E j \in 1..Len(o.vals) : a.arrs[k][o.inds[k][j] + 1] # o.vals[j])
Perm(a, o) ==
  Bad("inverse", Len(o.inv) # a.n \/ \E k \in 1..a.n : o.inv[a.p[k] + 1] # k - 1)
  \cup Bad("complement", Rng(o.comp) # (0..(a.n - 1)) \ Rng(a.sub) \/ ~Asc(o.comp) \/ o.compn # <<>>)
NotNone(s) == Cardinality({k \in 1..Len(s) : s[k] # -1})
Parts(sel, nd, p) == Cat(p) = sel /\ Len(p) = Len(nd) /\ \A k \in 1..Len(p) : NotNone(p[k]) <= nd[k] /\ (NotNone(p[k]) < nd[k] => \A j \in (k + 1)..Len(p) : p[j] = <<>>)
CSplit(a, o) ==
  LET P(s, k) == SumTo(s, k) IN
  Bad("cumsplit", o.cs # [k \in 1..Len(a.caps) |-> Cardinality({j \in 1..Len(a.sizes) : P(a.sizes, j) <= P(a.caps, k)})])
  \cup Bad("uncat", o.uncat # [k \in 1..Len(a.lens) |-> [j \in 1..a.lens[k] |-> 9 + P(a.lens, k - 1) + j]])
  \cup Bad("slices", ~Parts(o.sel, a.nd, o.parts)) \cup Bad("ellipsis", ~Parts(o.esel, a.nd, o.eparts))
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) <= 1 THEN s ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))
RECURSIVE Join(_, _)
Join(ss, e) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<e>> \o Join(Tail(ss), e)
SeqK(a, o) ==
  LET d == a.d
      n == Len(d)
      I == {Norm(o.inds[k], n) : k \in 1..Len(o.inds)} IN
  Bad("dedup", o.dedup # Dedup(d))
  \cup Bad("listsplit", Len(o.ls) = 0 \/ Join(o.ls, a.e) # d \/ \E k \in 1..Len(o.ls) : a.e \in Rng(o.ls[k]))
  \cup Bad("repeat", n > 0 /\ o.rep # [k \in 1..a.n |-> (d \o Rev(d))[((k - 1) % (2 * n)) + 1]])
  \cup Bad("without", o.wo # [k \in 1..(n - Cardinality(I)) |-> LET keep == Rest(n, [j \in 1..Len(o.inds) |-> Norm(o.inds[j], n)]) IN d[keep[k] + 1]])
  \cup Bad("only", o.on # [k \in 1..Len(o.inds) |-> d[Norm(o.inds[k], n) + 1]])
  \cup Bad("one", n > 0 /\ o.one # <<Tail(d), <<d[n]>>>>)
  \cup Bad("minmax", n > 0 /\ o.mm # <<MinOf(Rng(d)), MaxOf(Rng(d))>>)
PTok(v) == IF v % 3 # 0 THEN <<v>> ELSE IF v % 2 = 1 THEN SEl(<<v, v + 5, 2>>) ELSE SEl(<<v, v + 3, 1>>)
TInds(a, o) ==
  Bad("transpose", o.t # [k \in 1..Len(a.inds) |-> ((a.inds[k] % a.c) * a.r) + (a.inds[k] \div a.c)])
  \cup Bad("parse", o.nums # (IF a.inds = <<>> THEN <<4>> ELSE Cat([k \in 1..Len(a.inds) |-> PTok(a.inds[k])])))
LinBin(a, o) ==
  LET S == {o.b[k][2] - o.b[k][1] : k \in 1..Len(o.b)} IN
  Bad("cover", ~BinsCover(o.b, a.n) \/ Len(o.b) # a.nbin \/ ~BinsCover(o.b2, a.n))
  \cup Bad("equal", MaxOf(S) - MinOf(S) > 1)
  \cup Bad("bsize", o.b3 # [k \in 1..CDiv(a.n, a.bsize) |-> <<(k - 1) * a.bsize, k * a.bsize>>])
  \cup Bad("edges", o.e # [k \in 1..(Len(o.b) + 1) |-> IF k <= Len(o.b) THEN o.b[k][1] ELSE a.n] \/ o.eb # o.b)
ExpBin(a, o) ==
  Bad("cover", ~BinsCover(o.b, a.n)) \cup Bad("empty", \E k \in 1..Len(o.b) : o.b[k][1] >= o.b[k][2])
  \cup Bad("nmin", a.nmax = 0 /\ a.n >= a.nmin /\ \E k \in 1..Len(o.b) : o.b[k][2] - o.b[k][1] < a.nmin)
  \cup Bad("nmax", a.nmax > 0 /\ \E k \in 1..Len(o.b) : o.b[k][2] - o.b[k][1] > a.nmax)
Red(op, s) == CASE op = "sum" -> 2520 * SumSeq(s) [] op = "max" -> 2520 * MaxOf(Rng(s)) [] op = "mean" -> (2520 \div Len(s)) * SumSeq(s)
Bin(a, o) ==
  LET n == a.e[Len(a.e)]
      nb == Len(a.e) - 1
      d == Arr(Append(a.pre, n), a.d)
      ax == Len(a.pre)
      bin(k) == CHOOSE b \in 1..nb : a.e[b] <= k /\ k < a.e[b + 1]
      r == MapLines(d, ax, nb, LAMBDA s : [b \in 1..nb |-> Red(a.op, SubSeq(s, a.e[b] + 1, a.e[b + 1]))])
      close(x, y) == x.sh = y.sh /\ NearSeq(x.v, y.v, 12)
  IN  Bad("bin", ~close(o.r, r)) \cup Bad("expand", ~close(o.x, MapLines(r, ax, n, LAMBDA s : [k \in 1..n |-> s[bin(k - 1)]])))
      \cup Bad("roundtrip", ~close(o.rr, r)) \cup Bad("edges", o.edges # a.e)
Cums(a, o) ==
  LET d == Arr(o.s, a.d)
      m == o.s[o.axis + 1] + (IF a.end THEN 1 ELSE 0)
  IN  Bad("cumsum", o.r # MapLines(d, o.axis, m, LAMBDA s : [k \in 1..m |-> SumTo(s, k - 1)]))
BinCount(a, o) ==
  LET p == Arr(Append(a.pre, a.n), a.p)
      m == Max2(a.ml, MaxOf(Rng(a.p)) + 1)
      ax == Len(a.pre)
      W(s, w, v) == SumSeq([k \in 1..Len(s) |-> IF s[k] = v THEN w[k] ELSE 0])
      one == [k \in 1..a.n |-> 1]
      hit(ix, w) == SumSeq([k \in 1..a.n |-> IF Clip(a.pix[1][k], 0, a.s[1] - 1) = ix[1] /\ Clip(a.pix[2][k], 0, a.s[2] - 1) = ix[2] THEN w[k] ELSE 0])
  IN  Bad("count", o.c # MapLines(p, ax, m, LAMBDA s : [v \in 1..m |-> W(s, one, v - 1)]))
      \cup Bad("weights", o.cw # MapLines(p, ax, m, LAMBDA s : [v \in 1..m |-> W(s, a.w, v - 1)]))
      \cup Bad("multi", o.m # Build(a.s, LAMBDA ix : hit(ix, one)) \/ o.mw # Build(a.s, LAMBDA ix : hit(ix, a.w)))
SumId(a, o) ==
  LET d == Arr(a.s, a.d)
      m == MaxOf(Rng(a.ids)) + 1
  IN  Bad("sum", o.r # MapLines(d, a.ax, m, LAMBDA s : [v \in 1..m |-> SumSeq([k \in 1..Len(s) |-> IF a.ids[k] = v - 1 THEN s[k] ELSE 0])]))
Unmask(a, o) ==
  LET N == Prod(a.ms)
      M == SumSeq(a.m)
      f(x) == LET c == (x \div N)
                  k == (x % N) + 1 IN IF a.m[k] = 0 THEN a.fill ELSE a.d[(c * M) + SumTo(a.m, k)]
  IN  Bad("unmask", o.r # Arr(a.pre \o a.ms, [x \in 1..(Prod(a.pre) * N) |-> f(x - 1)]))
BlockEdges(n, b, off, inc) ==
  LET full == (n - off) \div b
      e == [k \in 1..(full + 1) |-> off + (k - 1) * b] IN
  IF inc THEN (IF off > 0 THEN <<0>> ELSE <<>>) \o e \o (IF off + full * b < n THEN <<n>> ELSE <<>>) ELSE e
Block(a, o) ==
  LET n == a.s[a.ax + 1]
      e == BlockEdges(n, a.b, a.off, a.inc)
      nb == Len(e) - 1
      d == Arr(a.s, a.d)
      r == MapLines(d, a.ax, nb, LAMBDA s : [k \in 1..nb |-> SumSeq(SubSeq(s, e[k] + 1, e[k + 1]))])
      rm == MapLines(d, a.ax, nb, LAMBDA s : [k \in 1..nb |-> (60 \div (e[k + 1] - e[k])) * SumSeq(SubSeq(s, e[k] + 1, e[k + 1]))])
      x == MapLines(r, a.ax, n, LAMBDA s : [k \in 1..n |-> IF \E b \in 1..nb : e[b] < k /\ k <= e[b + 1] THEN s[CHOOSE b \in 1..nb : e[b] < k /\ k <= e[b + 1]] ELSE 0])
  IN  Bad("reduce", o.r # r) \cup Bad("mean", o.rm # rm) \cup Bad("expand", o.x # x)
PFlatK(a, o) ==
  LET d == Iota(a.s, 0)
      f == PFlat(d, a.ax, a.pos)
      inv(v) == CHOOSE k \in 1..Len(f.v) : f.v[k] = v
  IN  Bad("flatten", o.f # f \/ o.fv # f \/ o.fr # f) \cup Bad("expand", o.back # d)
      \cup Bad("writeback", o.w # Arr(a.s, [k \in 1..Len(d.v) |-> d.v[k] + 1000 * inv(d.v[k])]))
ShapeK(a, o) ==
  LET d == Iota(a.s, 0)
      nd == Len(a.s)
      S(sh) == Arr(sh, d.v)
      pref == S(<<Prod(SubSeq(a.s, 1, a.n))>> \o SubSeq(a.s, a.n + 1, nd))
      ones(n) == [k \in 1..n |-> 1]
      ndk(ax) == IF a.m >= nd THEN S(SubSeq(a.s, 1, ax) \o ones(a.m - nd) \o SubSeq(a.s, ax + 1, nd))
                 ELSE S(SubSeq(a.s, 1, ax) \o <<Prod(SubSeq(a.s, ax + 1, ax + 1 + nd - a.m))>> \o SubSeq(a.s, ax + 2 + nd - a.m, nd))
      ax0 == IF a.m >= nd THEN a.ax ELSE Min2(a.ax, a.m - 1)
      addsh == Cat([k \in 1..(nd + 1) |-> (IF k - 1 \in Rng(a.add) THEN <<1>> ELSE <<>>) \o (IF k <= nd THEN <<a.s[k]>> ELSE <<>>)])
      keep == Rest(nd, a.dele)
      dele == Build(Pick(a.s, keep), LAMBDA ix : El(d, [k \in 1..nd |-> IF k - 1 \in Rng(a.dele) THEN 0 ELSE ix[CHOOSE j \in 1..Len(keep) : keep[j] = k - 1]]))
  IN  Bad("preflat", o.pre # pref) \cup Bad("preflatneg", o.pren # pref)
      \cup Bad("postflat", o.post # S(SubSeq(a.s, 1, nd - a.n) \o <<Prod(SubSeq(a.s, nd - a.n + 1, nd))>>))
      \cup Bad("atleast", o.al # S(ones(Max2(0, a.m - nd)) \o a.s))
      \cup Bad("tond", o.nd # ndk(ax0) \/ o.ndn # <<ndk(IF a.m >= nd THEN nd ELSE ax0)>>)
      \cup Bad("addaxes", o.add # S(addsh)) \cup Bad("delaxes", o.dele # dele)
Labels(l, rows) == Len(l) = Len(rows) /\ (\A j, k \in 1..Len(l) : (l[j] = l[k]) <=> (rows[j] = rows[k])) /\ Rng(l) = 0..(Cardinality(Rng(rows)) - 1)
Groups(a, o) ==
  LET c0 == [k \in 1..a.n |-> a.rows[k][1]]
      nu == Len(o.uv) IN
  Bad("groups", ~IsPartition(o.gr, a.n) \/ Len(o.gr) # Cardinality(Rng(a.rows)) \/ \E g \in 1..Len(o.gr) : \E j, k \in 1..Len(o.gr[g]) : a.rows[o.gr[g][j] + 1] # a.rows[o.gr[g][k] + 1])
  \cup Bad("fast", ~Asc(o.uv) \/ Rng(o.uv) # Rng(c0) \/ Len(o.edges) # nu + 1 \/ ~IsPartition(<<o.order>>, a.n)
       \/ \E g \in 1..nu : SubSeq(o.order, o.edges[g] + 1, o.edges[g + 1]) # SelectSeq([k \in 1..a.n |-> k - 1], LAMBDA k : c0[k + 1] = o.uv[g]))
  \cup Bad("unique", ~Labels(o.lu, a.rows) \/ ~Labels(o.lu1, c0)) \cup Bad("multi", ~Labels(o.lm, a.rows))
Balanced(p, w) == LET S == {SumSeq([j \in 1..Len(p[k]) |-> w[p[k][j] + 1]]) : k \in 1..Len(p)} IN w = <<>> \/ MaxOf(S) - MinOf(S) <= MaxOf(Rng(w))
Split(a, o) ==
  LET n == Len(a.w)
      work == [k \in 1..Len(o.g) |-> SumSeq([j \in 1..Len(o.g[k]) |-> a.w[o.g[k][j] + 1]])] IN
  Bad("partition", ~IsPartition(o.eq, n) \/ ~IsPartition(o.gs, n) \/ ~IsPartition(o.g, n) \/ Len(o.eq) # a.n \/ Len(o.gs) # a.n \/ Len(o.g) # a.n)
  \cup Bad("balance", ~Balanced(o.eq, a.w) \/ ~Balanced(o.gs, a.w))
  \cup Bad("cost", o.work # work \/ o.cost # MaxOf(Rng(work) \cup {0}))
BShape(a, o) ==
  LET s == BCast(a.A)
      want(k) == LET p == [j \in 1..a.pre[k] |-> a.pd]
                     src == Iota(p \o a.A[k], 0)
                 IN  Build(p \o s, LAMBDA ix : El(src, SubSeq(ix, 1, a.pre[k]) \o BIx(a.A[k], SubSeq(ix, a.pre[k] + 1, Len(ix))))) IN
  Bad("refusal", o.ok # (s # <<-1>>)) \cup (IF ~o.ok \/ s = <<-1>> THEN {} ELSE
  Bad("shape", o.s # s) \cup Bad("arrays", o.arrs # [k \in 1..Len(a.A) |-> want(k)]) \cup Bad("none", o.none # (IF a.none THEN <<TRUE>> ELSE <<>>)))
BCells(b) == {p \in (0..9) \X (0..9) : b[1][1] <= p[1] /\ p[1] < b[2][1] /\ b[1][2] <= p[2] /\ p[2] < b[2][2]}
BSlice(x, y) == [c \in 1..2 |-> [d \in 1..2 |-> Clip(y[c][d] - x[1][d], 0, x[2][d] - x[1][d])]]
BoxK(a, o) ==
  LET all == UNION {{a.A[k][1], a.A[k][2]} : k \in 1..Len(a.A)}
      bb == <<<<MinOf({p[1] : p \in all}), MinOf({p[2] : p \in all})>>, <<MaxOf({p[1] : p \in all}), MaxOf({p[2] : p \in all})>>>>
      sg(d) == Sgn(o.d[2][d] - o.d[1][d])
      pad(n) == <<[d \in 1..2 |-> o.d[1][d] - n * sg(d)], [d \in 1..2 |-> o.d[2][d] + n * sg(d)]>>
  IN  Bad("bounding", o.bb # bb \/ o.bp # bb)
      \cup Bad("slice", o.sl # [j \in 1..Len(a.A) |-> [k \in 1..Len(a.B) |-> BSlice(a.A[j], a.B[k])]] \/ o.sl1 # BSlice(a.A[1], a.B[1]))
      \cup Bad("area", o.area # [j \in 1..Len(a.A) |-> Cardinality(BCells(a.A[j]))])
      \cup Bad("overlap", o.ov # [j \in 1..Len(a.A) |-> [k \in 1..Len(a.B) |-> Cardinality(BCells(a.A[j]) \cap BCells(a.B[k]))]])
      \cup Bad("pad", o.pad # pad(a.pad)) \cup Bad("widen", o.wid # pad(a.pad))
      \cup Bad("corners", Len(o.cor) # 4 \/ Rng(o.cor) # {<<a.A[1][x][1], a.A[1][y][2]>> : x \in 1..2, y \in 1..2} \/ Len(o.cor3) # 8 \/ Rng(o.cor3) # {1, 4} \X {2, 5} \X {3, 6})
UnwrapR(a, o) ==
  Bad("unwrap", \E j \in 1..2 : LET d == o.r[2][j] - o.r[1][j] IN (o.r[1][j] - a.r[1][j]) % a.w # 0 \/ (o.r[2][j] - a.r[2][j]) % a.w # 0 \/ d < 0 \/ d >= a.w
      \/ o.r[2][j] < 0 \/ o.r[2][j] >= a.w)
Prime(n) == n > 1 /\ \A k \in 2..(n - 1) : n % k # 0
Num(a, o) ==
  LET P(n) == Factors(n, a.f)
      below(n) == MaxOf({k \in 1..n : P(k)})
      above(n) == MinOf({k \in n..(n * 9) : P(k)})
      x == o.x IN
  Bad("primes", Prod(o.p) # a.n \/ \E k \in 1..Len(o.p) : ~Prime(o.p[k]))
  \cup Bad("gcd", o.gcd # Gcd(a.n, a.m) \/ o.lcm # Lcm(a.n, a.m))
  \cup Bad("below", o.lo # below(a.n) \/ o.m # below(a.m)) \cup Bad("above", a.n > 1 /\ o.hi # above(a.n))
  \cup Bad("round", \E k \in 1..Len(x) : o.floor[k] * 1000 > x[k] + 1 \/ (o.floor[k] + 1) * 1000 < x[k] - 1 \/ o.ceil[k] * 1000 < x[k] - 1 \/ (o.ceil[k] - 1) * 1000 > x[k] + 1 \/ Abs(o.nint[k] * 1000 - x[k]) > 501)
NdI(s, axes) == \* row-major list of the indices over the given axes
  LET dims == [k \in 1..Len(s) |-> IF k - 1 \in axes THEN s[k] ELSE 1] IN
  [f \in 1..Prod(dims) |-> [k \in 1..Len(s) |-> IF k - 1 \in axes THEN Unflat(f - 1, dims)[k] ELSE -1]]
NdIter(a, o) ==
  Bad("all", o.all # NdI(a.s, 0..(Len(a.s) - 1))) \cup Bad("some", o.some # NdI(a.s, Rng(a.axes)))
  \cup Bad("combinations", LET d == [k \in 1..Len(a.lists) |-> Len(a.lists[k])] IN
       Len(o.comb) # Prod(d) \/ \E f \in 1..Prod(d) : ~\E g \in 1..Len(o.comb) : o.comb[g] = [k \in 1..Len(d) |-> a.lists[k][Unflat(f - 1, d)[k] + 1]])
SDown(a, o) ==
  LET el == SEl(<<a.s[1], a.s[2], Sgn(a.s[3])>>)
      st == Abs(a.s[3])
      blk(d, s, k) == LET part == SubSeq(s, (k - 1) * st + 1, Min2(k * st, Len(s))) IN (60 \div Len(part)) * SumSeq([j \in 1..Len(part) |-> d[part[j] + 1]])
      pair(d, k) == LET p == SubSeq(d, 2 * k - 1, Min2(2 * k, Len(d))) IN (60 \div Len(p)) * SumSeq(p)
  IN  Bad("blocks", o.r # [k \in 1..CDiv(Len(el), st) |-> blk(a.d, el, k)]) \cup Bad("default", o.full # [k \in 1..CDiv(a.n, 2) |-> pair(a.d, k)])
Outer(a, o) ==
  LET d == [k \in 1..Len(a.A) |-> Len(a.A[k])] IN
  Bad("stack", o.r # Build(<<Len(a.A)>> \o d, LAMBDA ix : a.A[ix[1] + 1][ix[ix[1] + 2] + 1]))
  \cup Bad("search", o.left # [k \in 1..3 |-> Cardinality({j \in 1..4 : a.rows[k][j] < a.v[k]})] \/ o.right # [k \in 1..3 |-> Cardinality({j \in 1..4 : a.rows[k][j] <= a.v[k]})])
Resize(a, o) ==
  LET src == Iota(a.s, 10)
      os == [k \in 1..Len(a.s) |-> IF k - 1 \in Rng(a.ax) THEN a.size[CHOOSE j \in 1..Len(a.ax) : a.ax[j] = k - 1] ELSE a.s[k]] IN
  Bad("resize", o.r # Build(os, LAMBDA ix : IF \A k \in 1..Len(ix) : ix[k] < a.s[k] THEN El(src, ix) ELSE a.val))
\* Weighted quantile q/4 of d with weights w: between sorted elements, whose positions are
\* (cumulative weight - w/2)/total. Times 10^5
WQ(d, w, qq) ==
  LET n == Len(d)
      rank(k) == Cardinality({j \in 1..n : d[j] <= d[k]})
      at(r) == CHOOSE k \in 1..n : rank(k) = r
      cum(r) == SumSeq([j \in 1..r |-> w[at(j)]])
      p(r) == 8 * cum(r) - 4 * w[at(r)]           \* 8*total*position
      tot == SumSeq(w)
      t == 2 * qq * tot
      i1 == Cardinality({r \in 1..n : p(r) < t})
  IN  IF i1 = 0 THEN d[at(1)] * 100000 ELSE IF i1 = n THEN d[at(n)] * 100000
      ELSE LET x == p(i1 + 1) - p(i1) IN d[at(i1)] * 100000 + RDiv((d[at(i1 + 1)] - d[at(i1)]) * 10000 * (t - p(i1)), x) * 10
Med2(s) == LET t == SortS(s)
               n == Len(s) IN IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[(n \div 2) + 1]
WQK(a, o) ==
  LET nz(s) == SelectSeq(s, LAMBDA v : v # 0)
      ii == a.n \div 4
      mid == SubSeq(SortS(a.d[1]), ii + 1, a.n - ii) IN
  Bad("quantile", \E k \in 1..2 : ~Near(o.r[k], WQ(a.d[k], a.w[k], a.q), 30) \/ o.rt[k] # o.r[k])
  \cup Bad("median", o.m # [k \in 1..2 |-> Med2(a.d[k])]) \cup Bad("masked", o.med # [k \in 1..2 |-> IF nz(a.d[k]) = <<>> THEN 0 ELSE Med2(nz(a.d[k]))])
  \cup Bad("medmean", ~Near(o.mm, RDiv(60 * SumSeq(mid), Len(mid)), 1))
Kind(k, a, o) ==
  CASE k = "rsub" -> RSub(a, o) [] k = "runion" -> RUnion(a, o) [] k = "rnorm" -> RNorm(a, o) [] k = "rcut" -> RCut(a, o)
    [] k = "mask" -> Mask(a, o) [] k = "sbox" -> SBox(a, o) [] k = "smul" -> SMul(a, o) [] k = "sdiv" -> SDiv(a, o)
    [] k = "sint1" -> SInt1(a, o) [] k = "sint" -> SInt(a, o) [] k = "swrap" -> SWrap(a, o) [] k = "find" -> Find(a, o)
    [] k = "near" -> NearK(a, o) [] k = "common" -> Common_(a, o) [] k = "perm" -> Perm(a, o) [] k = "csplit" -> CSplit(a, o)
    [] k = "seq" -> SeqK(a, o) [] k = "tinds" -> TInds(a, o) [] k = "linbin" -> LinBin(a, o) [] k = "expbin" -> ExpBin(a, o)
    [] k = "bin" -> Bin(a, o) [] k = "cums" -> Cums(a, o) [] k = "bincount" -> BinCount(a, o) [] k = "sumid" -> SumId(a, o)
    [] k = "unmask" -> Unmask(a, o) [] k = "block" -> Block(a, o) [] k = "pflat" -> PFlatK(a, o) [] k = "shape" -> ShapeK(a, o)
    [] k = "groups" -> Groups(a, o) [] k = "split" -> Split(a, o) [] k = "bshape" -> BShape(a, o) [] k = "box" -> BoxK(a, o)
    [] k = "unwrapr" -> UnwrapR(a, o) [] k = "num" -> Num(a, o) [] k = "nditer" -> NdIter(a, o) [] k = "sdown" -> SDown(a, o)
    [] k = "outer" -> Outer(a, o) [] k = "resize" -> Resize(a, o) [] k = "wq" -> WQK(a, o)
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x} ELSE Bad("inputs", ~r.o.same) \cup Kind(r.k, r.a, r.o)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
