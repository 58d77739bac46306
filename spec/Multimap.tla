------------------------------ MODULE Multimap ------------------------------
(* Maps with different geometries in one flat buffer. A state has memory cells *)
(* and the objects handed out so far: multimaps (mm) and single maps (members  *)
(* of a multimap), each a list of the cells it shows in order. Apply(s, e) is  *)
(* the state after operation e.                                                *)
EXTENDS Common, TLC
Shapes == << <<1, 1>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<2, 2>>, <<0, 3>> >>
NPix(g) == Shapes[g][1] * Shapes[g][2]
RECURSIVE Ntot(_)
Ntot(geos) == IF geos = <<>> THEN 0 ELSE NPix(Head(geos)) + Ntot(Tail(geos))
Off(geos, m) == Ntot(SubSeq(geos, 1, m - 1))
Empty0 == [heap |-> <<>>, obj |-> <<>>]
Size(o) == Len(o.cells)
Rows(o) == Prod(o.pre)
New(s, o) == [s EXCEPT !.obj = Append(@, o)]
\* a new object with its own cells, holding the given values
Fresh(s, mm, pre, geos, vals) == [heap |-> s.heap \o vals,
   obj |-> Append(s.obj, [mm |-> mm, pre |-> pre, geos |-> geos, cells |-> [k \in 1..Len(vals) |-> Len(s.heap) + k]])]
Val(s, o) == TLCEval([k \in 1..Len(o.cells) |-> s.heap[o.cells[k]]])
\* the cells of member m, those of entry j along the first leading axis, and of all but the first
Member(o, m) == LET n == NPix(o.geos[m])
                    w == Ntot(o.geos)
                IN  TLCEval([k \in 1..(Rows(o) * n) |-> o.cells[(((k - 1) \div n) * w) + Off(o.geos, m) + ((k - 1) % n) + 1]])
Entry(o, j) == LET n == Size(o) \div o.pre[1] IN TLCEval([k \in 1..n |-> o.cells[((j - 1) * n) + k]])
Inv(cells) == TLCEval([c \in {cells[k] : k \in 1..Len(cells)} |-> CHOOSE k \in 1..Len(cells) : cells[k] = c])
Write(s, cells, v(_)) == LET w == Inv(cells) IN [s EXCEPT !.heap = TLCEval([c \in 1..Len(@) |-> IF c \in DOMAIN w THEN v(w[c]) ELSE @[c]])]
Ramp(n, v) == [k \in 1..n |-> v + k]
\* values of a reduction over the first leading axis
SumAxis(s, o) == LET n == Size(o) \div o.pre[1] IN TLCEval([k \in 1..n |-> SumSeq([j \in 1..o.pre[1] |-> s.heap[o.cells[((j - 1) * n) + k]]])])
\* which map a flat position along the last axis belongs to
RECURSIVE MapOf(_, _, _)
MapOf(geos, p, m) == IF p < NPix(geos[m]) THEN m ELSE MapOf(geos, p - NPix(geos[m]), m + 1)
Apply(s, e) ==
  LET o == s.obj[e.o]
      p == s.obj[e.p]
  IN  CASE e.op = "make"   -> Fresh(s, TRUE, e.pre, e.geos, Ramp(Prod(e.pre) * Ntot(e.geos), e.v))      \* from a list of maps
        [] e.op = "zeros"  -> Fresh(s, TRUE, e.pre, e.geos, [k \in 1..(Prod(e.pre) * Ntot(e.geos)) |-> 0])
        [] e.op = "full"   -> Fresh(s, TRUE, e.pre, e.geos, [k \in 1..(Prod(e.pre) * Ntot(e.geos)) |-> e.v])
        [] e.op = "fulls"  -> LET w == Ntot(e.geos) IN Fresh(s, TRUE, e.pre, e.geos, [k \in 1..(Prod(e.pre) * w) |-> e.v + MapOf(e.geos, (k - 1) % w, 1)])
        [] e.op = "member" -> New(s, [mm |-> FALSE, pre |-> o.pre, geos |-> <<o.geos[e.i]>>, cells |-> Member(o, e.i)])
        [] e.op = "entry"  -> New(s, [o EXCEPT !.pre = Tail(@), !.cells = Entry(o, e.i)])
        [] e.op = "ment"   -> LET m == [mm |-> FALSE, pre |-> o.pre, geos |-> <<o.geos[e.i]>>, cells |-> Member(o, e.i)]
                              IN  New(s, [m EXCEPT !.pre = Tail(@), !.cells = Entry(m, e.j)])
        [] e.op = "copy"   -> Fresh(s, o.mm, o.pre, o.geos, Val(s, o))
        [] e.op = "relist" -> Fresh(s, TRUE, o.pre, o.geos, Val(s, o))         \* the list of members made into a multimap again
        [] e.op = "file"   -> Fresh(s, TRUE, o.pre, o.geos, Val(s, o))         \* written to and read from a file
        [] e.op = "plus"   -> Fresh(s, o.mm, o.pre, o.geos, [k \in 1..Size(o) |-> s.heap[o.cells[k]] + e.v])
        [] e.op = "times"  -> Fresh(s, o.mm, o.pre, o.geos, [k \in 1..Size(o) |-> s.heap[o.cells[k]] * 2])
        [] e.op = "neg"    -> Fresh(s, o.mm, o.pre, o.geos, [k \in 1..Size(o) |-> -s.heap[o.cells[k]]])
        [] e.op = "add"    -> Fresh(s, o.mm, o.pre, o.geos, [k \in 1..Size(o) |-> s.heap[o.cells[k]] + s.heap[p.cells[k]]])
        [] e.op = "sum"    -> Fresh(s, o.mm, Tail(o.pre), o.geos, SumAxis(s, o))
        [] e.op = "iadd"   -> Write(s, o.cells, LAMBDA k : s.heap[o.cells[k]] + e.v)
        [] e.op = "fill"   -> Write(s, o.cells, LAMBDA k : e.v)
        [] e.op = "set1"   -> Write(s, <<o.cells[e.i]>>, LAMBDA k : e.v)                       \* one element of the flat view
        [] e.op = "setm"   -> LET c == Member(o, e.i) IN Write(s, c, LAMBDA k : e.v + k)       \* a member, through the list of maps
        [] e.op = "setme"  -> LET c == Entry([mm |-> FALSE, pre |-> o.pre, geos |-> <<o.geos[e.i]>>, cells |-> Member(o, e.i)], e.j) IN Write(s, c, LAMBDA k : e.v)
        [] e.op = "assign" -> Write(s, o.cells, LAMBDA k : s.heap[p.cells[k]])
        [] OTHER -> s
Creates(op) == op \in {"make", "zeros", "full", "fulls", "member", "entry", "ment", "copy", "relist", "file", "plus", "times", "neg", "add", "sum"}
NoArg == [op |-> "none", o |-> 1, p |-> 1, i |-> 1, j |-> 1, v |-> 0, pre |-> <<>>, geos |-> <<>>]
Kinds == {"make", "zeros", "full", "fulls", "member", "setm", "entry", "ment", "setme", "copy", "plus", "times", "neg", "iadd", "fill", "relist", "file", "sum", "set1", "add", "assign"}
\* what may be done in a state, by kind of operation
OpsOf(s, kind, GeoLists, Pres, Vs) ==
  LET ids == 1..Len(s.obj)
      mms == {k \in ids : s.obj[k].mm}
      E == [NoArg EXCEPT !.op = kind]
  IN  CASE kind \in {"make", "zeros", "full", "fulls"} -> {[[[E EXCEPT !.pre = pr] EXCEPT !.geos = g] EXCEPT !.v = v] : pr \in Pres, g \in GeoLists, v \in Vs}
        [] kind \in {"member", "setm"} -> UNION {{[[[E EXCEPT !.o = k] EXCEPT !.i = m] EXCEPT !.v = v] : m \in 1..Len(s.obj[k].geos), v \in Vs} : k \in mms}
        [] kind = "entry" -> UNION {{[[E EXCEPT !.o = k] EXCEPT !.i = j] : j \in 1..s.obj[k].pre[1]} : k \in {x \in ids : s.obj[x].pre # <<>>}}
        [] kind \in {"ment", "setme"} -> UNION {{[[[[E EXCEPT !.o = k] EXCEPT !.i = m] EXCEPT !.j = j] EXCEPT !.v = v] : m \in 1..Len(s.obj[k].geos), j \in 1..s.obj[k].pre[1], v \in Vs} : k \in {x \in mms : s.obj[x].pre # <<>>}}
        [] kind \in {"copy", "plus", "times", "neg", "iadd", "fill"} -> {[[E EXCEPT !.o = k] EXCEPT !.v = v] : k \in ids, v \in Vs}
        [] kind = "relist" -> {[E EXCEPT !.o = k] : k \in mms}
        [] kind = "file" -> {[E EXCEPT !.o = k] : k \in {x \in mms : \A m \in 1..Len(s.obj[x].geos) : NPix(s.obj[x].geos[m]) > 0}}
        [] kind = "sum" -> {[E EXCEPT !.o = k] : k \in {x \in ids : s.obj[x].pre # <<>>}}
        [] kind = "set1" -> UNION {{[[[E EXCEPT !.o = k] EXCEPT !.i = c] EXCEPT !.v = v] : c \in 1..Size(s.obj[k]), v \in Vs} : k \in mms}
        [] kind \in {"add", "assign"} -> UNION {{[[E EXCEPT !.o = k] EXCEPT !.p = q] : q \in {x \in ids : s.obj[x].mm = s.obj[k].mm /\ s.obj[x].pre = s.obj[k].pre /\ s.obj[x].geos = s.obj[k].geos}} : k \in ids}
Ops(s, GeoLists, Pres, Vs) == UNION {OpsOf(s, kind, GeoLists, Pres, Vs) : kind \in Kinds}
=============================================================================
