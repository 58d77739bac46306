---------------------------- MODULE ContainerMC -----------------------------
(* All short histories: writes through one object are seen exactly by the    *)
(* objects that share its elements, and geometries are never shared.         *)
EXTENDS Container
CONSTANTS MaxOps, MaxObjs
N == <<2, 2>>
VARIABLES s, prev, last, cnt
vars == <<s, prev, last, cnt>>
Ops == [op: {"copy", "plus0"}, i: 1..MaxObjs]
       \cup [op: {"rows"}, i: 1..MaxObjs, lo: 0..0, hi: 1..1]
       \cup [op: {"cols"}, i: 1..MaxObjs, lo: 1..1, hi: 2..2]
       \cup [op: {"bin"}, f: {"add"}, i: 1..MaxObjs, j: 1..MaxObjs]
       \cup [op: {"ibinc"}, f: {"mul"}, i: 1..MaxObjs, c: {2}]
       \cup [op: {"assign"}, i: 1..MaxObjs, j: 1..MaxObjs]
       \cup [op: {"set"}, i: 1..MaxObjs, k: {1}, c: {9}]
       \cup [op: {"geo"}, i: 1..MaxObjs, d: {<<1, 2>>}]
Init == s = Start(N) /\ prev = s /\ last = [op |-> "none"] /\ cnt = 0
Next == /\ cnt < MaxOps
        /\ \E o \in Ops : /\ Fits(s, o)
                          /\ Len(s.objs) < MaxObjs \/ o.op \in {"ibinc", "assign", "set", "geo"}
                          /\ s' = Apply(s, o) /\ last' = o
        /\ prev' = s /\ cnt' = cnt + 1
Shares(t, a, b) == t.objs[a].b = t.objs[b].b /\ Range(t.objs[a].idx) \cap Range(t.objs[b].idx) # {}
\* a write to i changes only objects that share elements with it; nothing else changes any existing values
Isolation == \A a \in 1..Len(prev.objs) : Vals(s, a) # Vals(prev, a) =>
                 last.op \in {"ibinc", "assign", "set"} /\ Shares(prev, a, last.i)
GeoIsolation == \A a \in 1..Len(prev.objs) : s.objs[a].g # prev.objs[a].g => last.op = "geo" /\ last.i = a
FreshCopies == last.op \in Copies \cup {"bin"} => LET k == Len(s.objs) IN \A a \in 1..(k - 1) : ~Shares(s, a, k)
Inv == Isolation /\ GeoIsolation /\ FreshCopies
=============================================================================
