------------------------------- MODULE FilesMC ------------------------------
EXTENDS Files, TLC
CONSTANTS C, MaxLen, MaxHandles
VARIABLES s, last, n
vars == <<s, last, n>>
Init == s = Start /\ last = [op |-> "none", old |-> Start] /\ n = 0
Next == /\ n < MaxLen
        /\ \E o \in Ops(s, C) :
             /\ (o.op \in {"of", "oh"} => Len(s.handles) < MaxHandles)
             /\ s' = Apply(s, o) /\ last' = [op |-> o.op, o |-> o, old |-> s] /\ n' = n + 1
\* A live handle always shows what is now at the place it came from
HandlesFresh == \A k \in 1..Len(s.handles) : LET x == s.handles[k] IN
   x.c # 0 => IF x.kind = "h" THEN s.h[x.a] = x.c ELSE \E u \in 1..Len(s.f[x.f]) : s.f[x.f][u] = x.c
\* Writing somewhere leaves what is elsewhere alone, and what was written is there
WriteLocal == last.op = "none" \/
   CASE last.op = "wf" -> s.f[last.o.f] = last.o.cs /\ s.h = last.old.h /\ \A f \in Fits \ {last.o.f} : s.f[f] = last.old.f[f]
     [] last.op = "wh" -> s.h[last.o.a] = last.o.c /\ s.f = last.old.f /\ \A a \in Addr \ Under(last.o.a) : s.h[a] = last.old.h[a]
     [] OTHER -> s.f = last.old.f /\ s.h = last.old.h
=============================================================================
