-------------------------------- MODULE Files -------------------------------
(* Map files as a state machine. Fits files 1..3 hold a sequence of images   *)
(* (contents are numbered; <<>> is no file); the hdf file holds a content at *)
(* the root "r" and at addresses "a", "ab" (inside a) and "b" (0: nothing).  *)
(* handles: lazily opened maps, with where they came from; overwriting that  *)
(* place ends them (c = 0).                                                  *)
EXTENDS Common
Fits == 1..3
Addr == {"r", "a", "ab", "b"}
Under(a) == IF a = "r" THEN Addr ELSE IF a = "a" THEN {"a", "ab"} ELSE {a}   \* replaced when a is written
Start == [f |-> [k \in Fits |-> <<>>], h |-> [a \in Addr |-> 0], handles |-> <<>>]
Drop(s, gone(_)) == [k \in 1..Len(s.handles) |-> IF gone(s.handles[k]) THEN [s.handles[k] EXCEPT !.c = 0] ELSE s.handles[k]]
Apply(s, o) ==
  CASE o.op = "wf" -> [s EXCEPT !.f[o.f] = o.cs, !.handles = Drop(s, LAMBDA x : x.kind = "f" /\ x.f = o.f)]
    [] o.op = "wh" -> [s EXCEPT !.h = [a \in Addr |-> IF a = o.a THEN o.c ELSE IF a \in Under(o.a) THEN 0 ELSE s.h[a]],
                                !.handles = Drop(s, LAMBDA x : x.kind = "h" /\ x.a \in Under(o.a))]
    [] o.op = "of" -> [s EXCEPT !.handles = Append(s.handles, [kind |-> "f", f |-> o.f, a |-> "", c |-> s.f[o.f][o.u]])]
    [] o.op = "oh" -> [s EXCEPT !.handles = Append(s.handles, [kind |-> "h", f |-> 0, a |-> o.a, c |-> s.h[o.a]])]
    [] OTHER -> s                  \* reading changes nothing
\* The content an operation reads or reports on
What(s, o) ==
  CASE o.op \in {"rf", "mf"} -> s.f[o.f][o.u]
    [] o.op \in {"rh", "mh"} -> s.h[o.a]
    [] o.op = "lr" -> s.handles[o.h].c
    [] OTHER -> 0
Ops(s, C) ==
     [op : {"wf"}, f : Fits, cs : {<<c>> : c \in C} \cup {<<c, d>> : c \in C, d \in C}]
  \cup [op : {"wh"}, a : Addr, c : C]
  \cup UNION {[op : {"rf", "mf"}, f : {f}, u : 1..Len(s.f[f])] : f \in Fits}
  \cup UNION {[op : {"of"}, f : {f}, u : 1..Len(s.f[f])] : f \in Fits}
  \cup [op : {"rh", "mh", "oh"}, a : {a \in Addr : s.h[a] # 0}]
  \cup [op : {"lr"}, h : {k \in 1..Len(s.handles) : s.handles[k].c # 0}]
=============================================================================
