-------------------------------- MODULE Pool --------------------------------
(* Memory pools. Two levels:                                                 *)
(*  - what users rely on (Live): per pool, which of the arrays handed out are *)
(*    still theirs. Handing out adds one, resetting or freeing drops them all.*)
(*  - how a pool works (arenas, pos, size, capacity): bytes are parcelled out *)
(*    of the last arena, or a new arena is made; a reset consolidates to one  *)
(*    arena of the capacity needed so far.                                    *)
EXTENDS Common
\* ---- users' view: s maps each pool to the set of steps whose arrays are live
Begin(pools) == [p \in pools |-> {}]
After(s, o, k) ==
  CASE o.op = "alloc"    -> [s EXCEPT ![o.p] = (IF o.reset THEN {} ELSE @) \cup {k}]
    [] o.op = "array"    -> [s EXCEPT ![o.p] = {k}]
    [] o.op \in {"reset", "free"}    -> [s EXCEPT ![o.p] = {}]
    [] o.op \in {"resetall", "freeall"} -> [p \in DOMAIN s |-> {}]
    [] o.op = "scope"    -> [s EXCEPT ![o.p] = IF o.reset THEN {} ELSE @]
    [] o.op = "del"      -> [s EXCEPT ![o.p] = {}]
    [] OTHER -> s                                   \* want, size, repr
Disjoint(lo1, n1, lo2, n2) == n1 = 0 \/ n2 = 0 \/ lo1 + n1 <= lo2 \/ lo2 + n2 <= lo1
\* ---- a pool
RoundUp(n, al) == CDiv(n, al) * al
Empty == [arenas |-> <<>>, pos |-> 0, size |-> 0, cap |-> 0, live |-> <<>>, sys |-> 0]
\* arenas: their sizes. live: <<arena, offset, bytes>>. sys: bytes asked from the system so far
Alloc(m, n, al) ==
  LET e == RoundUp(n, al)
      room == Len(m.arenas) > 0 /\ m.arenas[Len(m.arenas)] >= m.pos + n
      ar == IF room THEN m.arenas ELSE Append(m.arenas, n)
      at == IF room THEN m.pos ELSE 0
  IN  [m EXCEPT !.arenas = ar, !.pos = at + e, !.size = @ + e, !.cap = Max2(m.cap, m.size + e),
                !.live = Append(@, <<Len(ar), at, n>>), !.sys = @ + (IF room THEN 0 ELSE n)]
Reset(m) ==
  LET keep == Len(m.arenas) = 1 /\ m.arenas[1] = m.cap
  IN  [m EXCEPT !.pos = 0, !.size = 0, !.live = <<>>, !.arenas = IF m.cap = 0 THEN <<>> ELSE <<m.cap>>,
                !.sys = @ + (IF keep THEN 0 ELSE m.cap)]
Free(m) == [Empty EXCEPT !.sys = m.sys]
=============================================================================
