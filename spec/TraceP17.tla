------------------------------ MODULE TraceP17 ------------------------------
(* hist: a history of pool use. o.steps[k]: for every array handed out so far *)
(* (step j): lo, hi (ranks of its first and past-last address), its contents; *)
(* and for the array of this step its shape, type and address modulo align.   *)
(* cycle: the same requests repeated; o.sys: bytes asked of the system in each*)
EXTENDS Pool, TraceBase
Elems(sh) == Prod(sh)
Want(o, k) == [e \in 1..Elems(o.shape) |-> IF o.op = "array" THEN (k + e) % 90 ELSE IF o.how = "zeros" THEN 0 ELSE IF o.how = "ones" THEN 1 ELSE k + 10]
Made(o) == o.op \in {"alloc", "array"}
RECURSIVE Run(_, _, _)
Run(s, r, k) ==
  IF k > Len(r.a.hist) THEN {} ELSE
  LET o == r.a.hist[k]
      g == r.o.steps[k]
      t == After(s, o, k)
      L == UNION {t[p] : p \in DOMAIN t}                \* everything live now, in all pools
      At(j) == g.arrs[j]
  IN  Bad("overlap", \E x, y \in L : x < y /\ ~(At(x).hi <= At(y).lo \/ At(y).hi <= At(x).lo) /\ Len(At(x).vals) > 0 /\ Len(At(y).vals) > 0)
      \cup Bad("contents", \E x \in L : At(x).vals # Want(r.a.hist[x], x))
      \cup (IF Made(o) THEN Bad("shape", g.shape # o.shape) \cup Bad("dtype", g.dt # o.dt) \cup Bad("align", g.mod # 0 /\ Elems(o.shape) > 0)
                            \cup Bad("bytes", g.nbytes # Elems(o.shape) * r.a.item[o.dt]) \cup Bad("input", ~g.same)
            ELSE IF o.op = "size" THEN LET need == SumSeq([j \in 1..Len(g.arrs) |-> IF j \in L THEN g.arrs[j].nbytes ELSE 0]) IN Bad("size", g.size < need \/ g.tot < need) ELSE {})
      \cup Run(t, r, k + 1)
Failing(r) == IF r.x # "" THEN {"raised_" \o r.x}
              ELSE IF r.k = "hist" THEN Run(Begin({"a", "b"}), r, 1)
              ELSE Bad("steady", \E c \in 3..Len(r.o.sys) : r.o.sys[c] # 0) \cup Bad("overlap", ~r.o.ok)
TNext == i <= NTrace /\ Report(Trace[i], Failing(Trace[i])) /\ i' = i + 16
=============================================================================
