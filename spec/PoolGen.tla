------------------------------- MODULE PoolGen ------------------------------
(* Histories of pool use, for replay *)
EXTENDS Pool, TLC, Json, Randomization
CONSTANTS Pools, MaxLen
VARIABLES s, hist, done
Shapes == {<<>>, <<0>>, <<1>>, <<3>>, <<5>>, <<2, 3>>, <<8>>, <<4, 0>>, <<2, 2, 2>>, <<13>>}
Dts == {"u1", "i2", "f4", "f8", "c16"}
Ops == [op : {"alloc"}, p : Pools, shape : Shapes, dt : Dts, how : {"empty", "full", "zeros", "ones"}, reset : {FALSE}]
       \cup RandomSubset(60, [op : {"alloc"}, p : Pools, shape : Shapes, dt : Dts, how : {"empty", "full", "zeros", "ones"}, reset : {TRUE}])
       \cup RandomSubset(50, [op : {"array"}, p : Pools, shape : Shapes, dt : Dts])
       \cup [op : {"scope"}, p : Pools, reset : BOOLEAN] \cup [op : {"reset", "free", "del"}, p : Pools] \cup [op : {"resetall", "freeall", "size"}]
Pick(h) == LET kinds == IF Len(h) % 3 = 2 THEN {"alloc", "array", "scope", "reset", "free", "del", "resetall", "freeall", "size"} ELSE {"alloc"}
               k == RandomElement(kinds)
               S == {o \in Ops : o.op = k /\ (o.op = "alloc" => (o.reset = (Len(h) % 5 = 4)))}
           IN  RandomSubset(Min2(2, Cardinality(S)), S)
Init == s = Begin(Pools) /\ hist = <<>> /\ done = FALSE
Step == /\ ~done /\ Len(hist) < MaxLen
        /\ \E o \in Pick(hist) : s' = After(s, o, Len(hist) + 1) /\ hist' = Append(hist, o)
        /\ UNCHANGED done
Emit == ~done /\ Len(hist) = MaxLen /\ PrintT("GEN " \o ToJson([hist |-> hist])) /\ done' = TRUE /\ UNCHANGED <<s, hist>>
Next == Step \/ Emit
=============================================================================
