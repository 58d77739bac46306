----------------------------- MODULE MultimapGen ----------------------------
EXTENDS Multimap, Randomization, Json
CONSTANT MaxLen
VARIABLES s, hist, done
GL == {<<1, 4>>, <<5>>, <<2, 3, 1>>, <<2, 2>>, <<4, 6, 5>>}
PL == {<<>>, <<2>>, <<1, 2>>, <<2, 2>>, <<3>>}
Init == s = Empty0 /\ hist = <<>> /\ done = FALSE
\* a random operation: the kind first, so that the kinds are equally frequent
Full == Len(hist) = MaxLen \/ Len(s.heap) > 250
Step == /\ ~done /\ ~Full /\ UNCHANGED done
        /\ \E kind \in RandomSubset(1, IF Len(hist) < 2 THEN {"make", "make", "fulls", "zeros"} ELSE Kinds) : \E g \in RandomSubset(1, GL) : \E pr \in RandomSubset(1, PL) : \E v \in RandomSubset(1, 1..9) :
             LET C == OpsOf(s, kind, {g}, {pr}, {v})
                 D == TLCEval(IF C = {} THEN OpsOf(s, "make", {g}, {pr}, {v}) ELSE C)
             IN  \E e \in RandomSubset(1, D) : s' = TLCEval(Apply(s, e)) /\ hist' = Append(hist, e)
Emit == ~done /\ Full /\ PrintT("GEN " \o ToJson([hist |-> hist])) /\ done' = TRUE /\ UNCHANGED <<s, hist>>
Next == Step \/ Emit
=============================================================================
