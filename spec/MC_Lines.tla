----------------------------- MODULE MC_Lines -----------------------------
(* The form keeps exactly the facts: over pairs of small models, the same    *)
(* lines if and only if the same facts.                                      *)
EXTENDS Lines, Small, Json
CONSTANT Across  \* pairs of all small models, not only each with the rich ones
VARIABLES m, done
Bag(x) == BagOf(ModelLines(x))
RECURSIVE SeqFrom(_)
SeqFrom(Q) == IF Q = {} THEN <<>> ELSE LET x == CHOOSE y \in Q : TRUE IN <<x>> \o SeqFrom(Q \ {x})
Others == SeqFrom(IF Across THEN SmallModels ELSE Rich)
OtherBags == [n \in 1..Len(Others) |-> Bag(Others[n])]
OtherFacts == [n \in 1..Len(Others) |-> Facts(Others[n])]
Init == m \in SmallModels /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED m /\ PrintT("CASE " \o ToJson([model |-> m]))
Canonical == done \/ LET b == Bag(m)
                         f == Facts(m)
                     IN \A n \in 1..Len(Others) : (b = OtherBags[n]) = (f = OtherFacts[n])
Many == done \/ Len(ModelLines(m)) >= Cardinality(DOMAIN m.shapes) + Cardinality(DOMAIN m.meta)
=============================================================================
