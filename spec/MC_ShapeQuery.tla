--------------------------- MODULE MC_ShapeQuery ---------------------------
(* The evaluation machine over small models, for every sequence of types.     *)
EXTENDS ShapeQuery, Json
CONSTANTS MaxShapes, MaxLen
Ids == {"n.a#A", "n.a#B", "n.b#A"}
AllKinds == KindsOf("*") \cup {"unresolved"}
SomeKinds == {"string", "byte", "bigDecimal", "list", "set", "map", "service", "unresolved"}
\* Every kind by itself, and mixtures of some.
Models == {"n.a#A" :> k : k \in AllKinds} \cup {[i \in D |-> f[i]] : D \in {S \in SUBSET Ids : Cardinality(S) <= MaxShapes}, f \in [Ids -> SomeKinds]}
RECURSIVE SeqOf(_)
SeqOf(A) == IF A = {} THEN <<>> ELSE LET x == CHOOSE y \in A : TRUE IN <<x>> \o SeqOf(A \ {x})
Queries == SeqOf({<<>>} \cup {<<t>> : t \in ShapeTypes})
Pairs == SeqOf({<<t, u>> : t \in Groups \cup {"list", "byte"}, u \in ShapeTypes})
AsModel(f) == [EmptyModel EXCEPT !.shapes = [i \in DOMAIN f |-> IF f[i] = "service" THEN [Blank("service") EXCEPT !.ver = "1"]
                                                                ELSE IF f[i] \in {"list", "set"} THEN [Blank(f[i]) EXCEPT !.mem = "member" :> [t |-> "n.a#A", traits |-> NoFn]]
                                                                ELSE IF f[i] = "map" THEN [Blank("map") EXCEPT !.mem = [x \in {"key", "value"} |-> [t |-> "n.a#A", traits |-> NoFn]]]
                                                                ELSE Blank(f[i])]]
VARIABLES m, q, sel
Init == m \in Models /\ q = <<>> /\ sel = All(m)
Emit == (q = <<>>) => PrintT("CASE " \o ToJson([model |-> AsModel(m), queries |-> IF Cardinality(DOMAIN m) = 2 THEN Pairs ELSE Queries]))
Next == /\ Len(q) < MaxLen
        /\ \E t \in ShapeTypes : q' = Append(q, t) /\ sel' = Narrow(m, sel, t)
        /\ UNCHANGED m
        /\ (q' = <<"*">> => Emit)
Agrees == sel = Answer(m, q)
\* The result is the meet of the types asked for, in any order.
Meet == sel = {i \in All(m) : \A n \in 1..Len(q) : m[i] \in KindsOf(q[n])}
GroupLaws == /\ KindsOf("number") \subseteq KindsOf("simpleType")
             /\ KindsOf("*") = UNION {KindsOf(t) : t \in ShapeTypes \ {"*"}}
=============================================================================
