---------------------------- MODULE MC_LineKeys ----------------------------
(* Keys are any text.  No two models of one line print the same line: every  *)
(* key and every text over the characters that mean something in a line.     *)
EXTENDS Lines, Json
CONSTANTS K, T  \* lengths of keys and texts
VARIABLES m, done
Chars == {"a", "<", "=", "}", "\"", "\\"}
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN {""} ELSE Upto(n - 1) \cup {s \o c : s \in {x \in Upto(n - 1) : Len(x) = n - 1}, c \in Chars}
Values(k, t) == {Str(s) : s \in Upto(t)} \cup {Obj(x :> Str(s)) : x \in Upto(k), s \in Upto(1)} \cup {Obj(NoFn), Obj("" :> Obj(NoFn)), Obj("" :> Obj("" :> Arr(<<>>))), Arr(<<>>), Arr(<<Obj(NoFn)>>)}
Applied(v) == [EmptyModel EXCEPT !.shapes = "ns.x#A" :> [Blank("string") EXCEPT !.traits = "ns.x#t" :> v]]
Models(k, t) == {[EmptyModel EXCEPT !.meta = x :> v] : x \in Upto(k), v \in Values(1, t)} \cup {Applied(v) : v \in Values(k, t)}
Init == m \in Models(1, 1) \cup {[EmptyModel EXCEPT !.meta = x :> Str("")] : x \in Upto(K)} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED m /\ PrintT("CASE " \o ToJson([model |-> m]))
\* The lines tell the models apart.
ASSUME Cardinality({ModelLines(x) : x \in Models(K, T)}) = Cardinality(Models(K, T))
OneLine == Len(ModelLines(m)) = 1 + Cardinality(DOMAIN m.shapes)
=============================================================================
