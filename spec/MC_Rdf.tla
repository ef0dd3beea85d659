------------------------------- MODULE MC_Rdf -------------------------------
(* Small models of every kind, their graphs with any triple changed, and       *)
(* texts that nearly are resource names.                                      *)
EXTENDS Rdf, Small, Json
CONSTANTS Broad, Long
Extra == {One([Blank("service") EXCEPT !.ver = "1", !.ren = "ns.b#Y" :> "Z" @@ "ns.x#Y" :> "W"], NoFn, NoFn),
          One([Blank("resource") EXCEPT !.idents = "id" :> S @@ "b" :> X @@ "c" :> X], NoFn, NoFn),
          One(Blank("bigDecimal"), "smithy.api#enum" :> Arr(<<Str("b"), Str("a"), Str("b"), Null>>), NoFn),
          One(Blank("bigInteger"), "ns.t#a" :> Obj("k" :> Null @@ "l" :> Obj("k" :> Arr(<<Arr(<<>>), Obj(NoFn)>>)) @@ "m" :> Val("float", "1")), NoFn),
          One([Blank("structure") EXCEPT !.mem = "m" :> Mem(S, "ns.t#a" :> Arr(<<Str("2"), Str("1")>>) @@ "ns.t#b" :> Absent) @@ "n" :> Mem(S, "ns.t#a" :> Null)], "ns.t#a" :> Null, NoFn)}
Models == (IF Broad THEN SmallModels ELSE Rich \cup {One(b, NoFn, NoFn) : b \in Bodies}) \cup Extra
Letters == {"a", ":", "/", ".", "#", "?", "1", "_", "-"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET Q == Texts(n - 1) IN Q \cup {x \o c : x \in {y \in Q : Len(y) = n - 1}, c \in Letters}
Prefixes == {"urn:smithy:", "urn:smithy:a:", "urn:smithy:a.b:c/", "urn:smithy", "urn:Smithy:a:", "urn:smith:a:", "smithy:a:", "urn:", "http://smithy:a/", "urn:smithy:a:b$"}
Ids == {n \o "#" \o s \o x : n \in {"a", "a.b", "ab.C1._d"}, s \in {"x", "X1", "_x"}, x \in {"", "$m", "$_m1"}}
VARIABLES c, done
Cases == {<<"model", m>> : m \in Models} \cup {<<"iris", p>> : p \in Prefixes} \cup {<<"ids", "">>}
Init == c \in Cases /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("CASE " \o ToJson(
             CASE c[1] = "model" -> [model |-> c[2]]
               [] c[1] = "iris" -> [iris |-> SeqOf({c[2] \o t : t \in Texts(Long)})]
               [] OTHER -> [ids |-> SeqOf(Ids)]))
G == Encode(c[2], "_:root")
\* A model's graph states its facts,
Round == c[1] = "model" => States(G, "_:root", c[2])
\* and no longer does with any triple gone, another one added, or its object replaced.
Tampered(n) == {SubSeq(G, 1, n - 1) \o SubSeq(G, n + 1, Len(G)),
                Append(G, [G[n] EXCEPT !.o = Lit("other", "string")]),
                [G EXCEPT ![n].o = Lit("other", "string")], [G EXCEPT ![n].s = "_:other"], [G EXCEPT ![n].p = "smithy:other"]}
Exact == c[1] = "model" /\ Cardinality(ToSet(G)) = Len(G) =>
  \A n \in 1..Len(G) : \A h \in Tampered(n) : ~States(h, "_:root", c[2])
\* Names go back and forth.
Names == /\ c[1] = "ids" => \A i \in Ids : ShapeOf(IriOf(i)) = i
         /\ c[1] = "iris" => \A t \in Texts(Long) : LET u == c[2] \o t IN ShapeOf(u) # "" => IriOf(ShapeOf(u)) = u
=============================================================================
