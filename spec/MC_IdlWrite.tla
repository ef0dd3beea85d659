----------------------------- MODULE MC_IdlWrite -----------------------------
(* Small models with one namespace: each has an IDL text, and its text denotes *)
(* it.  The texts of names that mean something else by their short form.       *)
EXTENDS IdlText, Json
CONSTANTS Models
Sm == INSTANCE Small

\* A name in the namespace, in the prelude, elsewhere; the same names defined, imported or neither.
Ids3 == {"ns.x#B", "ns.x#String", "smithy.api#String", "smithy.api#B", "ns.a#B", "ns.a#String"}
Struct(t) == [Blank("structure") EXCEPT !.mem = "m" :> [t |-> t, traits |-> NoFn]]
Refs(k, r, t) == [Blank(k) EXCEPT !.refs[r] = <<t>>]
Users(t) ==
  {Struct(t), [Blank("union") EXCEPT !.mem = "m" :> [t |-> "smithy.api#Blob", traits |-> t :> Null]], WithTraits(Blank("string"), t :> Str("v")),
   [Blank("list") EXCEPT !.mem = "member" :> [t |-> t, traits |-> t :> Absent]],
   [Blank("map") EXCEPT !.mem = "key" :> [t |-> t, traits |-> t :> Arr(<<Null>>)] @@ "value" :> [t |-> "smithy.api#Blob", traits |-> "ns.x#B" :> Null]],
   [Blank("map") EXCEPT !.mem = "key" :> [t |-> "smithy.api#Blob", traits |-> NoFn] @@ "value" :> [t |-> t, traits |-> NoFn]],
   [Refs("service", "operations", t) EXCEPT !.ver = "1"], [Refs("service", "resources", t) EXCEPT !.ver = "1", !.ren = t :> "Z"],
   [Blank("resource") EXCEPT !.idents = "i" :> t]}
  \cup {Refs("operation", r, t) : r \in {"input", "output", "errors"}}
  \cup {Refs("resource", r, t) : r \in ArrayRoles("resource") \cup OptRoles("resource")}
TraitUsers(t) == {WithTraits(Blank("string"), t :> Str("v"))}
Others == {NoFn, "ns.x#B" :> Blank("string"), "ns.x#String" :> Struct("ns.x#B"), "ns.a#B" :> Blank("unresolved"), "ns.a#String" :> Blank("unresolved"),
           "ns.x#B" :> Blank("unresolved"), "ns.a#B" :> Blank("string"), "ns.a#B" :> Blank("string") @@ "ns.x#B" :> Blank("unresolved"), "ns.x#B" :> WithTraits(Blank("unresolved"), "ns.x#t" :> Null),
           "ns.x#String" :> Blank("blob") @@ "ns.x#B" :> Blank("blob") @@ "ns.a#B" :> Blank("unresolved"),
           "ns.a#String" :> WithTraits(Blank("unresolved"), "ns.a#B" :> Str("x") @@ "ns.x#String" :> Null) @@ "ns.a#B" :> Blank("unresolved") @@ "ns.b#B" :> Blank("unresolved")}
ByName == {[EmptyModel EXCEPT !.shapes = ("ns.x#A" :> u) @@ o] : u \in UNION {Users(t) : t \in Ids3}, o \in Others}
\* Every short name stays unresolved or is found: what the model says is unresolved has no other place.
Small1 == {m \in Sm!SmallModels : \A i \in DOMAIN m.shapes : ~HasChar(i, "$")}
\* Texts that need care.
Strings == {"a\"b", "a\\b", "\\", "a\nb", "\t", "\r", "", "\\n", "'", "///", "a\\\"b", "x\\", "\"\"\"", " a ", "\f"}
Words == {One2 : One2 \in UNION {{[EmptyModel EXCEPT !.meta = "k" :> Str(t)], [EmptyModel EXCEPT !.meta = (t \o "k") :> Obj(t :> Null)],
            [EmptyModel EXCEPT !.shapes = "ns.x#A" :> WithTraits(Blank("string"), "ns.x#t" :> Arr(<<Str(t), Obj(t :> Str(t))>>))],
            [EmptyModel EXCEPT !.shapes = "ns.x#A" :> WithTraits(Blank("string"), "smithy.api#documentation" :> Str(t))],
            [EmptyModel EXCEPT !.shapes = "ns.x#A" :> [Blank("service") EXCEPT !.ver = t]]} : t \in Strings \ {""}}}
Few == ByName \cup Words
All == Few \cup Small1

VARIABLE m
Init == m = EmptyModel
Next == m = EmptyModel /\ m' \in Models /\ PrintT("CASE " \o ToJson([ns |-> "ns.x", model |-> m']))

U == [x \in {"0008"} |-> " "]
\* A model the grammar can state is the one its text denotes.  (The text is the specification's own.)
Mine == Part(m, "ns.x")
Full == CallsOf(Mine, "ns.x")
Denoted == LET d == Denote(Text(Full, 0, 1), U) IN d.ok /\ NormM(d.m) = NormM(Mine)
=============================================================================
