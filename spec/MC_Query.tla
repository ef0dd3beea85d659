------------------------------ MODULE MC_Query ------------------------------
(***************************************************************************)
(* Every mutator of every kind of shape from every small state of that      *)
(* shape, each followed by every query.                                     *)
(***************************************************************************)
EXTENDS Queries, Json
CONSTANTS MaxRefs

A == "ns.a#A"
B == "smithy.api#String"
C == "ns.b#C"
Pool == [ids |-> <<A, B, C>>, keys |-> <<"k", "z">>, names |-> <<"first", "second", "key", "value", "member">>,
         traits |-> <<"smithy.api#tags", "smithy.api#required", "t.t#x">>]
Mem(t) == [t |-> t, traits |-> "smithy.api#required" :> Absent]
Start ==
  {Blank(k) : k \in SimpleKinds \cup {"unresolved", "structure", "union", "operation", "resource"}}
  \cup {[Blank("service") EXCEPT !.ver = "1"], [Blank("list") EXCEPT !.mem = "member" :> Mem(B)], [Blank("set") EXCEPT !.mem = "member" :> Mem(C)],
        [Blank("map") EXCEPT !.mem = "key" :> Mem(B) @@ "value" :> Mem(C)]}
Fields == {"mem", "ver", "ren", "idents", "operations", "resources", "collectionOperations", "errors", "input",
           "output", "create", "put", "read", "update", "delete", "list"}
OpX(f, how, n, t, ts, sk, kv, mts) == [op |-> "body", id |-> A, f |-> f, how |-> how, n |-> n, t |-> t, ts |-> ts, sk |-> sk,
                                   kv |-> kv, mts |-> mts]
Op(f, how, n, t, ts) == OpX(f, how, n, t, ts, "", NoFn, NoFn)
Of(f) == {OpX(f, "of", "", C, <<>>, k, NoFn, NoFn) : k \in {"operation", "resource", "service", "structure", "string", "unresolved"}}
BodyOps ==
  UNION {
    IF f = "ver" THEN {Op(f, "set1", "2", "", <<>>)}
    ELSE IF f \in {"mem", "idents"} THEN {Op(f, "put", n, t, <<>>) : n \in {"first", "second"}, t \in {B, C}}
                                      \cup {Op(f, "del", n, "", <<>>) : n \in {"first", "second"}}
                                      \cup IF f = "idents"
                                           THEN {OpX(f, "all", "", "", <<>>, "", kv, NoFn)
                                                 : kv \in {NoFn, "second" :> B, "first" :> C @@ "second" :> C}}
                                           ELSE {Op(f, "put", n, B, <<>>) : n \in {"member", "key", "value"}}
                                             \cup {OpX(f, "putm", n, B, <<>>, "", NoFn, "t.t#x" :> Absent)
                                                   : n \in {"second", "member", "key", "value"}}
    ELSE IF f = "ren" THEN {Op(f, "put", "Q", C, <<>>), Op(f, "del", "", C, <<>>)}
      \cup {OpX(f, "all", "", "", <<>>, "", kv, NoFn) : kv \in {NoFn, C :> "Q", A :> "R" @@ C :> "Q"}}
    ELSE IF f \in {"operations", "resources", "collectionOperations", "errors"}
         THEN {Op(f, h, "", t, <<>>) : h \in {"add", "remove"}, t \in {B, C}}
              \cup Of(f) \cup {Op(f, h, "", "", ts) : h \in {"set", "append"}, ts \in {<<>>, <<B>>, <<C, B>>}}
    ELSE Of(f) \cup {Op(f, "set1", "", B, <<>>), Op(f, "set1", "", C, <<>>), Op(f, "unset", "", "", <<>>)}
    : f \in Fields}
ModelOps ==
  {[op |-> "add_meta", key |-> "k", val |-> Arr(<<Val("int", "1")>>)], [op |-> "remove_meta", key |-> "k"],
   [op |-> "remove_shape", id |-> A], [op |-> "remove_shape", id |-> C],
   [op |-> "add_shape", id |-> C, sh |-> Blank("unresolved")], [op |-> "add_shape", id |-> C, sh |-> Blank("string")],
   [op |-> "add_shape", id |-> "ns.a#A$first", sh |-> Blank("unresolved")],
   [op |-> "apply", id |-> A, trait |-> "t.t#x", val |-> Absent, how |-> "bare"],
   [op |-> "apply", id |-> A, trait |-> "smithy.api#tags", val |-> Str("v"), how |-> "value"],
   [op |-> "remove_trait", id |-> A, trait |-> "t.t#x"],
   [op |-> "set_body", id |-> A, sh |-> Blank("unresolved")], [op |-> "set_body", id |-> A, sh |-> Blank("resource")],
   [op |-> "set_body", id |-> A, sh |-> [Blank("map") EXCEPT !.mem = "key" :> Mem(C) @@ "value" :> Mem(B)]]}
Model1(sh) == [EmptyModel EXCEPT !.shapes = A :> sh]

Refs(sh) == {r \in Roles : sh.refs[r] # <<>>}
Small(sh) == /\ Cardinality(Refs(sh)) <= MaxRefs
             /\ \A r \in Roles : Len(sh.refs[r]) <= 2
             /\ Cardinality(Refs(sh)) + Cardinality(DOMAIN sh.idents) + Cardinality(DOMAIN sh.ren) <= 2

VARIABLE sh
Init == sh \in Start
Case(e) == PrintT("CASE " \o ToJson([init |-> Model1(sh), ops |-> <<e, [op |-> "query", pool |-> Pool]>>]))
Next ==
  \/ \E e \in BodyOps : /\ BodyApplies(sh, e) \/ sh \in Start
                        /\ Case(e)
                        /\ BodyApplies(sh, e)
                        /\ sh' = BodyMut(sh, e)
                        /\ Small(sh')
  \/ \E e \in ModelOps : Case(e) /\ UNCHANGED sh
\* What the mutators say they do, as the queries see it.
Shape1 == ShapeQueries(A, sh, {"first", "second"}, {"t.t#x"}, {"t.t#B"})
Sane ==
  /\ Cardinality({k \in KindClasses : Shape1.is[k]}) = 1
  /\ \A e \in BodyOps : BodyApplies(sh, e) =>
       LET after == ShapeQueries(A, BodyMut(sh, e), {"first", "second"}, {"t.t#x"}, {"t.t#B"}) IN
       /\ e.how \in {"put", "putm"} /\ e.f \in {"mem", "idents"} /\ e.n \in {"first", "second"} =>
                                                    after.has_n[e.n] /\ after.get_n[e.n] = e.t /\ after.body_any
       /\ e.how = "del" /\ e.f \in {"mem", "idents"} => ~after.has_n[e.n]
       /\ e.how \in {"add", "set1"} /\ e.f # "ver" => after.roles[e.f]
       /\ e.how = "of" => (after.roles[e.f] = (Shape1.roles[e.f] \/ MayBe(e.f, e.sk)))
       /\ e.how = "all" => (IF e.f = "ren" THEN after.any_ren ELSE after.body_any) = (DOMAIN e.kv # {})
       /\ e.how = "unset" => ~after.roles[e.f]
       /\ e.how = "remove" => e.t \notin ToSet(BodyMut(sh, e).refs[e.f])
=============================================================================
