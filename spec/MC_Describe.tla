----------------------------- MODULE MC_Describe -----------------------------
(* Models of every kind of shape, alone and in pairs across namespaces.       *)
EXTENDS Describe, Small, Json
CONSTANT Broad
Doc == {NoFn, Trait("documentation") :> Str("It is"), Trait("documentation") :> Str("two\nlines \"x\""),
        Trait("documentation") :> Arr(<<Str("no")>>), Trait("error") :> Str("client"), Trait("trait") :> Obj(NoFn),
        Trait("externalDocumentation") :> Obj("Home" :> Str("https://x.y") @@ "n" :> Val("int", "1")),
        Trait("externalDocumentation") :> Str("no"), Trait("pattern") :> Str("a\n}\nb"),
        "ns.t#deep" :> Arr(<<Obj("a" :> Arr(<<Str("v"), Null>>) @@ "b" :> Obj(NoFn)), Arr(<<>>)>>)}
Op == [Blank("operation") EXCEPT !.refs["input"] = <<"ns.x#In">>, !.refs["output"] = <<"ns.y#Out">>]
Fixed == {[Blank("resource") EXCEPT !.refs["put"] = <<"ns.x#Op">>, !.refs["read"] = <<"ns.x#B">>, !.refs["operations"] = <<"ns.x#Op">>, !.idents = "id" :> "ns.x#B"],
          [Blank("service") EXCEPT !.ver = "a<b & \"c\">", !.refs["operations"] = <<"ns.x#Op", "ns.z#None">>, !.refs["resources"] = <<"ns.y#B", "ns.y#B">>],
          [Blank("list") EXCEPT !.mem = "member" :> Mem("ns.x#B", Trait("documentation") :> Str("of these"))],
          [Blank("union") EXCEPT !.mem = "m_1" :> Mem("ns.y#B", Trait("required") :> Absent)]}
RichBodies == {m.shapes["ns.x#A"] : m \in Rich}
Pairs == {[EmptyModel EXCEPT !.shapes = "ns.x#A" :> a @@ "ns.y#B" :> b @@ "ns.x#Op" :> Op
                                        @@ "ns.x#In" :> [Blank("map") EXCEPT !.mem = "key" :> Mem(S, NoFn) @@ "value" :> Mem("ns.y#B", NoFn)]]
          : a \in Fixed \cup (IF Broad THEN RichBodies ELSE {}), b \in {Blank("string"), Blank("structure"), [Blank("set") EXCEPT !.mem = "member" :> Mem(S, NoFn)], Op, Blank("unresolved")}}
Hosts == {Blank("string"), [Blank("structure") EXCEPT !.mem = "m" :> Mem(S, NoFn)], [Blank("service") EXCEPT !.ver = "1"], Blank("resource"), Blank("operation")}
Cases == {One(b, ts, NoFn) : b \in Hosts, ts \in Doc}
         \cup {One([Blank("structure") EXCEPT !.mem = "m" :> Mem(S, ts) @@ "n" :> Mem(S, NoFn)], NoFn, NoFn) : ts \in Doc}
         \cup Pairs \cup (IF Broad THEN SmallModels ELSE Rich \cup {One(b, NoFn, NoFn) : b \in Bodies})
VARIABLES m, done
Init == m \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED m /\ PrintT("CASE " \o ToJson([model |-> m]))
\* The graph determines the members, references and traits of the model, and the model the graph.
Kept(sh) == [traits |-> DOMAIN sh.traits,
             to |-> [v \in DOMAIN sh.mem \cup {r \in Roles : sh.refs[r] # <<>>} |->
                       IF Has(sh.mem, v) THEN BagOf(<<sh.mem[v].t>>) ELSE BagOf(sh.refs[v])]]
Determined == Rebuilt(m, GNodes(m), GEdges(m)) = [id \in Defined(m) |-> Kept(m.shapes[id])]
\* Every reference of a drawn class that is not a class's own line is a relation.
OnePackage == \A id \in Classes(m) : Cardinality({ns \in Namespaces(m) : NsOf(id) = ns}) = 1
\* Nothing of a shape is shown twice or lost: one text for each member and each reference.
RoleSeq == <<"operations", "resources", "collectionOperations", "errors", "input", "output", "create", "put", "read", "update", "delete", "list", "unused">>
TextsCount == \A id \in Defined(m) : LET sh == m.shapes[id] IN
  Len(Items(id, sh)) >= Cardinality(DOMAIN sh.mem) + Cardinality(DOMAIN sh.ren) + Len(Flat([n \in 1..13 |-> sh.refs[RoleSeq[n]]]))
=============================================================================
