------------------------------ MODULE MC_Json ------------------------------
(* Small models of every kind of shape; the documents that denote them; and  *)
(* every document one change away from one of them (All: from any of them).  *)
EXTENDS JsonAst, Json
CONSTANTS All

Mem(t, ts) == [t |-> t, traits |-> ts]
S == "smithy.api#String"
X == "ns.a#X"
Vals == {Absent, Null, Str("v"), Val("int", "7"), Val("float", "0.5"), Val("bool", "true"), Arr(<<Str("a"), Arr(<<>>)>>),
         Obj("k" :> Val("bool", "false")), Obj(NoFn), Arr(<<>>)}
TraitSets == {NoFn} \cup {"smithy.api#tags" :> v : v \in Vals} \cup {"ns.t#a" :> Str("x") @@ "ns.t#b" :> Absent}
Kinds == SimpleKinds \cup {"list", "set", "map", "structure", "union", "service", "operation", "resource", "unresolved"}
FewT == {NoFn, "ns.t#a" :> Absent}
Bodies ==
  {Blank(k) : k \in SimpleKinds \cup {"unresolved", "structure", "union", "operation", "resource"}}
  \cup {[Blank(k) EXCEPT !.mem = "member" :> Mem(S, ts)] : k \in {"list", "set"}, ts \in FewT}
  \cup {[Blank("map") EXCEPT !.mem = "key" :> Mem(S, ts) @@ "value" :> Mem(X, us)] : ts, us \in FewT}
  \cup {[Blank(k) EXCEPT !.mem = "m1" :> Mem(S, ts)] : k \in {"structure", "union"}, ts \in FewT}
  \cup {[Blank(k) EXCEPT !.mem = "m1" :> Mem(S, NoFn) @@ "m2" :> Mem(X, "ns.t#a" :> Str("z"))] : k \in {"structure", "union"}}
  \cup {[Blank("service") EXCEPT !.ver = "1", !.ren = rn] : rn \in {NoFn, "ns.b#Y" :> "Z"}}
  \cup {[Blank("service") EXCEPT !.ver = "1", !.refs[r] = q] : r \in {"operations", "resources"}, q \in {<<X>>, <<X, S>>}}
  \cup {[Blank("operation") EXCEPT !.refs[r] = <<X>>] : r \in {"input", "output", "errors"}}
  \cup {[Blank("operation") EXCEPT !.refs["errors"] = <<X, S>>]}
  \cup {[Blank("resource") EXCEPT !.refs[r] = <<X>>] : r \in ArrayRoles("resource") \cup OptRoles("resource")}
  \cup {[Blank("resource") EXCEPT !.idents = "id" :> S]}
Metas == {NoFn} \cup {"k" :> v : v \in Vals \ {Absent}} \cup {"k" :> Str("x") @@ "l l" :> Arr(<<Null>>)}
One(b, ts, mt) == [ver |-> "1.0", meta |-> mt, shapes |-> "ns.x#A" :> WithTraits(b, ts)]
Models ==
  {One(b, ts, NoFn) : b \in Bodies, ts \in FewT}
  \cup {One(Blank("string"), ts, NoFn) : ts \in TraitSets}
  \cup {One([Blank("structure") EXCEPT !.mem = "m1" :> Mem(S, ts)], NoFn, NoFn) : ts \in TraitSets}
  \cup {One(Blank("string"), NoFn, mt) : mt \in Metas}
  \cup {[EmptyModel EXCEPT !.shapes = ("ns.x#A" :> a) @@ ("ns.x#B" :> b)] : a, b \in {Blank(k) : k \in {"string", "structure", "unresolved"}}}
  \cup {[EmptyModel EXCEPT !.shapes = ("ns.x#A$m" :> WithTraits(Blank("unresolved"), ts))] : ts \in FewT}
  \cup {[EmptyModel EXCEPT !.meta = mt] : mt \in Metas}

\* One change: a node replaced, removed or renamed, or a stray field of the syntax added.
Atoms == {Null, Val("bool", "true"), Val("int", "3"), Val("big", "18446744073709551615"), Str("str"), Str(""), Str(S), Arr(<<>>), Obj(NoFn),
          Arr(<<Obj("target" :> Str(S))>>), Obj("target" :> Str(S))}
BadKeys == {"bad id", "", "x", "ns#A", "ns#A$m", "ns#1"}
Stray == {"members", "member", "traits", "operations", "input", "identifiers", "rename", "version", "errors", "metadata", "shapes"}
\* Fields of the syntax: none is read in the place of another.
Fields == {"target", "type", "members", "member", "key", "value", "version", "operations", "resources", "input", "output", "errors", "list",
           "create", "collectionOperations"}
Nearby(t) == {t \o " ", " " \o t, t \o "s", t \o "$a", t \o "#a"} \cup (IF t = "" THEN {} ELSE {SubSeq(t, 2, Len(t))})
RECURSIVE Mutants(_)
Mutants(v) ==
  Atoms
  \cup UNION {{[v EXCEPT !.xs[n] = w] : w \in Mutants(v.xs[n])} : n \in 1..Len(v.xs)}
  \cup UNION {{[v EXCEPT !.kv[k] = w] : w \in Mutants(v.kv[k])} : k \in DOMAIN v.kv}
  \cup {[v EXCEPT !.kv = Del(@, k)] : k \in DOMAIN v.kv}
  \cup {[v EXCEPT !.kv = Put(Del(@, k), b, v.kv[k])] : k \in DOMAIN v.kv, b \in BadKeys \cup Fields}
  \cup UNION {{[v EXCEPT !.kv = Put(Del(@, k), b, v.kv[k])] : b \in Nearby(k)} : k \in DOMAIN v.kv}
  \cup (IF v.k = "obj" THEN {[v EXCEPT !.kv = Put(@, k, a)] : k \in Stray \ DOMAIN v.kv, a \in {Null, Obj(NoFn), Arr(<<>>)}} ELSE {})
  \cup (IF v.k = "str" THEN {Str(x) : x \in Kinds \cup {"apply", "String", "1", "2.0", "ns#A.b", "member"} \cup Nearby(v.s)} ELSE {})

Rich == {One(b, "ns.t#a" :> Absent, "k" :> Arr(<<Null>>)) : b \in
           {[Blank("list") EXCEPT !.mem = "member" :> Mem(S, "ns.t#a" :> Absent)],
            [Blank("map") EXCEPT !.mem = "key" :> Mem(S, "ns.t#a" :> Absent) @@ "value" :> Mem(X, NoFn)],
            [Blank("union") EXCEPT !.mem = "m1" :> Mem(S, NoFn) @@ "m2" :> Mem(X, "ns.t#a" :> Str("z"))],
            [Blank("service") EXCEPT !.ver = "1", !.ren = "ns.b#Y" :> "Z", !.refs["operations"] = <<X, S>>],
            [Blank("operation") EXCEPT !.refs["input"] = <<X>>, !.refs["output"] = <<S>>, !.refs["errors"] = <<X, S>>],
            [Blank("service") EXCEPT !.ver = "1", !.refs["resources"] = <<X>>],
            [Blank("resource") EXCEPT !.refs["create"] = <<X>>, !.refs["put"] = <<S>>, !.refs["read"] = <<X>>],
            [Blank("resource") EXCEPT !.refs["update"] = <<X>>, !.refs["delete"] = <<S>>, !.refs["operations"] = <<X>>, !.refs["resources"] = <<X>>],
            [Blank("set") EXCEPT !.mem = "member" :> Mem(X, "ns.t#a" :> Arr(<<Null, Str("a")>>))],
            [Blank("structure") EXCEPT !.mem = "m1" :> Mem(S, "ns.t#a" :> Obj("k" :> Null))],
            [Blank("resource") EXCEPT !.refs["list"] = <<X>>, !.refs["collectionOperations"] = <<X>>, !.idents = "id" :> S],
            Blank("unresolved"), Blank("timestamp")}}

VARIABLES m, d, n
vars == <<m, d, n>>
Nothing == Null
Init == m \in Models \cup Rich /\ d = EModel(m) /\ n = 0
\* Mutation stays away from what the syntax leaves open: names that differ only in case.
Emit == /\ n = 0
        /\ PrintT("CASE " \o ToJson([model |-> m]))
        /\ PrintT("CASE " \o ToJson([doc |-> d]))
Mutate == /\ n = 0 /\ (All \/ m \in Rich)
          /\ \E w \in Mutants(d) : d' = w /\ PrintT("CASE " \o ToJson([doc |-> w]))
          /\ n' = 1 /\ UNCHANGED m
Next == (Emit /\ UNCHANGED <<d, n>> /\ m' = m) \/ Mutate
RoundTrip == n = 0 => DocOk(d) /\ DModel(d) = Norm(m)
\* What a conforming document denotes is a model whose own document denotes it again.
Stable == DocOk(d) => LET w == EModel(DModel(d)) IN DocOk(w) /\ DModel(w) = DModel(d)
=============================================================================
