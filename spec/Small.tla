------------------------------- MODULE Small -------------------------------
(* Small models of every kind of shape, and rich ones, shared by the bounded *)
(* instances of the forms of a model.                                        *)
EXTENDS Model
Mem(t, ts) == [t |-> t, traits |-> ts]
S == "smithy.api#String"
X == "ns.a#X"
Y == "ns.b#Y"
Vals == {Absent, Null, Str("v"), Val("int", "7"), Val("float", "0.5"), Val("bool", "true"), Arr(<<Str("a"), Arr(<<>>)>>),
         Obj("k" :> Val("bool", "false")), Obj(NoFn), Arr(<<>>), Arr(<<Str("b"), Str("a")>>), Obj("k" :> Arr(<<Null>>) @@ "l" :> Str("v"))}
TraitSets == {NoFn} \cup {"smithy.api#tags" :> v : v \in Vals} \cup {"ns.t#a" :> Str("x") @@ "ns.t#b" :> Absent}
FewT == {NoFn, "ns.t#a" :> Absent, "ns.t#a" :> Str("z")}
Bodies ==
  {Blank(k) : k \in SimpleKinds \cup {"unresolved", "structure", "union", "operation", "resource"}}
  \cup {[Blank(k) EXCEPT !.mem = "member" :> Mem(S, ts)] : k \in {"list", "set"}, ts \in FewT}
  \cup {[Blank("map") EXCEPT !.mem = "key" :> Mem(S, ts) @@ "value" :> Mem(X, us)] : ts, us \in FewT}
  \cup {[Blank(k) EXCEPT !.mem = "m1" :> Mem(S, ts)] : k \in {"structure", "union"}, ts \in FewT}
  \cup {[Blank(k) EXCEPT !.mem = "m1" :> Mem(S, NoFn) @@ "m2" :> Mem(X, "ns.t#a" :> Str("z"))] : k \in {"structure", "union"}}
  \cup {[Blank("service") EXCEPT !.ver = v, !.ren = rn] : v \in {"1", "2\"x"}, rn \in {NoFn, "ns.b#Y" :> "Z"}}
  \cup {[Blank("service") EXCEPT !.ver = "1", !.refs[r] = q] : r \in {"operations", "resources"}, q \in {<<X>>, <<X, S>>, <<S, X>>, <<X, X>>}}
  \cup {[Blank("operation") EXCEPT !.refs[r] = <<X>>] : r \in {"input", "output", "errors"}}
  \cup {[Blank("operation") EXCEPT !.refs["errors"] = q] : q \in {<<X, S>>, <<S, X>>}}
  \cup {[Blank("resource") EXCEPT !.refs[r] = <<X>>] : r \in ArrayRoles("resource") \cup OptRoles("resource")}
  \cup {[Blank("resource") EXCEPT !.idents = "id" :> S]}
Metas == {NoFn} \cup {"k" :> v : v \in Vals \ {Absent}} \cup {"k" :> Str("x") @@ "l l" :> Arr(<<Null>>)}
One(b, ts, mt) == [ver |-> "1.0", meta |-> mt, shapes |-> "ns.x#A" :> WithTraits(b, ts)]
Rich == {One(b, "ns.t#a" :> Absent, "k" :> Arr(<<Null>>)) : b \in
           {[Blank("list") EXCEPT !.mem = "member" :> Mem(S, "ns.t#a" :> Absent)],
            [Blank("map") EXCEPT !.mem = "key" :> Mem(S, "ns.t#a" :> Absent) @@ "value" :> Mem(X, NoFn)],
            [Blank("union") EXCEPT !.mem = "m1" :> Mem(S, NoFn) @@ "m2" :> Mem(X, "ns.t#a" :> Str("z"))],
            [Blank("service") EXCEPT !.ver = "1", !.ren = "ns.b#Y" :> "Z", !.refs["operations"] = <<X, S>>],
            [Blank("operation") EXCEPT !.refs["input"] = <<X>>, !.refs["errors"] = <<X, S>>],
            [Blank("resource") EXCEPT !.refs["list"] = <<X>>, !.refs["collectionOperations"] = <<X>>, !.idents = "id" :> S],
            Blank("unresolved"), Blank("timestamp")}}
SmallModels ==
  {One(b, ts, NoFn) : b \in Bodies, ts \in FewT}
  \cup {One(Blank("string"), ts, NoFn) : ts \in TraitSets}
  \cup {One([Blank("structure") EXCEPT !.mem = "m1" :> Mem(S, ts)], NoFn, NoFn) : ts \in TraitSets}
  \cup {One(Blank("string"), NoFn, mt) : mt \in Metas}
  \cup {[EmptyModel EXCEPT !.shapes = ("ns.x#A" :> a) @@ ("ns.x#B" :> b)] : a, b \in {Blank(k) : k \in {"string", "structure", "unresolved"}}}
  \cup {[EmptyModel EXCEPT !.shapes = ("ns.x#A$m" :> WithTraits(Blank("unresolved"), ts))] : ts \in FewT}
  \cup {[EmptyModel EXCEPT !.meta = mt] : mt \in Metas}
  \cup Rich
=============================================================================
