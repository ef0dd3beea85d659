----------------------------- MODULE MC_Actions -----------------------------
(* Every reference position with every kind of target, alone and in pairs.  *)
EXTENDS Actions, Json
CONSTANTS Pairs
Mem(t) == [t |-> t, traits |-> NoFn]
S == "smithy.api#String"
RefPos == {"listm", "setm", "key", "value", "structm", "unionm", "svcop", "svcres", "ident",
              "input", "output", "errors", "create", "put", "read", "update", "delete", "list",
              "operations", "collectionOperations", "resources"}
Src(p, t) ==
  CASE p = "listm" -> [Blank("list") EXCEPT !.mem = "member" :> Mem(t)]
    [] p = "setm" -> [Blank("set") EXCEPT !.mem = "member" :> Mem(t)]
    [] p = "key" -> [Blank("map") EXCEPT !.mem = "key" :> Mem(t) @@ "value" :> Mem(S)]
    [] p = "value" -> [Blank("map") EXCEPT !.mem = "key" :> Mem(S) @@ "value" :> Mem(t)]
    [] p = "structm" -> [Blank("structure") EXCEPT !.mem = "m1" :> Mem(t) @@ "m2" :> Mem(S)]
    [] p = "unionm" -> [Blank("union") EXCEPT !.mem = "m1" :> Mem(t) @@ "m2" :> Mem(S)]
    [] p = "svcop" -> [Blank("service") EXCEPT !.ver = "1", !.refs["operations"] = <<t>>]
    [] p = "svcres" -> [Blank("service") EXCEPT !.ver = "1", !.refs["resources"] = <<t>>]
    [] p = "ident" -> [Blank("resource") EXCEPT !.idents = "id1" :> t]
    [] p \in {"input", "output", "errors"} -> [Blank("operation") EXCEPT !.refs[p] = <<t>>]
    [] OTHER -> [Blank("resource") EXCEPT !.refs[p] = <<t>>]
TargetKinds == SimpleKinds \cup {"list", "set", "map", "structure", "union", "service", "operation", "resource",
                                 "unresolved", "traited", "missing", "prelude", "preludemissing"}
TId(k) == IF k = "preludemissing" THEN "smithy.api#Nope" ELSE IF k = "prelude" THEN S ELSE "ns.t#T" \o k
TShape(k) ==
  CASE k = "traited" -> WithTraits(Blank("string"), "smithy.api#sensitive" :> Absent)
    [] k \in {"list", "set"} -> [Blank(k) EXCEPT !.mem = "member" :> Mem(S)]
    [] k = "map" -> [Blank(k) EXCEPT !.mem = "key" :> Mem(S) @@ "value" :> Mem(S)]
    [] k = "service" -> [Blank(k) EXCEPT !.ver = "1"]
    [] OTHER -> Blank(k)
Target(k) == IF k \in {"missing", "preludemissing", "prelude"} THEN NoFn ELSE TId(k) :> TShape(k)
One(p, k) == [EmptyModel EXCEPT !.shapes = ("ns.s#Src" :> Src(p, TId(k))) @@ Target(k)]
Two(p, k, q, l) == [EmptyModel EXCEPT !.shapes = ("ns.s#Src" :> Src(p, TId(k))) @@ ("ns.s#Src2" :> Src(q, TId(l)))
                                                 @@ Target(k) @@ Target(l)]
FewKinds == {"string", "structure", "service", "operation", "resource", "unresolved", "missing", "preludemissing"}
VARIABLE m
Init == \/ \E p \in RefPos, k \in TargetKinds : m = One(p, k)
        \/ Pairs /\ \E p, q \in RefPos, k, l \in FewKinds : m = Two(p, k, q, l)
Next == /\ m # EmptyModel
        /\ PrintT("CASE " \o ToJson([model |-> m, what |-> <<"references", "unresolved">>]))
        /\ m' = EmptyModel
Issues == ReferenceIssues(m) \o UnresolvedIssues(m)
\* A model is clean exactly when it has only the references that are right.
Right(p, k) ==
  IF p \in {"svcop", "operations", "collectionOperations", "create", "put", "read", "update", "delete", "list"}
  THEN k \in {"operation", "prelude", "preludemissing"}
  ELSE IF p \in {"svcres", "resources"} THEN k \in {"resource", "prelude", "preludemissing"}
  ELSE k \notin {"service", "operation", "resource", "missing", "unresolved"}
NotInfo(xs) == \E n \in 1..Len(xs) : xs[n].level # "info"
CleanIffRight == \A p \in RefPos, k \in TargetKinds : m = One(p, k) => (NotInfo(Issues) <=> ~Right(p, k))
=============================================================================
