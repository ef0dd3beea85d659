---------------------------- MODULE DescribeTrace ----------------------------
(* Diagrams and documents written for real models, taken apart.               *)
EXTENDS Describe, TraceBase
XConforms(e) ==
  CASE e.op = "graph" ->
         /\ e.wellformed /\ e.declared
         /\ SameBag(e.nodes, Each(LAMBDA x : <<x>>, GNodes(e.model)))
         /\ SameBag(e.edges, GEdges(e.model))
         /\ Len(e.ids) = Len(e.nodes) + Len(e.edges) /\ Cardinality(ToSet(e.ids)) = Len(e.ids)
    [] e.op = "classes" ->
         /\ e.wellformed
         /\ SameBag([n \in 1..Len(e.classes) |-> e.classes[n].id], Each(LAMBDA x : <<x>>, Classes(e.model)))
         /\ \A n \in 1..Len(e.classes) : ClassIs(e.model, e.classes[n])
         /\ SameBag(e.relations, Relations(e.model, e.expand))
         /\ SameBag(e.packages, Each(LAMBDA x : <<x>>, Namespaces(e.model)))
         /\ ToSet(e.primitives) = IF e.expand THEN SimpleKinds ELSE {}
    [] e.op = "document" -> e.wellformed /\ DocumentIs(e.model, e.doc, e.strict) /\ e.written
    [] e.op = "many" -> e.nodes = e.expect[1] /\ e.edges = e.expect[2] /\ e.unique = e.expect[1] + e.expect[2]
    [] e.op = "sinks" -> SinksOk(e)
    [] OTHER -> FALSE
=============================================================================
