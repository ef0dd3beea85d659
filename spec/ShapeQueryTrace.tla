-------------------------- MODULE ShapeQueryTrace --------------------------
EXTENDS ShapeQuery, TraceBase
Is(p, kinds, q) == /\ p.kind = "shapes"
                   /\ ToSet(p.ids) = Answer(kinds, q)
                   /\ Len(p.ids) = Cardinality(ToSet(p.ids))
Kinds(e) == [id \in DOMAIN e.shapes |-> e.shapes[id]]
QueryConforms(e) ==
  e.op = "query" /\ \A n \in 1..Len(e.rs) : LET r == e.rs[n] IN Is(r.made, Kinds(e), r.q) /\ Is(r.read, Kinds(e), r.q)
=============================================================================
