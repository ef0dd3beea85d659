----------------------------- MODULE ShapeQuery -----------------------------
(***************************************************************************)
(* Evaluating a selector over a model: a machine whose state is the         *)
(* projection, the shapes selected so far; it starts with every defined      *)
(* shape and each shape-type expression keeps those of its type.            *)
(***************************************************************************)
EXTENDS Model
Numbers == {"byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal"}
Groups == {"*", "number", "simpleType", "collection", "member"}
ShapeTypes == Groups \cup SimpleKinds \cup {"list", "set", "map", "structure", "union", "service", "operation", "resource"}
\* The kinds of shape a type stands for; a member is no shape of its own.
KindsOf(t) ==
  CASE t = "*" -> SimpleKinds \cup {"list", "set", "map", "structure", "union", "service", "operation", "resource"}
    [] t = "number" -> Numbers
    [] t = "simpleType" -> SimpleKinds
    [] t = "collection" -> {"list", "set"}
    [] t = "member" -> {}
    [] OTHER -> {t}
\* Kinds is the function from the shapes of a model to their kinds.
Narrow(kinds, sel, t) == {id \in sel : kinds[id] \in KindsOf(t)}
RECURSIVE Eval(_, _, _)
Eval(kinds, sel, q) == IF q = <<>> THEN sel ELSE Eval(kinds, Narrow(kinds, sel, q[1]), Tail(q))
All(kinds) == {id \in DOMAIN kinds : kinds[id] # "unresolved"}
Answer(kinds, q) == Eval(kinds, All(kinds), q)
=============================================================================
