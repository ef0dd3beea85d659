------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Node values: what they are made from, what they say they are, when two    *)
(* are the same, how they are shown; and the builders of arrays and objects, *)
(* whose state is the value built so far.                                   *)
(***************************************************************************)
EXTENDS Model
VKinds == {"arr", "obj", "num", "bool", "str", "null"}
VKind(v) == IF v.k \in {"int", "float"} THEN "num" ELSE v.k
\* The value that a datum of a type of the language becomes.
Ints == {"i8", "i16", "i32", "i64"}
Floats == {"f32", "f64"}
Texts0 == {"str", "string", "id", "idref"}
From(type, text) ==
  CASE type \in Ints -> Val("int", text) [] type \in Floats -> Val("float", text)
    [] type = "bool" -> Val("bool", text) [] type \in Texts0 -> Str(text)
Zeros == {"0.0", "-0.0"}
RECURSIVE VEq(_, _)
VEq(a, b) ==
  /\ a.k = b.k
  /\ \/ a.s = b.s
     \/ a.k = "float" /\ a.s \in Zeros /\ b.s \in Zeros
  /\ Len(a.xs) = Len(b.xs) /\ \A n \in 1..Len(a.xs) : VEq(a.xs[n], b.xs[n])
  /\ DOMAIN a.kv = DOMAIN b.kv /\ \A x \in DOMAIN a.kv : VEq(a.kv[x], b.kv[x])
\* The texts that may show it: the entries of an object come in any order.
RECURSIVE Joined(_)
Joined(xs) == IF xs = <<>> THEN "" ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o ", " \o Joined(Tail(xs))
Orders(D) == {p \in [1..Cardinality(D) -> D] : \A m, n \in 1..Cardinality(D) : m # n => p[m] # p[n]}
RECURSIVE ShownOf(_), Combos(_)
Combos(xs) == IF xs = <<>> THEN {<<>>} ELSE {<<a>> \o r : a \in ShownOf(Head(xs)), r \in Combos(Tail(xs))}
ShownOf(v) ==
  CASE v.k \in {"int", "float", "bool"} -> {v.s}
    [] v.k = "str" -> {"\"" \o v.s \o "\""}
    [] v.k = "null" -> {"None"}
    [] v.k = "arr" -> {"[ " \o Joined(q) \o " ]" : q \in Combos(v.xs)}
    [] v.k = "obj" -> UNION {{"{ " \o Joined([n \in 1..Len(q) |-> p[n] \o ": " \o q[n]]) \o " }"
                             : q \in Combos([n \in 1..Len(p) |-> v.kv[p[n]]])} : p \in Orders(DOMAIN v.kv)}
\* One call of a builder of arrays or objects.
Blankest(kind) == IF kind = "arr" THEN Arr(<<>>) ELSE Obj(NoFn)
BuildStep(v, c) == IF IsArr(v) THEN [v EXCEPT !.xs = Append(@, c.v)] ELSE [v EXCEPT !.kv = Put(@, c.k, c.v)]
RECURSIVE Built(_, _)
Built(v, calls) == IF calls = <<>> THEN v ELSE Built(BuildStep(v, Head(calls)), Tail(calls))
=============================================================================
