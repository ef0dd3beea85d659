----------------------------- MODULE MC_Visit -----------------------------
(* The walker run on small models, in every order, failing at every call.    *)
EXTENDS Visit, Small, Json
CONSTANT Broad
RichBodies == {m.shapes["ns.x#A"] : m \in Rich}
Two == {[EmptyModel EXCEPT !.shapes = ("ns.x#A" :> a) @@ ("ns.x#B" :> b), !.meta = mt] : a, b \in RichBodies, mt \in {NoFn, "k" :> Null, "k" :> Null @@ "l" :> Str("v")}}
Start == IF Broad THEN SmallModels \cup Two ELSE Rich \cup {One(b, NoFn, NoFn) : b \in Bodies} \cup {t \in Two : DOMAIN t.meta = {"k"}}
VARIABLES m, w, seen, st
Init == m \in Start /\ w = Walker(m) /\ seen = <<>> /\ st = "walking"
MetaCall(k) == [cb |-> "metadata", key |-> k, value |-> m.meta[k]]
ShapeCall(id) == [cb |-> CallFor(m.shapes[id].kind), id |-> id, shape |-> m.shapes[id]]
Calls == {MetaCall(k) : k \in w.meta} \cup {ShapeCall(id) : id \in w.shapes} \cup ToSet(w.due)
Step == /\ st = "walking"
        /\ \E e \in Calls : /\ CanCall(m, w, e)
                            /\ w' = AfterCall(m, w, e, TRUE)
                            /\ seen' = Append(seen, e)
        /\ st' \in {"walking", "failed"}
        /\ UNCHANGED m
        /\ (seen = <<>> /\ st' = "walking") => PrintT("CASE " \o ToJson([model |-> m, fails |-> <<0, 1, 2, 3, 4>>]))
Next == Step
Reached == {n \in 1..Len(seen) : seen[n].cb # "member" /\ seen[n].cb # "metadata"}
OncePerShape == Finished(w) =>
  /\ Cardinality(Reached) = Cardinality(DOMAIN m.shapes)
  /\ {seen[n].id : n \in Reached} = DOMAIN m.shapes
  /\ WalkConforms(m, TRUE, seen, 0, <<"ok", 0>>)
Halts == st = "failed" => WalkConforms(m, TRUE, seen, Len(seen), <<"err", Len(seen)>>)
NoMore == ~Finished(w) => Calls # {}
=============================================================================
