------------------------------ MODULE MC_Merge ------------------------------
(***************************************************************************)
(* Merging, exhaustively on a small instance: one shape identifier with     *)
(* every kind of body and every kind of disagreement between two            *)
(* definitions, one trait, one metadata key.  Checks the laws of merging on *)
(* every reachable model and prints one test case per transition.           *)
(***************************************************************************)
EXTENDS Model, Json
CONSTANTS Rich,     \* TRUE: all trait values on all bodies
          MaxSize, AssocSize  \* how much a model may hold

A == "ns.a#A"
X == "t.t#x"
S == "smithy.api#String"
Tt == "smithy.api#Integer"
Mem(t, ts) == [t |-> t, traits |-> ts]
One == Val("int", "1")
Two == Val("int", "2")
St(mem) == [Blank("structure") EXCEPT !.mem = mem]
XT(v) == X :> v

Bodies ==
  {Blank("unresolved"), Blank("string"), Blank("blob"),
   St(NoFn), St("m" :> Mem(S, NoFn)), St("n" :> Mem(S, NoFn)), St("m" :> Mem(Tt, NoFn)),
   St("m" :> Mem(S, XT(One))), St("m" :> Mem(S, XT(Two))), St("m" :> Mem(S, XT(Arr(<<One>>)))),
   St("m" :> Mem(S, NoFn) @@ "n" :> Mem(S, NoFn)),
   [Blank("union") EXCEPT !.mem = "m" :> Mem(S, NoFn)],
   [Blank("union") EXCEPT !.mem = "m" :> Mem(S, XT(One))],
   [Blank("list") EXCEPT !.mem = "member" :> Mem(S, NoFn)],
   [Blank("list") EXCEPT !.mem = "member" :> Mem(Tt, NoFn)],
   [Blank("list") EXCEPT !.mem = "member" :> Mem(S, XT(One))],
   [Blank("set") EXCEPT !.mem = "member" :> Mem(S, NoFn)],
   [Blank("set") EXCEPT !.mem = "member" :> Mem(S, XT(Two))],
   [Blank("map") EXCEPT !.mem = "key" :> Mem(S, NoFn) @@ "value" :> Mem(S, NoFn)],
   [Blank("map") EXCEPT !.mem = "key" :> Mem(S, NoFn) @@ "value" :> Mem(Tt, NoFn)],
   [Blank("map") EXCEPT !.mem = "key" :> Mem(S, XT(One)) @@ "value" :> Mem(S, XT(Two))],
   [Blank("service") EXCEPT !.ver = "1"], [Blank("service") EXCEPT !.ver = "2"],
   [Blank("service") EXCEPT !.ver = "1", !.refs["operations"] = <<S>>],
   [Blank("service") EXCEPT !.ver = "1", !.refs["resources"] = <<S>>],
   [Blank("service") EXCEPT !.ver = "1", !.ren = S :> "Q"],
   Blank("operation"),
   [Blank("operation") EXCEPT !.refs["input"] = <<S>>], [Blank("operation") EXCEPT !.refs["output"] = <<S>>],
   [Blank("operation") EXCEPT !.refs["errors"] = <<S>>],
   Blank("resource"), [Blank("resource") EXCEPT !.idents = "m" :> S],
   [Blank("resource") EXCEPT !.idents = "m" :> Tt]}
  \cup {[Blank("resource") EXCEPT !.refs[r] = <<S>>] :
          r \in {"create", "put", "read", "update", "delete", "list", "operations", "collectionOperations",
                 "resources"}}

TVals == {One, Two, Arr(<<One>>), Arr(<<Two>>), Absent, Obj("k" :> One)}
TraitSets == {NoFn} \cup {XT(v) : v \in TVals}
Few == {Blank("unresolved"), Blank("string"), St("m" :> Mem(S, XT(Arr(<<One>>))))}

Shapes == {WithTraits(b, ts) : b \in (IF Rich THEN Bodies ELSE Few), ts \in TraitSets}
          \cup {WithTraits(b, ts) : b \in Bodies, ts \in {NoFn, XT(One)}}
Pieces == {[EmptyModel EXCEPT !.shapes = A :> sh] : sh \in Shapes}
          \cup {[EmptyModel EXCEPT !.meta = "k" :> v] : v \in TVals \ {Absent}}
          \cup {[EmptyModel EXCEPT !.meta = "k" :> One, !.shapes = A :> Blank("string")],
                [EmptyModel EXCEPT !.meta = "j" :> Two, !.shapes = "ns.a#B" :> Blank("string")],
                EmptyModel}

\* Equal up to the order of elements of concatenated arrays.
ShapeSame(a, b) == BodyEq(a, b) /\ FnSame(a.traits, b.traits)
                   /\ \A n \in DOMAIN a.mem : FnSame(a.mem[n].traits, b.mem[n].traits)
Same(a, b) == /\ FnSame(a.meta, b.meta)
              /\ DOMAIN a.shapes = DOMAIN b.shapes
              /\ \A id \in DOMAIN a.shapes : ShapeSame(a.shapes[id], b.shapes[id])
OkMerge(a, b) == MergeConflicts(a, b) = {}

RECURSIVE SumOver(_, _)
SumOver(f, S2) == IF S2 = {} THEN 0 ELSE LET x == CHOOSE x \in S2 : TRUE IN f[x] + SumOver(f, S2 \ {x})
FnSize(f) == SumOver([x \in DOMAIN f |-> 1 + Len(f[x].xs)], DOMAIN f)
Size(x) == FnSize(x.meta) + SumOver([id \in DOMAIN x.shapes |-> 1 + FnSize(x.shapes[id].traits)
             + SumOver([n \in DOMAIN x.shapes[id].mem |-> FnSize(x.shapes[id].mem[n].traits)],
                       DOMAIN x.shapes[id].mem)], DOMAIN x.shapes)

VARIABLE m
Init == m = EmptyModel
Case(a, o) == PrintT("CASE " \o ToJson([init |-> a, ops |-> <<[op |-> "merge", other |-> o]>>]))
Do(o) ==
  /\ Case(m, o)
  /\ OkMerge(m, o)
  /\ m' = Merge(m, o)
  /\ Size(m') <= MaxSize
Next == \E o \in Pieces : Do(o)

\* A merge reports a conflict from either side alike, and otherwise gives the same model.
Commutes == \A o \in Pieces : /\ OkMerge(m, o) = OkMerge(o, m)
                              /\ OkMerge(m, o) => Same(Merge(m, o), Merge(o, m))
\* Three models merge to the same model however they are grouped.
Sample == {o \in Pieces : \A id \in DOMAIN o.shapes : o.shapes[id].kind \in {"unresolved", "string", "structure"}}
Associates == Size(m) <= AssocSize => \A o \in Pieces, p \in Sample :
  LET l == OkMerge(m, o) /\ OkMerge(Merge(m, o), p)
      r == OkMerge(o, p) /\ OkMerge(m, Merge(o, p))
  IN l = r /\ (l => Merge(Merge(m, o), p) = Merge(m, Merge(o, p)))
\* Nothing is lost and nothing invented.
FnUnion(f, g, h) ==
  /\ DOMAIN h = DOMAIN f \cup DOMAIN g
  /\ \A x \in DOMAIN h : h[x] \in {f[y] : y \in {x} \cap DOMAIN f} \cup {g[y] : y \in {x} \cap DOMAIN g}
                         \/ h[x].xs = f[x].xs \o g[x].xs
Union == \A o \in Pieces : OkMerge(m, o) =>
  LET u == Merge(m, o) IN
  /\ FnUnion(m.meta, o.meta, u.meta)
  /\ DOMAIN u.shapes = DOMAIN m.shapes \cup DOMAIN o.shapes
  /\ \A id \in DOMAIN m.shapes \cap DOMAIN o.shapes :
       /\ FnUnion(m.shapes[id].traits, o.shapes[id].traits, u.shapes[id].traits)
       /\ IsUnres(u.shapes[id]) => IsUnres(m.shapes[id]) /\ IsUnres(o.shapes[id])
       /\ ~IsUnres(m.shapes[id]) => BodyEq(u.shapes[id], m.shapes[id])
       /\ ~IsUnres(o.shapes[id]) => BodyEq(u.shapes[id], o.shapes[id])
\* Merging a model with itself changes nothing but arrays; the empty model is neutral.
HasArrays(x) == \E id \in DOMAIN x.shapes :
                  \/ \E t \in DOMAIN x.shapes[id].traits : IsArr(x.shapes[id].traits[t])
                  \/ \E n \in DOMAIN x.shapes[id].mem :
                       \E t \in DOMAIN x.shapes[id].mem[n].traits : IsArr(x.shapes[id].mem[n].traits[t])
Idempotent ==
  /\ Merge(m, EmptyModel) = m /\ Merge(EmptyModel, m) = m
  /\ OkMerge(m, m)
  /\ (~HasArrays(m) /\ \A k \in DOMAIN m.meta : ~IsArr(m.meta[k])) => Merge(m, m) = m
=============================================================================
