------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* The Smithy semantic model: values, traits, shapes, metadata, and the     *)
(* transitions on it (adding metadata, adding shapes, applying traits,      *)
(* merging).  Every other module of the specification is built on this one. *)
(*                                                                          *)
(* A value is [k, s, xs, kv]: k is its kind (str, int, float, bool, null,   *)
(* arr, obj, and "absent" for a trait that carries no value at all), s the  *)
(* scalar's text, xs the elements of an array, kv the function from keys to *)
(* values of an object.  A shape is [kind, traits, mem, ver, refs, idents,  *)
(* ren]; all functions have string domains.  A model is [ver, meta, shapes].*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoFn == [x \in {} |-> x]
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Range(f) == {f[x] : x \in DOMAIN f}

(***************************** strings *************************************)
Ch(str, i) == SubSeq(str, i, i)
HasChar(str, c) == \E i \in 1..Len(str) : Ch(str, i) = c
PosOf(str, c) == CHOOSE i \in 1..Len(str) : Ch(str, i) = c /\ \A j \in 1..(i-1) : Ch(str, j) # c
IsMemberId(id) == HasChar(id, "$")
NsOf(id) == SubSeq(id, 1, PosOf(id, "#") - 1)
AfterHash(id) == SubSeq(id, PosOf(id, "#") + 1, Len(id))
NameOf(id) == LET r == AfterHash(id) IN IF HasChar(r, "$") THEN SubSeq(r, 1, PosOf(r, "$") - 1) ELSE r

(****************************** values *************************************)
Val(k, s) == [k |-> k, s |-> s, xs |-> <<>>, kv |-> NoFn]
Arr(xs) == [k |-> "arr", s |-> "", xs |-> xs, kv |-> NoFn]
Obj(kv) == [k |-> "obj", s |-> "", xs |-> <<>>, kv |-> kv]
Absent == Val("absent", "")
Null == Val("null", "")
Str(s) == Val("str", s)
IsArr(v) == v.k = "arr"

\* The conflict rule shared by metadata and traits: arrays concatenate, equal values stay,
\* anything else is a conflict.
ValConflict(a, b) == ~(IsArr(a) /\ IsArr(b)) /\ a # b
ValCombine(a, b) == IF IsArr(a) /\ IsArr(b) THEN Arr(a.xs \o b.xs) ELSE a

FnConflicts(f, g) == {x \in DOMAIN f \cap DOMAIN g : ValConflict(f[x], g[x])}
FnCombine(f, g) ==
  [x \in DOMAIN f \cup DOMAIN g |->
     IF Has(f, x) /\ Has(g, x) THEN ValCombine(f[x], g[x])
     ELSE IF Has(f, x) THEN f[x] ELSE g[x]]

\* h is a state in which some of g has been combined into f, and the rest has not (an operation
\* that stops at a conflict gives no guarantee on what it did before, but it invents nothing).
FnPartial(f, g, h) ==
  /\ DOMAIN f \subseteq DOMAIN h
  /\ DOMAIN h \subseteq DOMAIN f \cup DOMAIN g
  /\ \A x \in DOMAIN h :
        IF Has(f, x)
        THEN h[x] = f[x] \/ (Has(g, x) /\ ~ValConflict(f[x], g[x]) /\ h[x] = ValCombine(f[x], g[x]))
        ELSE h[x] = g[x]

(****************************** shapes *************************************)
Roles == {"operations", "resources", "collectionOperations", "errors", "input", "output",
          "create", "put", "read", "update", "delete", "list", "unused"}
NoRefs == [r \in Roles |-> <<>>]
SimpleKinds == {"blob", "boolean", "document", "string", "byte", "short", "integer", "long",
                "float", "double", "bigInteger", "bigDecimal", "timestamp"}
Blank(kind) == [kind |-> kind, traits |-> NoFn, mem |-> NoFn, ver |-> "", refs |-> NoRefs,
                idents |-> NoFn, ren |-> NoFn]
IsUnres(sh) == sh.kind = "unresolved"
WithTraits(sh, ts) == [sh EXCEPT !.traits = ts]

BodyEq(a, b) ==
  /\ a.kind = b.kind
  /\ a.ver = b.ver
  /\ a.refs = b.refs
  /\ a.idents = b.idents
  /\ a.ren = b.ren
  /\ DOMAIN a.mem = DOMAIN b.mem
  /\ \A n \in DOMAIN a.mem : a.mem[n].t = b.mem[n].t

\* What is wrong with combining definition b into the existing shape a of the same id.
TraitConflicts(f, g) == {<<"MergeTraitConflict", x>> : x \in FnConflicts(f, g)}
ShapeConflicts(id, a, b) ==
  IF ~IsUnres(a) /\ ~IsUnres(b) /\ ~BodyEq(a, b) THEN {<<"MergeShapeConflict", id>>}
  ELSE TraitConflicts(a.traits, b.traits)
       \cup (IF IsUnres(a) \/ IsUnres(b) THEN {}
             ELSE UNION {TraitConflicts(a.mem[n].traits, b.mem[n].traits) : n \in DOMAIN a.mem})

ShapeCombine(a, b) ==
  LET body == IF IsUnres(a) THEN b ELSE a IN
  [body EXCEPT
     !.traits = FnCombine(a.traits, b.traits),
     !.mem = IF IsUnres(a) \/ IsUnres(b) THEN body.mem
             ELSE [n \in DOMAIN a.mem |->
                     [t |-> a.mem[n].t, traits |-> FnCombine(a.mem[n].traits, b.mem[n].traits)]]]

ShapePartial(a, b, c) ==
  \/ c = a
  \/ /\ IsUnres(a) \/ IsUnres(b) \/ BodyEq(a, b)
     /\ FnPartial(a.traits, b.traits, c.traits)
     /\ \/ BodyEq(c, a) /\ \A n \in DOMAIN a.mem :
              IF Has(b.mem, n) /\ ~IsUnres(b) THEN FnPartial(a.mem[n].traits, b.mem[n].traits, c.mem[n].traits)
              ELSE c.mem[n] = a.mem[n]
        \/ IsUnres(a) /\ BodyEq(c, b) /\ c.mem = b.mem

(************************** transitions ************************************)
EmptyModel == [ver |-> "1.0", meta |-> NoFn, shapes |-> NoFn]

\* An outcome is <<"ok"/"err", error kind, what the error names>>.
OkRes == <<"ok", "", "">>
ErrRes(e) == <<"err", e[1], e[2]>>

AddMetaConflicts(m, k, v) ==
  IF Has(m.meta, k) /\ ValConflict(m.meta[k], v) THEN {<<"MergeMetadataConflict", k>>} ELSE {}
AddMeta(m, k, v) ==
  [m EXCEPT !.meta = Put(@, k, IF Has(m.meta, k) THEN ValCombine(m.meta[k], v) ELSE v)]

AddShapeConflicts(m, id, sh) ==
  IF IsMemberId(id) /\ ~IsUnres(sh) THEN {<<"ShapeIDExpected", id>>}
  ELSE IF Has(m.shapes, id) THEN ShapeConflicts(id, m.shapes[id], sh)
  ELSE {}
AddShape(m, id, sh) ==
  [m EXCEPT !.shapes = Put(@, id, IF Has(m.shapes, id) THEN ShapeCombine(m.shapes[id], sh) ELSE sh)]

MergeConflicts(m, o) ==
  IF m.ver # o.ver THEN {<<"MergeVersionConflict", "">>}
  ELSE UNION {AddMetaConflicts(m, k, o.meta[k]) : k \in DOMAIN o.meta}
       \cup UNION {AddShapeConflicts(m, id, o.shapes[id]) : id \in DOMAIN o.shapes}
Merge(m, o) ==
  [m EXCEPT
     !.meta = FnCombine(m.meta, o.meta),
     !.shapes = [id \in DOMAIN m.shapes \cup DOMAIN o.shapes |->
                   IF Has(m.shapes, id) /\ Has(o.shapes, id) THEN ShapeCombine(m.shapes[id], o.shapes[id])
                   ELSE IF Has(m.shapes, id) THEN m.shapes[id] ELSE o.shapes[id]]]
MergePartial(m, o, p) ==
  /\ p.ver = m.ver
  /\ FnPartial(m.meta, o.meta, p.meta)
  /\ DOMAIN m.shapes \subseteq DOMAIN p.shapes
  /\ DOMAIN p.shapes \subseteq DOMAIN m.shapes \cup DOMAIN o.shapes
  /\ \A id \in DOMAIN p.shapes :
       IF Has(m.shapes, id)
       THEN IF Has(o.shapes, id) THEN ShapePartial(m.shapes[id], o.shapes[id], p.shapes[id])
            ELSE p.shapes[id] = m.shapes[id]
       ELSE p.shapes[id] = o.shapes[id]

\* Applying traits to a shape in the model.
ApplyConflicts(m, id, ts) ==
  IF ~Has(m.shapes, id) THEN {<<"NoShape", "">>}
  ELSE {<<"ShapeIDExpected", t>> : t \in {x \in DOMAIN ts : IsMemberId(x)}}
       \cup TraitConflicts(m.shapes[id].traits, ts)
Apply(m, id, ts) == [m EXCEPT !.shapes[id].traits = FnCombine(@, ts)]
ApplyPartial(m, id, ts, p) ==
  IF ~Has(m.shapes, id) THEN p = m
  ELSE /\ Has(p.shapes, id)
       /\ p = [m EXCEPT !.shapes[id].traits = p.shapes[id].traits]
       /\ FnPartial(m.shapes[id].traits, ts, p.shapes[id].traits)

(********************* mutators of shape bodies ****************************)
ArrayRoles(kind) ==
  CASE kind = "service" -> {"operations", "resources"}
    [] kind = "operation" -> {"errors"}
    [] kind = "resource" -> {"operations", "collectionOperations", "resources"}
    [] OTHER -> {}
OptRoles(kind) ==
  CASE kind = "operation" -> {"input", "output"}
    [] kind = "resource" -> {"create", "put", "read", "update", "delete", "list"}
    [] OTHER -> {}

OneMember(kind) == CASE kind \in {"list", "set"} -> {"member"} [] kind = "map" -> {"key", "value"} [] OTHER -> {}
BodyApplies(sh, e) ==
  \/ e.f = "mem" /\ sh.kind \in {"structure", "union"} /\ e.how \in {"put", "putm", "del"}
  \/ e.f = "mem" /\ e.n \in OneMember(sh.kind) /\ e.how \in {"put", "putm"}
  \/ e.f = "ver" /\ sh.kind = "service"
  \/ e.f = "ren" /\ sh.kind = "service" /\ e.how \in {"put", "del", "all"}
  \/ e.f = "idents" /\ sh.kind = "resource" /\ e.how \in {"put", "del", "all"}
  \/ e.f \in ArrayRoles(sh.kind) /\ e.how \in {"set", "add", "append", "remove", "of"}
  \/ e.f \in OptRoles(sh.kind) /\ e.how \in {"set1", "unset", "of"}

\* "of": the mutators that are given the shape itself, and take only shapes that may stand in that role.
MayBe(role, kind) ==
  CASE role = "resources" -> kind = "resource"
    [] role \in {"input", "output", "errors"} -> kind \notin {"operation", "resource", "service", "unresolved"}
    [] OTHER -> kind = "operation"

NotThat(x, t) == x # t
BodyMut(sh, e) ==
  CASE e.f = "mem" -> IF e.how = "put" THEN [sh EXCEPT !.mem = Put(@, e.n, [t |-> e.t, traits |-> NoFn])]
                      ELSE IF e.how = "putm" THEN [sh EXCEPT !.mem = Put(@, e.n, [t |-> e.t, traits |-> e.mts])]
                      ELSE [sh EXCEPT !.mem = Del(@, e.n)]
    [] e.f = "ver" -> [sh EXCEPT !.ver = e.n]
    [] e.f = "ren" -> IF e.how = "put" THEN [sh EXCEPT !.ren = Put(@, e.t, e.n)]
                      ELSE IF e.how = "all" THEN [sh EXCEPT !.ren = e.kv]
                      ELSE [sh EXCEPT !.ren = Del(@, e.t)]
    [] e.f = "idents" -> IF e.how = "put" THEN [sh EXCEPT !.idents = Put(@, e.n, e.t)]
                         ELSE IF e.how = "all" THEN [sh EXCEPT !.idents = e.kv]
                         ELSE [sh EXCEPT !.idents = Del(@, e.n)]
    [] e.how = "of" ->
       IF ~MayBe(e.f, e.sk) THEN sh
       ELSE [sh EXCEPT !.refs[e.f] = IF e.f \in ArrayRoles(sh.kind) THEN Append(@, e.t) ELSE <<e.t>>]
    [] OTHER ->
       [sh EXCEPT !.refs[e.f] =
          CASE e.how = "set" -> e.ts
            [] e.how = "add" -> Append(@, e.t)
            [] e.how = "append" -> @ \o e.ts
            [] e.how = "remove" -> SelectSeq(@, LAMBDA x : NotThat(x, e.t))
            [] e.how = "set1" -> <<e.t>>
            [] e.how = "unset" -> <<>>]

(****************************** queries ************************************)
ToSet(xs) == {xs[i] : i \in 1..Len(xs)}
Defined(m) == {id \in DOMAIN m.shapes : ~IsUnres(m.shapes[id])}
Unresolved(m) == {id \in DOMAIN m.shapes : IsUnres(m.shapes[id])}
Namespaces(m) == {NsOf(id) : id \in Defined(m)}

(************* the same up to the order of concatenated arrays *************)
Count(xs, x) == Cardinality({n \in 1..Len(xs) : xs[n] = x})
ValSame(v, w) == v = w \/ (IsArr(v) /\ IsArr(w) /\ Len(v.xs) = Len(w.xs)
                           /\ \A x \in Range(v.xs) : Count(v.xs, x) = Count(w.xs, x))
FnSame(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : ValSame(f[x], g[x])
SameShapes(a, b) == DOMAIN a = DOMAIN b /\ \A id \in DOMAIN a :
  /\ BodyEq(a[id], b[id]) /\ FnSame(a[id].traits, b[id].traits)
  /\ \A n \in DOMAIN a[id].mem : FnSame(a[id].mem[n].traits, b[id].mem[n].traits)
SameModel(m, o) == m.ver = o.ver /\ FnSame(m.meta, o.meta) /\ SameShapes(m.shapes, o.shapes)
=============================================================================
