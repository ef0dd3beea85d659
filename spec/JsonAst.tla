------------------------------ MODULE JsonAst ------------------------------
(***************************************************************************)
(* The JSON abstract syntax of a model: which documents are one, which      *)
(* model such a document denotes, and a document that denotes a given model.*)
(* A document is a value as in Model.tla; "big" is the kind of an integer   *)
(* that has no representation as a signed 64 bit number.                    *)
(***************************************************************************)
EXTENDS Model
I == INSTANCE Ident

IsObj(v) == v.k = "obj"
IsStr(v) == v.k = "str"
Field(d, k) == d.kv[k]
HasF(d, k) == Has(d.kv, k)

IsSid(s) == I!ParseSid(s).ok
IsShapeSid(s) == IsSid(s) /\ ~IsMemberId(s)

RECURSIVE ValueOk(_)
ValueOk(v) ==
  /\ v.k # "big"
  /\ \A n \in 1..Len(v.xs) : ValueOk(v.xs[n])
  /\ \A k \in DOMAIN v.kv : ValueOk(v.kv[k])

(*************************** conforming documents **************************)
Optional(d, k, P(_)) == HasF(d, k) => P(Field(d, k))
TraitsOk(v) == IsObj(v) /\ \A t \in DOMAIN v.kv : IsShapeSid(t) /\ ValueOk(v.kv[t])
TargetOk(v) == IsObj(v) /\ HasF(v, "target") /\ IsStr(Field(v, "target")) /\ IsSid(Field(v, "target").s)
MemberOk(v) == TargetOk(v) /\ Optional(v, "traits", TraitsOk)
MembersOk(v) == IsObj(v) /\ \A n \in DOMAIN v.kv : I!IsIdent(n) /\ MemberOk(v.kv[n])
TargetsOk(v) == v.k = "arr" /\ \A n \in 1..Len(v.xs) : TargetOk(v.xs[n])
IdentsOk(v) == IsObj(v) /\ \A n \in DOMAIN v.kv : I!IsIdent(n) /\ TargetOk(v.kv[n])
RenamesOk(v) == IsObj(v) /\ \A n \in DOMAIN v.kv : IsSid(n) /\ IsStr(v.kv[n]) /\ I!IsIdent(v.kv[n].s)
BodyOk(d, kind) ==
  CASE kind \in SimpleKinds -> TRUE
    [] kind = "apply" -> TRUE
    [] kind \in {"list", "set"} -> HasF(d, "member") /\ MemberOk(Field(d, "member"))
    [] kind = "map" -> /\ HasF(d, "key") /\ MemberOk(Field(d, "key"))
                       /\ HasF(d, "value") /\ MemberOk(Field(d, "value"))
    [] kind \in {"structure", "union"} -> Optional(d, "members", MembersOk)
    [] kind = "service" -> /\ HasF(d, "version") /\ IsStr(Field(d, "version")) /\ Field(d, "version").s # ""
                           /\ \A r \in ArrayRoles(kind) : Optional(d, r, TargetsOk)
                           /\ Optional(d, "rename", RenamesOk)
    [] kind \in {"operation", "resource"} ->
         /\ \A r \in ArrayRoles(kind) : Optional(d, r, TargetsOk)
         /\ \A r \in OptRoles(kind) : Optional(d, r, TargetOk)
         /\ kind = "resource" => Optional(d, "identifiers", IdentsOk)
    [] OTHER -> FALSE
ShapeDocOk(id, d) ==
  /\ IsSid(id)
  /\ IsObj(d) /\ HasF(d, "type") /\ IsStr(Field(d, "type"))
  /\ IsMemberId(id) => Field(d, "type").s = "apply"
  /\ BodyOk(d, Field(d, "type").s)
  /\ Optional(d, "traits", TraitsOk)
ShapesOk(v) == IsObj(v) /\ \A id \in DOMAIN v.kv : ShapeDocOk(id, v.kv[id])
MetaOk(v) == IsObj(v) /\ ValueOk(v)
DocOk(d) ==
  /\ IsObj(d)
  /\ HasF(d, "smithy") /\ IsStr(Field(d, "smithy")) /\ I!IsVersion(Field(d, "smithy").s)
  /\ Optional(d, "metadata", MetaOk)
  /\ Optional(d, "shapes", ShapesOk)

(******************************* denotation ********************************)
KvOf(d, k) == IF HasF(d, k) THEN Field(d, k).kv ELSE NoFn
DMember(v) == [t |-> Field(v, "target").s, traits |-> KvOf(v, "traits")]
DTargets(d, k) == IF HasF(d, k) THEN [n \in 1..Len(Field(d, k).xs) |-> Field(Field(d, k).xs[n], "target").s] ELSE <<>>
DTarget(d, k) == IF HasF(d, k) THEN <<Field(Field(d, k), "target").s>> ELSE <<>>
MemberKeys(kind) == CASE kind \in {"list", "set"} -> {"member"} [] kind = "map" -> {"key", "value"} [] OTHER -> {}
DShape(d) ==
  LET ty == Field(d, "type").s
      kind == IF ty = "apply" THEN "unresolved" ELSE ty
      named == IF kind \in {"structure", "union"} THEN KvOf(d, "members")
               ELSE [n \in MemberKeys(kind) |-> Field(d, n)]
  IN [kind |-> kind,
      traits |-> KvOf(d, "traits"),
      mem |-> [n \in DOMAIN named |-> DMember(named[n])],
      ver |-> IF kind = "service" THEN Field(d, "version").s ELSE "",
      refs |-> [r \in Roles |-> IF r \in ArrayRoles(kind) THEN DTargets(d, r)
                                ELSE IF r \in OptRoles(kind) THEN DTarget(d, r) ELSE <<>>],
      idents |-> IF kind = "resource" THEN [n \in DOMAIN KvOf(d, "identifiers") |-> Field(KvOf(d, "identifiers")[n], "target").s] ELSE NoFn,
      ren |-> IF kind = "service" THEN [n \in DOMAIN KvOf(d, "rename") |-> KvOf(d, "rename")[n].s] ELSE NoFn]
DModel(d) ==
  [ver |-> "1.0",
   meta |-> KvOf(d, "metadata"),
   shapes |-> [id \in DOMAIN KvOf(d, "shapes") |-> DShape(KvOf(d, "shapes")[id])]]

(************* a document for a model (one of many that denote it) **********)
\* A trait that carries no value is the same fact as one that carries an empty object.
TraitsNorm(ts) == [t \in DOMAIN ts |-> IF ts[t].k = "absent" THEN Obj(NoFn) ELSE ts[t]]
MemNorm(mem) == [n \in DOMAIN mem |-> [mem[n] EXCEPT !.traits = TraitsNorm(@)]]
ShapeNorm(s) == [s EXCEPT !.traits = TraitsNorm(@), !.mem = MemNorm(@)]
Norm(m) == [m EXCEPT !.shapes = [id \in DOMAIN m.shapes |-> ShapeNorm(m.shapes[id])]]

When(c, k, v) == IF c THEN k :> v ELSE NoFn
ETarget(t) == Obj("target" :> Str(t))
ETraits(ts) == When(DOMAIN ts # {}, "traits", Obj(TraitsNorm(ts)))
EMember(m) == Obj(("target" :> Str(m.t)) @@ ETraits(m.traits))
RECURSIVE Fold(_, _)
Fold(F(_), S) == IF S = {} THEN NoFn ELSE LET x == CHOOSE y \in S : TRUE IN F(x) @@ Fold(F, S \ {x})
EShape(s) ==
  LET kind == s.kind
      ERef(r) == IF r \in ArrayRoles(kind)
                 THEN When(s.refs[r] # <<>>, r, Arr([n \in 1..Len(s.refs[r]) |-> ETarget(s.refs[r][n])]))
                 ELSE When(s.refs[r] # <<>>, r, ETarget(s.refs[r][1]))
      EMem(n) == n :> EMember(s.mem[n])
  IN Obj(("type" :> Str(IF kind = "unresolved" THEN "apply" ELSE kind))
         @@ ETraits(s.traits)
         @@ When(kind = "service", "version", Str(s.ver))
         @@ Fold(ERef, ArrayRoles(kind) \cup OptRoles(kind))
         @@ (IF kind \in {"structure", "union"}
             THEN When(DOMAIN s.mem # {}, "members", Obj(Fold(EMem, DOMAIN s.mem))) ELSE Fold(EMem, DOMAIN s.mem))
         @@ When(DOMAIN s.idents # {}, "identifiers", Obj([n \in DOMAIN s.idents |-> ETarget(s.idents[n])]))
         @@ When(DOMAIN s.ren # {}, "rename", Obj([n \in DOMAIN s.ren |-> Str(s.ren[n])])))
EModel(m) ==
  Obj(("smithy" :> Str(m.ver))
      @@ When(DOMAIN m.meta # {}, "metadata", Obj(m.meta))
      @@ ("shapes" :> Obj([id \in DOMAIN m.shapes |-> EShape(m.shapes[id])])))
=============================================================================
