------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The model builder: a machine whose transitions are the calls made on it, *)
(* and whose result (a model, or what is wrong) is a function of the calls. *)
(*                                                                          *)
(* The state is [ns, ver, calls].  A call is [c, n, kind, traits, mem, ver, *)
(* refs, idents, ren, v]: c = "decl" declares a shape of that kind with     *)
(* name n (short, or qualified), "use" imports n, "apply" applies traits to *)
(* n from outside, "meta" sets metadata n to v.  A trait is [n, v, f, a]:   *)
(* name and value, or f the trait function and a its arguments.             *)
(***************************************************************************)
EXTENDS Model

PreludeShapes == {"String", "Blob", "BigInteger", "BigDecimal", "Timestamp", "Document", "Boolean",
  "PrimitiveBoolean", "Byte", "PrimitiveByte", "Short", "PrimitiveShort", "Integer", "PrimitiveInteger",
  "Long", "PrimitiveLong", "Float", "PrimitiveFloat", "Double", "PrimitiveDouble"}
PreludeTraits == {"auth", "authDefinition", "box", "cors", "deprecated", "documentation", "endpoint", "enum", "error",
  "eventHeader", "eventPayload", "examples", "externalDocumentation", "hostLabel", "http", "httpApiKeyAuth", "httpBasicAuth",
  "httpBearerAuth", "httpChecksumRequired", "httpDigestAuth", "httpError", "httpHeader", "httpLabel", "httpPayload",
  "httpPrefixHeaders", "httpQuery", "idempotencyToken", "idempotent", "idRef", "jsonName", "length", "mediaType", "noReplace",
  "optionalAuth", "paginated", "pattern", "private", "protocolDefinition", "range", "readonly", "recommended", "references",
  "required", "requiresLength", "resourceIdentifier", "retryable", "sensitive", "since", "streaming", "suppress", "tags",
  "timestampFormat", "title", "trait", "uniqueItems", "unstable", "xmlAttribute", "xmlFlattened", "xmlName", "xmlNamespace"}

Call == [c |-> "", n |-> "", kind |-> "", traits |-> <<>>, mem |-> <<>>, ver |-> "", refs |-> NoRefs,
         idents |-> NoFn, ren |-> NoFn, v |-> Null, how |-> 0]
Start(ns, ver) == [ns |-> ns, ver |-> ver, calls |-> <<>>]
Do(b, call) == [b EXCEPT !.calls = Append(@, call)]

(*********************** the trait functions *******************************)
Api(n) == "smithy.api#" \o n
Field(k, x, kind) == IF x = "-" THEN NoFn ELSE k :> Val(kind, x)
Two(a, kind) == Obj(Field("min", a[1], kind) @@ Field("max", a[2], kind))
PairsOf(a) == [k \in {a[i] : i \in {j \in 1..Len(a) : j % 2 = 1}} |->
                 Str(a[(CHOOSE i \in 1..Len(a) : i % 2 = 1 /\ a[i] = k /\ \A j \in (i+1)..Len(a) : ~(j % 2 = 1 /\ a[j] = k)) + 1])]
Notes == "boxed" :> "box" @@ "idempotent" :> "idempotent" @@ "no_replace" :> "noReplace" @@ "private" :> "private"
         @@ "readonly" :> "readonly" @@ "required" :> "required" @@ "requires_length" :> "requiresLength"
         @@ "sensitive" :> "sensitive" @@ "streaming" :> "streaming" @@ "unique_items" :> "uniqueItems"
Bare == "a_trait" :> "trait" @@ "unstable" :> "unstable"
Texts == "documentation" :> "documentation" @@ "error_source" :> "error" @@ "pattern" :> "pattern" @@ "since" :> "since"
         @@ "title" :> "title"
TraitFns == DOMAIN Notes \cup DOMAIN Bare \cup DOMAIN Texts
            \cup {"deprecated", "external_documentation", "length", "length_min", "length_max", "range", "range_min", "range_max",
                  "paginated", "tagged", "references"}
FnTrait(f, a, v) ==
  CASE f \in DOMAIN Notes -> <<Api(Notes[f]), Obj(NoFn)>>
    [] f \in DOMAIN Bare -> <<Api(Bare[f]), Absent>>
    [] f \in DOMAIN Texts -> <<Api(Texts[f]), Str(a[1])>>
    [] f = "deprecated" -> <<Api("deprecated"), Obj(Field("message", a[1], "str") @@ Field("since", a[2], "str"))>>
    [] f = "external_documentation" -> <<Api("externalDocumentation"), Obj(PairsOf(a))>>
    [] f = "length" -> <<Api("length"), Two(a, "int")>>
    [] f = "length_min" -> <<Api("length"), Two(<<a[1], "-">>, "int")>>
    [] f = "length_max" -> <<Api("length"), Two(<<"-", a[1]>>, "int")>>
    [] f = "range" -> <<Api("range"), Two(a, "int")>>
    [] f = "range_min" -> <<Api("range"), Two(<<a[1], "-">>, "int")>>
    [] f = "range_max" -> <<Api("range"), Two(<<"-", a[1]>>, "int")>>
    [] f = "paginated" -> <<Api("paginated"), Obj(Field("inputToken", a[1], "str") @@ Field("outputToken", a[2], "str")
                                                  @@ Field("items", a[3], "str") @@ Field("pageSize", a[4], "str"))>>
    [] f = "tagged" -> <<Api("tags"), Arr([i \in 1..Len(a) |-> Str(a[i])])>>
    [] f = "references" -> <<Api("references"), v>>
TraitOf(t) == IF t.f = "" THEN <<t.n, t.v>> ELSE FnTrait(t.f, t.a, t.v)

(*********************** name resolution ***********************************)
Qualified(n) == HasChar(n, "#")
Own(b, n) == IF Qualified(n) THEN n ELSE b.ns \o "#" \o n
Of(b, c) == {i \in 1..Len(b.calls) : b.calls[i].c = c}
Imports(b) == {b.calls[i].n : i \in Of(b, "use")}
Declared(b) == {Own(b, b.calls[i].n) : i \in Of(b, "decl")}

Found(id) == [id |-> id, un |-> FALSE, err |-> {}]
Resolve(b, n, isTrait) ==
  IF Qualified(n)
  THEN [Found(n) EXCEPT !.err = IF IsMemberId(n) THEN {<<"ShapeIDExpected", n>>} ELSE {}]
  ELSE LET I == {u \in Imports(b) : NameOf(u) = n} IN
       CASE Cardinality(I) > 1 -> [Found("") EXCEPT !.err = {<<"AmbiguousShape", n>>}]
         [] Cardinality(I) = 1 -> Found(CHOOSE u \in I : TRUE)
         [] I = {} /\ Own(b, n) \in Declared(b) -> Found(Own(b, n))
         [] I = {} /\ Own(b, n) \notin Declared(b) /\ n \in (IF isTrait THEN PreludeTraits ELSE PreludeShapes) -> Found(Api(n))
         [] OTHER -> [Found(Own(b, n)) EXCEPT !.un = TRUE]

(*********************** building ******************************************)
\* A set of named things, each with what is wrong with it and what it leaves unresolved.
RECURSIVE TraitsUpTo(_, _, _)
TraitsUpTo(b, ts, n) ==
  IF n = 0 THEN [f |-> NoFn, un |-> {}, err |-> {}]
  ELSE LET p == TraitsUpTo(b, ts, n - 1)
           t == TraitOf(ts[n])
           r == Resolve(b, t[1], TRUE)
           g == r.id :> t[2]
       IN [f |-> IF r.err = {} THEN FnCombine(p.f, g) ELSE p.f,
           un |-> p.un \cup (IF r.un THEN {r.id} ELSE {}),
           err |-> p.err \cup r.err \cup (IF r.err = {} THEN TraitConflicts(p.f, g) ELSE {})]
TraitsBuilt(b, ts) == TraitsUpTo(b, ts, Len(ts))

NamesIn(call) ==
  {call.mem[i].t : i \in 1..Len(call.mem)} \cup UNION {ToSet(call.refs[r]) : r \in Roles} \cup Range(call.idents)
TraitLists(call) == {call.traits} \cup {call.mem[i].traits : i \in 1..Len(call.mem)}

At(call, n) == call.mem[CHOOSE i \in 1..Len(call.mem) : call.mem[i].n = n]
ShapeBuilt(b, call) ==
  [Blank(call.kind) EXCEPT
     !.traits = TraitsBuilt(b, call.traits).f,
     !.mem = [n \in {call.mem[i].n : i \in 1..Len(call.mem)} |->
                [t |-> Resolve(b, At(call, n).t, FALSE).id, traits |-> TraitsBuilt(b, At(call, n).traits).f]],
     !.ver = call.ver,
     !.refs = [r \in Roles |-> [i \in 1..Len(call.refs[r]) |-> Resolve(b, call.refs[r][i], FALSE).id]],
     !.idents = [x \in DOMAIN call.idents |-> Resolve(b, call.idents[x], FALSE).id],
     !.ren = call.ren]

Leaves(b, call) ==
  {r.id : r \in {q \in {Resolve(b, n, FALSE) : n \in NamesIn(call)} : q.un}}
  \cup UNION {TraitsBuilt(b, ts).un : ts \in TraitLists(call)}
WrongIn(b, call) ==
  UNION {Resolve(b, n, FALSE).err : n \in NamesIn(call)}
  \cup UNION {TraitsBuilt(b, ts).err : ts \in TraitLists(call)}

\* What an apply names: a shape, or a member of one.
ShapePart(n) == IF IsMemberId(n) THEN SubSeq(n, 1, PosOf(n, "$") - 1) ELSE n
MemberPart(n) == SubSeq(n, PosOf(n, "$") + 1, Len(n))
ApplyTo(b, n) == IF Qualified(n) \/ IsMemberId(n) THEN Found(Own(b, n)) ELSE Resolve(b, n, FALSE)

\* One call after another: r = [m, err].
AddTo(r, id, sh) ==
  LET c == AddShapeConflicts(r.m, id, sh) IN
  [m |-> IF c = {} THEN AddShape(r.m, id, sh) ELSE r.m, err |-> r.err \cup c]
ApplyIn(b, r, call) ==
  LET t == ApplyTo(b, call.n)
      ts == TraitsBuilt(b, call.traits)
      owner == IF t.err = {} THEN ShapePart(t.id) ELSE ""
      e == t.err \cup ts.err
  IN IF e # {} THEN [r EXCEPT !.err = @ \cup e]
     ELSE IF ~IsMemberId(t.id) \/ ~Has(r.m.shapes, owner) \/ IsUnres(r.m.shapes[owner])
          THEN AddTo(r, t.id, WithTraits(Blank("unresolved"), ts.f))
          ELSE LET x == MemberPart(t.id) IN
               IF ~Has(r.m.shapes[owner].mem, x) THEN [r EXCEPT !.err = @ \cup {<<"UnknownMember", x>>}]
               ELSE LET c == TraitConflicts(r.m.shapes[owner].mem[x].traits, ts.f) IN
                    IF c # {} THEN [r EXCEPT !.err = @ \cup c]
                    ELSE [r EXCEPT !.m.shapes[owner].mem[x].traits = FnCombine(@, ts.f)]
Place(b, r, call) ==
  CASE call.c = "decl" -> AddTo([r EXCEPT !.err = @ \cup WrongIn(b, call)], Own(b, call.n), ShapeBuilt(b, call))
    [] call.c = "use" -> AddTo([r EXCEPT !.err = @ \cup WrongIn(b, call)], call.n,
                               WithTraits(Blank("unresolved"), TraitsBuilt(b, call.traits).f))
    [] call.c = "meta" -> [r EXCEPT !.m.meta = Put(@, call.n, call.v)]
    [] OTHER -> r
RECURSIVE Placed(_, _), Applied(_, _, _)
Placed(b, n) == IF n = 0 THEN [m |-> [EmptyModel EXCEPT !.ver = b.ver], err |-> {}] ELSE Place(b, Placed(b, n - 1), b.calls[n])
Applied(b, r, n) ==
  IF n = 0 THEN r
  ELSE LET p == Applied(b, r, n - 1) IN IF b.calls[n].c = "apply" THEN ApplyIn(b, p, b.calls[n]) ELSE p

\* Every declaration first, then the names left unresolved, then what is applied from outside.
UnresolvedIn(b) ==
  UNION {Leaves(b, b.calls[i]) : i \in Of(b, "decl") \cup Of(b, "use")}
  \cup UNION {TraitsBuilt(b, b.calls[i].traits).un : i \in Of(b, "apply")}
WithUnresolved(m, ids) ==
  [m EXCEPT !.shapes = [i \in DOMAIN m.shapes \cup ids |-> IF Has(m.shapes, i) THEN m.shapes[i] ELSE Blank("unresolved")]]
Build(b) ==
  LET p == Placed(b, Len(b.calls)) IN Applied(b, [p EXCEPT !.m = WithUnresolved(@, UnresolvedIn(b))], Len(b.calls))

(*********************** what has to hold **********************************)
\* The order of declarations makes no difference (that of traits applied from outside, and of metadata
\* set under one key, does: arrays concatenate in order, a later value replaces an earlier one).
Ordered(c) == c.c \in {"apply", "meta"}
Swap(b, i) == [b EXCEPT !.calls[i] = b.calls[i + 1], !.calls[i + 1] = b.calls[i]]
SameOutcome(x, y) == (x.err = {}) = (y.err = {}) /\ (x.err = {} => x.m = y.m)
=============================================================================
