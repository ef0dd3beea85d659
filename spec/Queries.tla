------------------------------ MODULE Queries ------------------------------
(* Every question a model answers about itself, defined from its contents.  *)
EXTENDS Model

KindClass(kind) == IF kind \in SimpleKinds THEN "simple" ELSE kind
KindClasses == {"simple", "list", "set", "map", "structure", "union", "service", "operation",
                "resource", "unresolved"}
NamedTraits == {"documentation", "externalDocumentation", "length", "pattern", "requiresLength",
                "box", "deprecated", "error", "idempotent", "noReplace", "paginated", "private",
                "readonly", "references", "required", "sensitive", "streaming", "since", "tags",
                "title", "trait", "uniqueItems", "unstable"}
NoneVal == Val("none", "")

TraitQueries(ts, tids) ==
  [any |-> DOMAIN ts # {},
   has |-> [t \in tids |-> Has(ts, t)],
   val |-> [t \in tids |-> IF Has(ts, t) THEN ts[t] ELSE NoneVal],
   named |-> [n \in NamedTraits |-> Has(ts, "smithy.api#" \o n)]]

HasAnyOp(sh) == \E r \in {"create", "put", "read", "update", "delete", "list"} : sh.refs[r] # <<>>

ShapeQueries(id, sh, names, tids, ids) ==
  [is |-> [k \in KindClasses |-> KindClass(sh.kind) = k],
   as |-> [k \in KindClasses |-> KindClass(sh.kind) = k],
   prelude |-> NsOf(id) = "smithy.api",
   takes_members |-> KindClass(sh.kind) \notin {"simple", "unresolved"},
   has_member |-> [n \in names |-> Has(sh.mem, n)],
   member |-> [n \in names |-> IF Has(sh.mem, n) THEN sh.mem[n].t ELSE ""],
   traits |-> TraitQueries(sh.traits, tids),
   mtraits |-> [n \in names \cap DOMAIN sh.mem |-> TraitQueries(sh.mem[n].traits, tids)],
   roles |-> [r \in ArrayRoles(sh.kind) \cup OptRoles(sh.kind) |-> sh.refs[r] # <<>>],
   body_any |-> \/ sh.kind \in {"structure", "union"} /\ DOMAIN sh.mem # {}
                \/ sh.kind = "resource" /\ DOMAIN sh.idents # {},
   has_n |-> [n \in names |-> \/ sh.kind \in {"structure", "union"} /\ Has(sh.mem, n)
                              \/ sh.kind = "resource" /\ Has(sh.idents, n)],
   get_n |-> [n \in names |-> IF sh.kind \in {"structure", "union"} /\ Has(sh.mem, n) THEN sh.mem[n].t
                              ELSE IF sh.kind = "resource" /\ Has(sh.idents, n) THEN sh.idents[n] ELSE ""],
   any_op |-> sh.kind = "resource" /\ HasAnyOp(sh),
   any_ren |-> sh.kind = "service" /\ DOMAIN sh.ren # {},
   ren_has |-> [i \in (IF sh.kind = "service" THEN ids ELSE {}) |-> Has(sh.ren, i)],
   ren_get |-> [i \in (IF sh.kind = "service" THEN ids ELSE {}) |-> IF Has(sh.ren, i) THEN sh.ren[i] ELSE ""]]

\* One field of the answer is one claim; the set of fields on which the code disagrees is reported.
QueryClaims(m, pool) ==
  LET keys == ToSet(pool.keys)
      ids == ToSet(pool.ids)
      names == ToSet(pool.names)
      tids == ToSet(pool.traits)
  IN [has_metadata |-> DOMAIN m.meta # {},
      has_shapes |-> DOMAIN m.shapes # {},
      is_complete |-> Unresolved(m) = {},
      has_meta |-> [k \in keys |-> Has(m.meta, k)],
      meta |-> [k \in keys |-> IF Has(m.meta, k) THEN m.meta[k] ELSE Absent],
      has_shape |-> [i \in ids |-> Has(m.shapes, i)],
      shape |-> [i \in ids |-> IF Has(m.shapes, i) THEN i ELSE ""],
      shapes |-> [i \in DOMAIN m.shapes |-> ShapeQueries(i, m.shapes[i], names, tids, ids)]]

\* Each name once: a sequence without repetition whose elements are S.
NamesOnce(xs, S) == ToSet(xs) = S /\ Len(xs) = Cardinality(S)

QueriesAgree(m, pool, q) ==
  /\ ~Has(q, "panic")
  /\ LET c == QueryClaims(m, pool) IN \A f \in DOMAIN c : q[f] = c[f]
  /\ NamesOnce(q.shape_names, Defined(m))
  /\ NamesOnce(q.unresolved_names, Unresolved(m))
  /\ NamesOnce(q.namespaces, Namespaces(m))
=============================================================================
