-------------------------------- MODULE Idl --------------------------------
(***************************************************************************)
(* The Smithy IDL: the model a text denotes.  A text is cut into tokens (no  *)
(* layout, comments or commas are left of it), the tokens are read by the    *)
(* grammar as a version, metadata and a sequence of calls on the builder,    *)
(* and the model is what the builder makes of them: names in an IDL file     *)
(* resolve as they do in the builder.                                        *)
(*                                                                          *)
(* A token is [k, s]: "p" punctuation, "id" a name (an identifier, a         *)
(* namespace, or a shape identifier), "str" a text, "int" and "float"        *)
(* numbers, "at" the name of an applied trait and "at(" one with a body,     *)
(* "doc" a line of documentation, "bad" what is no token.                    *)
(*                                                                          *)
(* The real reader departs from this in three ways that the repository's own *)
(* tests hold it to (see DESIGN.md): it leaves escapes as they are written   *)
(* ("escape"), keeps the quotes of quoted keys in an object ("key"), and     *)
(* drops what is applied to the member of a list or set ("member").  dev is  *)
(* the set of those to follow; the meaning of a text is that with none.      *)
(***************************************************************************)
EXTENDS Builder
S == INSTANCE Selector

(******************************* tokens ************************************)
Devs == {"escape", "key", "member"}
\* q is the token as the key of an object.
Tok3(k, s, q) == [k |-> k, s |-> s, q |-> q]
Tok(k, s) == Tok3(k, s, s)
Blanks == {" ", "\t"}
Newlines == {"\n", "\r"}
Space == Blanks \cup Newlines \cup {","}
Punct == {"{", "}", "[", "]", "(", ")", ":", "=", "$"}
Hex == S!Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF i > Len(t) \/ Ch(t, i) \in Newlines THEN i ELSE LineEnd(t, i + 1)
\* u gives the characters of the escapes that TLA+ cannot write.
RECURSIVE Unescape(_, _, _)
Unescape(s, i, u) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) # "\\" THEN Ch(s, i) \o Unescape(s, i + 1, u)
  ELSE LET x == S!At(s, i + 1) IN
    CASE x \in {"\\", "\"", "'", "/"} -> x \o Unescape(s, i + 2, u)
      [] x = "n" -> "\n" \o Unescape(s, i + 2, u)
      [] x = "r" -> "\r" \o Unescape(s, i + 2, u)
      [] x = "t" -> "\t" \o Unescape(s, i + 2, u)
      [] x = "f" -> "\f" \o Unescape(s, i + 2, u)
      [] x = "b" -> u["0008"] \o Unescape(s, i + 2, u)
      [] x = "u" /\ i + 5 <= Len(s) /\ \A j \in (i+2)..(i+5) : Ch(s, j) \in Hex ->
           u[SubSeq(s, i + 2, i + 5)] \o Unescape(s, i + 6, u)
      [] OTHER -> "\\" \o x \o Unescape(s, i + 2, u)
TextOf(s, u, dev) == IF "escape" \notin dev /\ HasChar(s, "\\") THEN Unescape(s, 1, u) ELSE s
\* The end of the text that starts at i and is closed by q, 0 for none.
RECURSIVE TextEnd(_, _, _, _)
TextEnd(t, i, q, no) ==
  IF i > Len(t) THEN 0
  ELSE IF S!Lit(t, i, q).ok THEN i
  ELSE IF Ch(t, i) = "\\" THEN IF i = Len(t) \/ Ch(t, i + 1) \in no THEN 0 ELSE TextEnd(t, i + 2, q, no)
  ELSE IF Ch(t, i) \in no THEN 0 ELSE TextEnd(t, i + 1, q, no)
IdEnd(t, i) ==
  LET n == S!NamespaceEnd(t, i)
      a == IF n # 0 /\ S!At(t, n) = "#" THEN S!IdentEnd(t, n + 1) ELSE 0
      e == IF a = 0 THEN n ELSE a
      m == IF e # 0 /\ S!At(t, e) = "$" THEN S!IdentEnd(t, e + 1) ELSE 0
  IN IF m = 0 THEN e ELSE m

RECURSIVE Lex(_, _, _, _, _)
Lex(t, i, u, dev, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET c == Ch(t, i)
           Bad == Append(acc, Tok("bad", c))
           Go(j, k, s) == Lex(t, j, u, dev, Append(acc, Tok(k, s)))
       IN
    CASE c \in Space -> Lex(t, S!Past(t, i, Space), u, dev, acc)
      [] c \in Punct -> Go(i + 1, "p", c)
      [] c = "/" ->
           LET e == LineEnd(t, i + 2) IN
           IF S!At(t, i + 1) # "/" \/ e > Len(t) THEN Bad
           ELSE IF S!At(t, i + 2) = "/" THEN Go(e + 1, "doc", S!Cut(t, S!Past(t, i + 3, Blanks), e))
           ELSE Lex(t, e + 1, u, dev, acc)
      [] c = "\"" ->
           IF S!Lit(t, i, "\"\"\"").ok
           THEN LET b == S!Past(t, i + 3, Blanks \cup Newlines)
                    e == TextEnd(t, b, "\"\"\"", {"\f"})
                IN IF e = 0 THEN Bad ELSE Go(e + 3, "block", TextOf(S!Cut(t, b, e), u, dev))
           ELSE LET e == TextEnd(t, i + 1, "\"", {"\t", "\n", "\r", "\f"})
                    s == S!Cut(t, i + 1, e)
                    v == TextOf(s, u, dev)
                IN IF e = 0 THEN Bad ELSE Lex(t, e + 1, u, dev, Append(acc, Tok3("str", v, IF "key" \in dev THEN "\"" \o s \o "\"" ELSE v)))
      [] c \in S!Digits \cup {"-"} ->
           LET n == S!Number(t, i) IN
           IF ~n.ok \/ (n.floating /\ S!TooBig(n)) \/ (~n.floating /\ ~S!IntFits(n)) THEN Bad
           ELSE IF n.floating THEN Go(n.i, "float", S!FloatText(n)) ELSE Go(n.i, "int", S!IntText(n))
      [] c = "@" ->
           LET e == IdEnd(t, i + 1) IN
           IF e = 0 THEN Bad
           ELSE IF S!At(t, e) = "(" THEN Go(e + 1, "at(", S!Cut(t, i + 1, e)) ELSE Go(e, "at", S!Cut(t, i + 1, e))
      [] c \in S!Alpha \cup {"_"} -> LET e == IdEnd(t, i) IN IF e = 0 THEN Bad ELSE Go(e, "id", S!Cut(t, i, e))
      [] OTHER -> Bad
TokensAs(t, u, dev) == Lex(t, 1, u, dev, <<>>)
Tokens(t, u) == TokensAs(t, u, {})

(******************************* grammar ***********************************)
Got(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
No == [ok |-> FALSE, i |-> 0, v |-> Null]
T(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE Tok("end", "")
IsP(ts, i, s) == T(ts, i) = Tok("p", s)
IsName(ts, i) == T(ts, i).k = "id" /\ S!IsIdent(T(ts, i).s)
IsKey(ts, i) == IsName(ts, i) \/ T(ts, i).k = "str"
ShapeRef(s) ==
  IF HasChar(s, "#") THEN S!ParseSid(s).ok
  ELSE IF HasChar(s, "$") THEN S!IsIdent(SubSeq(s, 1, PosOf(s, "$") - 1)) ELSE S!IsIdent(s)
\* A target, a reference, the name of a trait: no member.
Named(s) == S!IsIdent(s) \/ (HasChar(s, "#") /\ S!ParseSid(s).ok)
IsRef(ts, i) == T(ts, i).k = "id" /\ Named(T(ts, i).s)

RECURSIVE Value(_, _), Items(_, _, _), Pairs(_, _, _, _)
Value(ts, i) ==
  LET t == T(ts, i) IN
  CASE t.k \in {"str", "block"} -> Got(i + 1, Str(t.s))
    [] t.k \in {"int", "float"} -> Got(i + 1, Val(t.k, t.s))
    [] t.k = "id" -> IF t.s \in {"true", "false"} THEN Got(i + 1, Val("bool", t.s))
                     ELSE IF t.s = "null" THEN Got(i + 1, Null)
                     ELSE IF ShapeRef(t.s) THEN Got(i + 1, Str(t.s)) ELSE No
    [] t = Tok("p", "[") -> Items(ts, i + 1, <<>>)
    [] t = Tok("p", "{") -> Pairs(ts, i + 1, "}", NoFn)
    [] OTHER -> No
Items(ts, i, acc) ==
  IF IsP(ts, i, "]") THEN Got(i + 1, Arr(acc))
  ELSE LET r == Value(ts, i) IN IF r.ok THEN Items(ts, r.i, Append(acc, r.v)) ELSE No
Pairs(ts, i, close, acc) ==
  IF IsP(ts, i, IF close = "body" THEN "}" ELSE close) THEN Got(i + 1, Obj(acc))
  ELSE IF ~IsKey(ts, i) \/ ~IsP(ts, i + 1, ":") THEN No
  ELSE LET r == Value(ts, i + 2) IN IF r.ok THEN Pairs(ts, r.i, close, Put(acc, IF close = "}" THEN T(ts, i).q ELSE T(ts, i).s, r.v)) ELSE No

Applied1(n, v) == [n |-> n, v |-> v, f |-> "", a |-> <<>>]
DocOf(lines) == IF lines = <<>> THEN <<>>
                ELSE <<[n |-> "", v |-> Absent, f |-> "documentation", a |-> <<S!Join(lines, "\n")>>]>>
ATrait(ts, i) ==
  LET t == T(ts, i)
      r == IF IsP(ts, i + 1, ")") THEN Got(i + 2, Obj(NoFn))
           ELSE IF IsKey(ts, i + 1) /\ IsP(ts, i + 2, ":") THEN Pairs(ts, i + 1, ")", NoFn)
           ELSE LET q == Value(ts, i + 1) IN IF q.ok /\ IsP(ts, q.i, ")") THEN Got(q.i + 1, q.v) ELSE No
  IN CASE t.k = "at" /\ Named(t.s) -> Got(i + 1, Applied1(t.s, Obj(NoFn)))
       [] t.k = "at(" /\ Named(t.s) -> IF r.ok THEN Got(r.i, Applied1(t.s, r.v)) ELSE No
       [] OTHER -> No
RECURSIVE Docs(_, _, _), Traits(_, _, _)
Docs(ts, i, acc) == IF T(ts, i).k = "doc" THEN Docs(ts, i + 1, Append(acc, T(ts, i).s)) ELSE Got(i, acc)
Traits(ts, i, acc) ==
  IF T(ts, i).k \notin {"at", "at("} THEN Got(i, acc)
  ELSE LET r == ATrait(ts, i) IN IF r.ok THEN Traits(ts, r.i, Append(acc, r.v)) ELSE No
\* Documentation, then traits.
Notes2(ts, i) ==
  LET d == Docs(ts, i, <<>>)
      r == Traits(ts, d.i, <<>>)
  IN IF r.ok THEN Got(r.i, DocOf(d.v) \o r.v) ELSE No

RECURSIVE Members(_, _, _)
Members(ts, i, acc) ==
  IF IsP(ts, i, "}") THEN Got(i + 1, acc)
  ELSE LET a == Notes2(ts, i) IN
    IF ~a.ok THEN No
    ELSE IF ~IsName(ts, a.i) \/ ~IsP(ts, a.i + 1, ":") \/ ~IsRef(ts, a.i + 2) THEN No
    ELSE LET n == T(ts, a.i).s IN
      IF \E j \in 1..Len(acc) : S!EqId(acc[j].n, n) THEN No
      ELSE Members(ts, a.i + 3, Append(acc, [n |-> n, t |-> T(ts, a.i + 2).s, traits |-> a.v]))
NamesOf(mem) == {mem[j].n : j \in 1..Len(mem)}
Fixed == "list" :> {"member"} @@ "set" :> {"member"} @@ "map" :> {"key", "value"}

\* The bodies that are objects: what each of their keys may hold.
Keys == "service" :> {"version", "operations", "resources", "rename"}
     @@ "operation" :> {"input", "output", "errors"}
     @@ "resource" :> {"identifiers", "create", "put", "read", "update", "delete", "list", "operations", "collectionOperations", "resources"}
Ids == {"input", "output", "create", "put", "read", "update", "delete", "list"}
Lists == {"operations", "resources", "collectionOperations", "errors"}
IsRefVal(v) == v.k = "str" /\ Named(v.s)
\* A key that has kept its quotes.
Unquoted(x) == IF Len(x) > 1 /\ SubSeq(x, 1, 1) = "\"" /\ Ch(x, Len(x)) = "\"" THEN SubSeq(x, 2, Len(x) - 1) ELSE x
Proper(k, v) ==
  CASE k = "version" -> v.k = "str"
    [] k \in Ids -> IsRefVal(v)
    [] k \in Lists -> v.k = "arr" /\ \A j \in 1..Len(v.xs) : IsRefVal(v.xs[j])
    [] k = "identifiers" -> v.k = "obj" /\ \A x \in DOMAIN v.kv : S!IsIdent(Unquoted(x)) /\ IsRefVal(v.kv[x])
    [] k = "rename" -> v.k = "obj" /\ \A x \in DOMAIN v.kv : S!ParseSid(Unquoted(x)).ok /\ v.kv[x].k = "str" /\ S!IsIdent(v.kv[x].s)
FnOf(o, k) ==
  LET f == o[k].kv IN
  IF ~Has(o, k) THEN NoFn
  ELSE [x \in {Unquoted(y) : y \in DOMAIN f} |-> IF x \in DOMAIN f THEN f[x].s ELSE f["\"" \o x \o "\""].s]
Bodied(call, o) ==
  [call EXCEPT !.ver = IF Has(o, "version") THEN o["version"].s ELSE "",
               !.refs = [r \in Roles |-> IF ~Has(o, r) THEN <<>>
                                         ELSE IF r \in Ids THEN <<o[r].s>>
                                         ELSE [j \in 1..Len(o[r].xs) |-> o[r].xs[j].s]],
               !.idents = FnOf(o, "identifiers"), !.ren = FnOf(o, "rename")]
WellFormed(kind, o) ==
  /\ \A k \in DOMAIN o : k \in Keys[kind] /\ Proper(k, o[k])
  /\ kind = "service" => Has(o, "version") /\ o["version"].s # ""

Decl1(kind, n, traits) == [Call EXCEPT !.c = "decl", !.n = n, !.kind = kind, !.traits = traits]
Membered == {"list", "set", "map", "structure", "union"}
Stmt(ts, i) ==
  LET a == Notes2(ts, i)
      kind == T(ts, a.i).s
      n == T(ts, a.i + 1).s
      d == Decl1(kind, n, a.v)
  IN IF T(ts, i) = Tok("id", "apply")
     THEN LET t == ATrait(ts, i + 2) IN
          IF T(ts, i + 1).k = "id" /\ ShapeRef(T(ts, i + 1).s) /\ t.ok THEN Got(t.i, [Call EXCEPT !.c = "apply", !.n = T(ts, i + 1).s, !.traits = <<t.v>>]) ELSE No
     ELSE IF ~a.ok THEN No
     ELSE IF T(ts, a.i).k # "id" \/ ~IsName(ts, a.i + 1) THEN No
     ELSE IF kind \in SimpleKinds THEN Got(a.i + 2, d)
     ELSE IF kind \in Membered /\ IsP(ts, a.i + 2, "{")
     THEN LET m == Members(ts, a.i + 3, <<>>) IN
          IF ~m.ok THEN No
          ELSE IF Has(Fixed, kind) THEN IF NamesOf(m.v) = Fixed[kind] THEN Got(m.i, [d EXCEPT !.mem = m.v]) ELSE No
          ELSE Got(m.i, [d EXCEPT !.mem = m.v])
     ELSE IF Has(Keys, kind) /\ IsP(ts, a.i + 2, "{")
     THEN LET o == Pairs(ts, a.i + 3, "body", NoFn) IN
          IF ~o.ok THEN No
          ELSE IF WellFormed(kind, o.v.kv) THEN Got(o.i, Bodied(d, o.v.kv)) ELSE No
     ELSE No

RECURSIVE Control(_, _, _), Meta(_, _, _), Uses(_, _, _), Stmts(_, _, _)
Control(ts, i, acc) ==
  IF ~IsP(ts, i, "$") THEN Got(i, acc)
  ELSE IF ~IsKey(ts, i + 1) \/ ~IsP(ts, i + 2, ":") THEN No
  ELSE LET r == Value(ts, i + 3) IN IF r.ok THEN Control(ts, r.i, Put(acc, T(ts, i + 1).s, r.v)) ELSE No
Meta(ts, i, acc) ==
  IF T(ts, i) # Tok("id", "metadata") THEN Got(i, acc)
  ELSE IF ~IsKey(ts, i + 1) \/ ~IsP(ts, i + 2, "=") THEN No
  ELSE LET r == Value(ts, i + 3) IN
       IF r.ok THEN Meta(ts, r.i, Append(acc, [Call EXCEPT !.c = "meta", !.n = T(ts, i + 1).s, !.v = r.v])) ELSE No
Uses(ts, i, acc) ==
  IF T(ts, i) # Tok("id", "use") THEN Got(i, acc)
  ELSE LET u == T(ts, i + 1) IN
       IF u.k = "id" /\ S!ParseSid(u.s).ok /\ ~HasChar(u.s, "$")
       THEN Uses(ts, i + 2, Append(acc, [Call EXCEPT !.c = "use", !.n = u.s])) ELSE No
Stmts(ts, i, acc) ==
  IF i > Len(ts) THEN Got(i, acc)
  ELSE LET r == Stmt(ts, i) IN IF r.ok THEN Stmts(ts, r.i, Append(acc, r.v)) ELSE No

\* One key of metadata given twice: arrays concatenate, equal values are one, others conflict.
RECURSIVE Gathered(_, _)
Gathered(ms, acc) ==
  IF ms = <<>> THEN Got(0, acc)
  ELSE LET c == Head(ms)
           at == {j \in 1..Len(acc) : acc[j].n = c.n}
           j == CHOOSE x \in at : TRUE
           a == acc[j].v
       IN IF at = {} THEN Gathered(Tail(ms), Append(acc, c))
          ELSE IF a.k = "arr" /\ c.v.k = "arr" THEN Gathered(Tail(ms), [acc EXCEPT ![j].v = Arr(a.xs \o c.v.xs)])
          ELSE IF a = c.v THEN Gathered(Tail(ms), acc)
          ELSE No
Versions == {"1", "1.0"}
Wrong == [ok |-> FALSE, b |-> Start("", "1.0")]
\* The builder's calls a sequence of tokens stands for.
File(ts) ==
  LET c == Control(ts, 1, NoFn)
      m == IF c.ok THEN Meta(ts, c.i, <<>>) ELSE No
      g == IF m.ok THEN Gathered(m.v, <<>>) ELSE No
      n == T(ts, m.i)
      named == m.ok /\ n = Tok("id", "namespace")
      ns == T(ts, m.i + 1)
      u == IF named /\ ns.k = "id" /\ S!IsNamespace(ns.s) THEN Uses(ts, m.i + 2, <<>>) ELSE No
      s == IF u.ok THEN Stmts(ts, u.i, <<>>) ELSE No
      v == IF c.ok /\ Has(c.v, "version") THEN c.v["version"] ELSE Str("1.0")
      good == (v.k = "str" /\ v.s \in Versions) \/ (v.k = "int" /\ v.s = "1") \/ (v.k = "float" /\ v.s = "1e0")
  IN IF ~g.ok \/ ~good THEN Wrong
     ELSE IF ~named THEN IF m.i > Len(ts) THEN [ok |-> TRUE, b |-> [ns |-> "", ver |-> "1.0", calls |-> g.v]] ELSE Wrong
     ELSE IF s.ok THEN [ok |-> TRUE, b |-> [ns |-> ns.s, ver |-> "1.0", calls |-> g.v \o u.v \o s.v]] ELSE Wrong

(******************************* meaning ***********************************)
\* What a file of one namespace can say of a model: the shapes in it, and those known by name only.
Part(m, ns) == [m EXCEPT !.shapes = [i \in {x \in DOMAIN @ : NsOf(x) = ns \/ IsUnres(@[x])} |-> @[i]]]
NoModel == [ok |-> FALSE, m |-> EmptyModel]
MeaningOf(f) ==
  IF ~f.ok THEN NoModel
  ELSE LET r == Build(f.b) IN IF r.err = {} THEN [ok |-> TRUE, m |-> r.m] ELSE NoModel
\* What is applied to the member of a list or set is dropped.
Loose(c) == IF c.c = "decl" /\ c.kind \in {"list", "set"} THEN [c EXCEPT !.mem = [i \in DOMAIN @ |-> [@[i] EXCEPT !.traits = <<>>]]] ELSE c
DenoteAs(text, u, dev) ==
  LET f == File(TokensAs(text, u, dev)) IN
  MeaningOf(IF "member" \in dev /\ f.ok THEN [f EXCEPT !.b.calls = [i \in DOMAIN @ |-> Loose(@[i])]] ELSE f)
Denote(text, u) == DenoteAs(text, u, {})

\* A model with its floating numbers in one form, and the empty object for a trait without a value.
RECURSIVE NormV(_)
NormV(v) ==
  CASE v.k = "float" -> Val("float", S!FloatText(S!Number(v.s, 1)))
    [] v.k = "arr" -> Arr([i \in 1..Len(v.xs) |-> NormV(v.xs[i])])
    [] v.k = "obj" -> Obj([k \in DOMAIN v.kv |-> NormV(v.kv[k])])
    [] v.k = "absent" -> Obj(NoFn)
    [] OTHER -> v
NormF(f) == [k \in DOMAIN f |-> NormV(f[k])]
NormM(m) ==
  [m EXCEPT !.meta = NormF(@),
            !.shapes = [i \in DOMAIN m.shapes |->
              [m.shapes[i] EXCEPT !.traits = NormF(@),
                                  !.mem = [n \in DOMAIN @ |-> [@[n] EXCEPT !.traits = NormF(@)]]]]]
=============================================================================
