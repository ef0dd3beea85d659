------------------------------ MODULE IdlText ------------------------------
(* Writing: the texts for the calls on a builder, and the calls that make a    *)
(* model.  Reading what is written gives the calls again (MC_Idl), and the     *)
(* model again (MC_IdlWrite).                                                  *)
EXTENDS Idl

RECURSIVE Escaped(_), Concat(_)
Escaped(s) ==
  IF s = "" THEN ""
  ELSE LET c == Ch(s, 1)
           e == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] c = "\f" -> "\\f" [] OTHER -> c
       IN e \o Escaped(SubSeq(s, 2, Len(s)))
Quote(s) == "\"" \o Escaped(s) \o "\""
Concat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Concat(Tail(xs))
\* The keys of a function in some order.
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
KeyText(k) == IF S!IsIdent(k) THEN k ELSE Quote(k)

RECURSIVE ValueToks(_), PairToks(_, _), ItemToks(_)
ItemToks(xs) == IF xs = <<>> THEN <<>> ELSE ValueToks(Head(xs)) \o ItemToks(Tail(xs))
PairToks(kv, ks) == IF ks = <<>> THEN <<>> ELSE <<KeyText(Head(ks)), ":">> \o ValueToks(kv[Head(ks)]) \o PairToks(kv, Tail(ks))
ValueToks(v) ==
  CASE v.k = "str" -> <<Quote(v.s)>>
    [] v.k = "null" -> <<"null">>
    [] v.k = "arr" -> <<"[">> \o ItemToks(v.xs) \o <<"]">>
    [] v.k = "obj" -> <<"{">> \o PairToks(v.kv, SeqOf(DOMAIN v.kv)) \o <<"}">>
    [] OTHER -> <<v.s>>
\* how = 0 writes the members of an object without braces and no body for an empty one.
TraitToks(t, how) ==
  IF t.f = "documentation" THEN [i \in 1..Len(S!Split(t.a[1], "\n")) |-> "///" \o S!Split(t.a[1], "\n")[i]]
  ELSE IF t.v.k = "absent" \/ (how = 0 /\ t.v = Obj(NoFn)) THEN <<"@" \o t.n>>
  ELSE IF how = 0 /\ t.v.k = "obj" THEN <<"@" \o t.n \o "(">> \o PairToks(t.v.kv, SeqOf(DOMAIN t.v.kv)) \o <<")">>
  ELSE <<"@" \o t.n \o "(">> \o ValueToks(t.v) \o <<")">>
RECURSIVE TraitsToks(_, _), MemberToks(_, _)
TraitsToks(ts, how) == IF ts = <<>> THEN <<>> ELSE TraitToks(Head(ts), how) \o TraitsToks(Tail(ts), how)
MemberToks(ms, how) ==
  IF ms = <<>> THEN <<>>
  ELSE TraitsToks(Head(ms).traits, how) \o <<Head(ms).n, ":", Head(ms).t>> \o MemberToks(Tail(ms), how)
RefToks(c, r) == IF c.refs[r] = <<>> THEN <<>>
                 ELSE IF r \in Ids THEN <<r, ":", c.refs[r][1]>>
                 ELSE <<r, ":", "[">> \o c.refs[r] \o <<"]">>
FnToks(k, f, Q(_)) ==
  LET ks == SeqOf(DOMAIN f) IN
  IF f = NoFn THEN <<>> ELSE <<k, ":", "{">> \o Concat([i \in 1..Len(ks) |-> <<KeyText(ks[i]), ":", Q(f[ks[i]])>>]) \o <<"}">>
Bare2(x) == x
BodyToks(c, how) ==
  CASE c.kind \in SimpleKinds -> <<>>
    [] c.kind \in Membered -> <<"{">> \o MemberToks(c.mem, how) \o <<"}">>
    [] OTHER -> <<"{">> \o (IF c.kind = "service" THEN <<"version", ":", Quote(c.ver)>> ELSE <<>>)
                \o Concat([i \in 1..Len(SeqOf(Roles)) |-> RefToks(c, SeqOf(Roles)[i])])
                \o FnToks("identifiers", c.idents, Bare2) \o FnToks("rename", c.ren, Quote) \o <<"}">>
CallToks(c, how) ==
  CASE c.c = "meta" -> <<"metadata", KeyText(c.n), "=">> \o ValueToks(c.v)
    [] c.c = "use" -> <<"use", c.n>>
    [] c.c = "apply" -> IF c.traits = <<>> THEN <<>> ELSE <<"apply", c.n>> \o TraitsToks(<<c.traits[1]>>, how)
    [] OTHER -> TraitsToks(c.traits, how) \o <<c.kind, c.n>> \o BodyToks(c, how)
Kind(c, k) == c.c = k
FileToks(b, how) ==
  LET Some(k) == Concat([i \in 1..Len(b.calls) |-> IF b.calls[i].c = k THEN CallToks(b.calls[i], how) ELSE <<>>])
      rest == Concat([i \in 1..Len(b.calls) |-> IF b.calls[i].c \in {"decl", "apply"} THEN CallToks(b.calls[i], how) ELSE <<>>])
  IN <<"$", "version", ":", "\"1.0\"">> \o Some("meta") \o <<"namespace", b.ns>> \o Some("use") \o rest

\* Layouts: what stands between one token and the next.
Seps == << <<" ">>, <<"\n">>, <<", ">>, <<" // note, \"of\" @x({\n", "\t">>, <<"\r\n", " ">>, <<",\n\n    ", "//\n", " ">> >>
Sep(l, i) == Seps[l][(i % Len(Seps[l])) + 1]
IsDoc(t) == Len(t) > 2 /\ SubSeq(t, 1, 3) = "///"
RECURSIVE Laid(_, _, _)
Laid(toks, i, l) ==
  IF i > Len(toks) THEN ""
  ELSE toks[i] \o (IF IsDoc(toks[i]) THEN "\n" ELSE "") \o Sep(l, i) \o Laid(toks, i + 1, l)
Text(b, how, l) == Laid(FileToks(b, how), 1, l)

\* Layout aside, what is written and read are the same calls.
Plain(c) == [c EXCEPT !.how = 0]
Ordered2(b) ==
  LET Some(k) == SelectSeq(b.calls, LAMBDA c : c.c \in k) IN
  [b EXCEPT !.calls = Some({"meta"}) \o Some({"use"}) \o Some({"decl", "apply"})]

(************************ the calls that make a model **********************)
TraitsOf(f) == LET ks == SeqOf(DOMAIN f) IN [i \in 1..Len(ks) |-> Applied1(ks[i], f[ks[i]])]
MemOf(f) == LET ks == SeqOf(DOMAIN f) IN [i \in 1..Len(ks) |-> [n |-> ks[i], t |-> f[ks[i]].t, traits |-> TraitsOf(f[ks[i]].traits)]]
DeclOf(id, sh) ==
  [Decl1(sh.kind, NameOf(id), TraitsOf(sh.traits)) EXCEPT !.mem = MemOf(sh.mem), !.ver = sh.ver, !.refs = sh.refs, !.idents = sh.idents, !.ren = sh.ren]
AppliesOf(id, sh) == [i \in 1..Cardinality(DOMAIN sh.traits) |-> [Call EXCEPT !.c = "apply", !.n = id, !.traits = <<TraitsOf(sh.traits)[i]>>]]
CallsOf(m, ns) ==
  LET shapes == SeqOf(DOMAIN m.shapes)
      metas == SeqOf(DOMAIN m.meta)
      Sh(i) == m.shapes[shapes[i]]
  IN [ns |-> ns, ver |-> "1.0", calls |->
       [i \in 1..Len(metas) |-> [Call EXCEPT !.c = "meta", !.n = metas[i], !.v = m.meta[metas[i]]]]
       \o Concat([i \in 1..Len(shapes) |-> IF IsUnres(Sh(i)) /\ Sh(i).traits = NoFn THEN <<[Call EXCEPT !.c = "use", !.n = shapes[i]]>> ELSE <<>>])
       \o Concat([i \in 1..Len(shapes) |-> IF IsUnres(Sh(i)) THEN AppliesOf(shapes[i], Sh(i)) ELSE <<DeclOf(shapes[i], Sh(i))>>])]
=============================================================================
