------------------------------ MODULE Actions ------------------------------
(***************************************************************************)
(* What validation and linting report about a model, and how a list of      *)
(* such actions is run.  An issue is [level, locus, says]: says is the set  *)
(* of texts the message has to contain.                                     *)
(***************************************************************************)
EXTENDS Model, Ident

Issue(level, locus, says) == [level |-> level, locus |-> locus, says |-> says]
RECURSIVE Flat(_)
Flat(xss) == IF xss = <<>> THEN <<>> ELSE Head(xss) \o Flat(Tail(xss))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Map1(F(_), xs) == [n \in 1..Len(xs) |-> F(xs[n])]

(**************************** validation ***********************************)
Known(m, t) == Has(m.shapes, t)
InPrelude(t) == NsOf(t) = "smithy.api"
Closed == {"service", "operation", "resource"}
\* A reference from a member, an input, an output, an error or an identifier: any data shape.
TypeRef(m, id, n, t) ==
  IF Known(m, t) THEN IF m.shapes[t].kind \in Closed THEN <<Issue("error", id, {id, n})>> ELSE <<>>
  ELSE IF InPrelude(t) THEN <<>> ELSE <<Issue("warning", id, {n, t})>>
\* A reference in the closure of a service or resource: exactly that kind.
KindRef(m, id, t, kind) ==
  IF Known(m, t) THEN IF m.shapes[t].kind # kind THEN <<Issue("error", id, {kind})>> ELSE <<>>
  ELSE IF InPrelude(t) THEN <<>> ELSE <<Issue("warning", id, {t})>>

OpRoles(kind) == IF kind = "service" THEN {"operations"}
                 ELSE {"operations", "collectionOperations", "create", "put", "read", "update", "delete", "list"}
ShapeRefIssues(m, id) ==
  LET sh == m.shapes[id] IN
  CASE sh.kind \in SimpleKinds -> IF sh.traits = NoFn \/ DOMAIN sh.traits = {} THEN <<Issue("info", id, {id})>> ELSE <<>>
    [] sh.kind \in {"list", "set", "map", "structure", "union"} ->
         Flat(Map1(LAMBDA n : TypeRef(m, id, n, sh.mem[n].t), SeqOf(DOMAIN sh.mem)))
    [] sh.kind = "operation" ->
         Flat(Map1(LAMBDA r : Flat(Map1(LAMBDA t : TypeRef(m, id, r, t), sh.refs[r])),
                   <<"input", "output", "errors">>))
    [] sh.kind \in {"service", "resource"} ->
         Flat(Map1(LAMBDA n : TypeRef(m, id, n, sh.idents[n]), SeqOf(DOMAIN sh.idents)))
         \o Flat(Map1(LAMBDA r : Flat(Map1(LAMBDA t : KindRef(m, id, t, "operation"), sh.refs[r])),
                      SeqOf(OpRoles(sh.kind))))
         \o Flat(Map1(LAMBDA t : KindRef(m, id, t, "resource"), sh.refs["resources"]))
    [] OTHER -> <<>>
ReferenceIssues(m) == Flat(Map1(LAMBDA id : ShapeRefIssues(m, id), SeqOf(DOMAIN m.shapes)))
UnresolvedIssues(m) == Map1(LAMBDA id : Issue("error", "", {id}), SeqOf(Unresolved(m)))

(******************************* words *************************************)
\* The words of an identifier: separated by underscores and by changes of case; a run of capitals
\* is one word, whose last letter begins the next word when a small letter follows.
IsLow(c) == c \in Lowers
IsUp(c) == c \in Uppers
RECURSIVE WordsFrom(_, _, _, _, _)
WordsFrom(s, i, start, mode, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == C(s, i) IN
  IF c = "_" THEN WordsFrom(s, i + 1, IF start = i THEN start + 1 ELSE start, mode, acc)
  ELSE IF i = Len(s) THEN Append(acc, SubSeq(s, start, i))
  ELSE LET nx == C(s, i + 1)
           nm == IF IsLow(c) THEN "low" ELSE IF IsUp(c) THEN "up" ELSE mode
       IN IF nx = "_" \/ (nm = "low" /\ IsUp(nx))
          THEN WordsFrom(s, i + 1, i + 1, "", Append(acc, SubSeq(s, start, i)))
          ELSE IF mode = "up" /\ IsUp(c) /\ IsLow(nx)
          THEN WordsFrom(s, i + 1, i, "", Append(acc, SubSeq(s, start, i - 1)))
          ELSE WordsFrom(s, i + 1, start, nm, acc)
Words(s) == Map1(Lower, WordsFrom(s, 1, 1, "", <<>>))
Capital(w) == UpperC(C(w, 1)) \o SubSeq(w, 2, Len(w))
RECURSIVE Concat(_)
Concat(xs) == IF xs = <<>> THEN "" ELSE Head(xs) \o Concat(Tail(xs))
UpperCamel(s) == Concat(Map1(Capital, Words(s)))
LowerCamel(s) == LET w == Words(s) IN IF w = <<>> THEN "" ELSE w[1] \o Concat(Map1(Capital, Tail(w)))

(******************************* linting ***********************************)
ShapeName(id, at) == LET n == NameOf(id) IN
  IF UpperCamel(n) # n THEN <<Issue("info", at, {UpperCamel(n)})>> ELSE <<>>
TraitName(id) == LET n == NameOf(id) IN
  IF LowerCamel(n) # n THEN <<Issue("info", id, {LowerCamel(n)})>> ELSE <<>>
MemberName(n, at) == IF LowerCamel(n) # n THEN <<Issue("info", at, {LowerCamel(n)})>> ELSE <<>>
Structured(sh) == sh.kind \in {"structure", "union"}
TraitNames(ts) == Flat(Map1(TraitName, SeqOf(DOMAIN ts)))
ShapeNameIssues(id, sh) ==
  (IF Has(sh.traits, "smithy.api#trait") THEN TraitName(id) ELSE ShapeName(id, id))
  \o TraitNames(sh.traits)
  \o (IF ~Structured(sh) THEN <<>>
      ELSE Flat(Map1(LAMBDA n : MemberName(n, id) \o ShapeName(sh.mem[n].t, sh.mem[n].t) \o TraitNames(sh.mem[n].traits),
                     SeqOf(DOMAIN sh.mem))))
NamingIssues(m) == Flat(Map1(LAMBDA id : ShapeNameIssues(id, m.shapes[id]), SeqOf(DOMAIN m.shapes)))

Unwelcome == {"blacklist", "kill", "master", "slave", "whitelist"}
\* <<identifier, shape id it is reported at>> for everything the terms linter looks at
IdParts(id) == LET p == ParseSid(id) IN
  {<<n, id>> : n \in ToSet(Split(p.ns, ".")) \cup {p.name} \cup ({p.mem} \ {""})}
ShapeTerms(id, sh) ==
  UNION {IdParts(x) : x \in {id} \cup DOMAIN sh.traits}
  \cup (IF ~Structured(sh) THEN {}
        ELSE {<<n, id>> : n \in DOMAIN sh.mem}
             \cup UNION {UNION {IdParts(x) : x \in {sh.mem[n].t} \cup DOMAIN sh.mem[n].traits} : n \in DOMAIN sh.mem})
Terms(m) == UNION {ShapeTerms(id, m.shapes[id]) : id \in DOMAIN m.shapes}
WordCount(i, w) == LET ws == Words(i) IN Cardinality({n \in 1..Len(ws) : ws[n] = w})
RECURSIVE SumWords(_, _)
SumWords(S, w) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN WordCount(i, w) + SumWords(S \ {i}, w)

(***************************** observations ********************************)
Contains(s, sub) == \E k \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, k, k + Len(sub) - 1) = sub
NumIn(xs, P(_)) == Cardinality({n \in 1..Len(xs) : P(xs[n])})
Meets(o, x) == o.level = x.level /\ o.locus = x.locus /\ \A t \in x.says : Contains(o.msg, t)
\* Identifiers are the same whatever the case of their letters.
LowObs(xs) == [n \in 1..Len(xs) |-> [xs[n] EXCEPT !.locus = Lower(@), !.msg = Lower(@)]]
LowExp(xs) == [n \in 1..Len(xs) |-> [xs[n] EXCEPT !.locus = Lower(@), !.says = {Lower(t) : t \in @}]]
\* The observed issues are the expected ones, as a bag.
SameIssues(obs, exp) ==
  /\ Len(obs) = Len(exp)
  /\ \A n \in 1..Len(obs) : \E k \in 1..Len(exp) : Meets(obs[n], exp[k])
  /\ \A k \in 1..Len(exp) : NumIn(obs, LAMBDA o : Meets(o, exp[k])) >= NumIn(exp, LAMBDA x : x = exp[k])
\* Every identifier with an unwelcome word is reported once per word, at some shape it occurs in.
TermsAgree(m, obs) ==
  LET ts == Terms(m)
      idents == {t[1] : t \in ts}
  IN /\ \A n \in 1..Len(obs) :
          /\ obs[n].level = "warning"
          /\ \E t \in ts, w \in Unwelcome : t[2] = obs[n].locus /\ WordCount(t[1], w) > 0 /\ Contains(obs[n].msg, "'" \o w \o "'")
     /\ \A w \in Unwelcome : NumIn(obs, LAMBDA o : Contains(o.msg, "'" \o w \o "'")) = SumWords(idents, w)
     /\ \A i \in idents, w \in Unwelcome : WordCount(i, w) > 0 =>
          \E n \in 1..Len(obs) : Contains(obs[n].msg, "'" \o w \o "'") /\ \E t \in ts : t[1] = i /\ t[2] = obs[n].locus
=============================================================================
