------------------------------ MODULE Selector ------------------------------
(***************************************************************************)
(* Selector expressions: the grammar as a parser from texts to structures,  *)
(* and the printing of structures.  A structure is a tree of nodes          *)
(* [k, s, xs]: k the kind of node, s its name, operator or scalar, xs its   *)
(* children in order.                                                       *)
(*   sel(exprs)   shape s      attr(key [cmp])     scoped(asserts)          *)
(*   scopedk(key asserts)      fwd rev rec         fwdd revd(rel..)         *)
(*   fun s(sel..) def s(sel)   ref s               key s(seg..)             *)
(*   cmp/cmpi s(value..)       as/asi s(lhs rhs..) ctx(seg..)  prop s       *)
(*   text s  int s  float s  id s  abs s           rel s                    *)
(***************************************************************************)
EXTENDS Ident, Integers

N(k, s, xs) == [k |-> k, s |-> s, xs |-> xs]
Got(i, xs) == [ok |-> TRUE, i |-> i, xs |-> xs]
Fail == [ok |-> FALSE, i |-> 0, xs |-> <<>>]

White == {" ", "\t", "\n"}
At(t, i) == IF i <= Len(t) THEN C(t, i) ELSE ""
RECURSIVE Skip(_, _)
Skip(t, i) == IF At(t, i) \in White THEN Skip(t, i + 1) ELSE i
\* The first place at or after i where the character is not in S.
RECURSIVE Past(_, _, _)
Past(t, i, S) == IF i <= Len(t) /\ C(t, i) \in S THEN Past(t, i + 1, S) ELSE i
Cut(t, i, j) == SubSeq(t, i, j - 1)

(******************************* tokens ************************************)
Lit(t, i, s) == IF i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s THEN Got(i + Len(s), <<>>) ELSE Fail
\* The end of the identifier at i, or 0.
IdentEnd(t, i) ==
  LET a == Past(t, i, {"_"}) IN
  IF At(t, a) \in Alpha THEN Past(t, a, Alnum \cup {"_"}) ELSE 0
IdentAs(k, t, i) == LET e == IdentEnd(t, i) IN IF e = 0 THEN Fail ELSE Got(e, <<N(k, Cut(t, i, e), <<>>)>>)
RECURSIVE NamespaceEnd(_, _)
NamespaceEnd(t, i) ==
  LET e == IdentEnd(t, i) IN
  IF e = 0 THEN 0
  ELSE IF At(t, e) = "." THEN LET f == NamespaceEnd(t, e + 1) IN IF f = 0 THEN e ELSE f
  ELSE e
Absolute(t, i) ==
  LET e == NamespaceEnd(t, i) IN
  IF e = 0 \/ At(t, e) # "#" THEN Fail
  ELSE LET f == IdentEnd(t, e + 1) IN IF f = 0 THEN Fail ELSE Got(f, <<N("abs", Cut(t, i, f), <<>>)>>)

QuotedBy(q, t, i) ==
  IF At(t, i) # q THEN Fail
  ELSE LET RECURSIVE End(_)
           End(j) == IF j > Len(t) THEN 0
                     ELSE IF C(t, j) = q THEN j
                     ELSE IF C(t, j) \in {"\\", "\t", "\n", "\r", "\f"} THEN 0 ELSE End(j + 1)
           e == End(i + 1)
       IN IF e = 0 \/ e = i + 1 THEN Fail ELSE Got(e + 1, <<N("text", Cut(t, i + 1, e), <<>>)>>)

(******************************* numbers ***********************************)
DigitOf(c) == (CHOOSE n \in 1..10 : C("0123456789", n) = c) - 1
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE NatOf(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitOf(C(s, Len(s)))
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = "" THEN TRUE
             ELSE IF C(a, 1) = C(b, 1) THEN Leq(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
             ELSE DigitOf(C(a, 1)) < DigitOf(C(b, 1))
\* A number's text, as [end, sign, int, frac, exponent, floating].
Number(t, i) ==
  LET n == IF At(t, i) = "-" THEN i + 1 ELSE i
      ie == IF At(t, n) = "0" THEN n + 1 ELSE Past(t, n, Digits)
      fe == IF At(t, ie) = "." /\ At(t, ie + 1) \in Digits THEN Past(t, ie + 1, Digits) ELSE ie
      es == IF At(t, fe + 1) \in {"+", "-"} THEN fe + 2 ELSE fe + 1
      ee == IF At(t, fe) \in {"e", "E"} /\ At(t, es) \in Digits THEN Past(t, es, Digits) ELSE fe
      x == IF ee = fe THEN 0 ELSE NatOf(Cut(t, es, ee))
  IN [ok |-> At(t, n) \in Digits, i |-> ee, neg |-> n > i, int |-> Cut(t, n, ie),
      frac |-> IF fe = ie THEN "" ELSE Cut(t, ie + 1, fe),
      x |-> IF ee # fe /\ At(t, fe + 1) = "-" THEN 0 - x ELSE x,
      floating |-> ee # ie]
RECURSIVE Lead(_)
Lead(s) == IF s # "" /\ C(s, 1) = "0" THEN Lead(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE Trail(_)
Trail(s) == IF s # "" /\ C(s, Len(s)) = "0" THEN Trail(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* The value of a floating number as <<sign, digits, exponent>> written out: equal texts, equal values.
FloatText(n) ==
  LET d == Lead(n.int \o n.frac)
      z == Trail(d)
      x == n.x - Len(n.frac) + (Len(d) - Len(z))
  IN IF z = "" \/ Len(z) + x < 0 - 330 THEN "0" ELSE (IF n.neg THEN "-" ELSE "") \o z \o "e" \o ToString(x)
TooBig(n) == LET d == Lead(n.int \o n.frac) IN d # "" /\ Len(d) + n.x - Len(n.frac) > 309
IntMax(n) == IF n.neg THEN "9223372036854775808" ELSE "9223372036854775807"
IntFits(n) == Len(n.int) < 19 \/ (Len(n.int) = 19 /\ Leq(n.int, IntMax(n)))
IntText(n) == IF n.int = "0" THEN "0" ELSE (IF n.neg THEN "-" ELSE "") \o n.int
\* A number that the representation cannot hold is an error of the whole text (k = "bad").
NumberVal(t, i) ==
  LET n == Number(t, i) IN
  IF ~n.ok THEN Fail
  ELSE IF n.floating THEN Got(n.i, <<IF TooBig(n) THEN N("bad", "", <<>>) ELSE N("float", FloatText(n), <<>>)>>)
  ELSE Got(n.i, <<IF IntFits(n) THEN N("int", IntText(n), <<>>) ELSE N("bad", "", <<>>)>>)
RECURSIVE Bad(_)
Bad(x) == x.k = "bad" \/ \E n \in 1..Len(x.xs) : Bad(x.xs[n])
\* The same tree with its floating numbers in the form above.
RECURSIVE Normal(_)
Normal(x) == IF x.k = "float" THEN N("float", FloatText(Number(x.s, 1)), <<>>)
             ELSE [x EXCEPT !.xs = [n \in 1..Len(x.xs) |-> Normal(x.xs[n])]]

(****************************** grammar ************************************)
\* Sequence (with white space between), choice, option, and a separated list.
Then(t, r, P(_, _)) == IF ~r.ok THEN Fail ELSE LET q == P(t, Skip(t, r.i)) IN IF q.ok THEN Got(q.i, r.xs \o q.xs) ELSE Fail
ThenLit(t, r, s) == IF ~r.ok THEN Fail ELSE LET q == Lit(t, Skip(t, r.i), s) IN IF q.ok THEN Got(q.i, r.xs) ELSE Fail
ThenOpt(t, r, P(_, _)) == IF ~r.ok THEN Fail ELSE LET q == P(t, Skip(t, r.i)) IN IF q.ok THEN Got(q.i, r.xs \o q.xs) ELSE r
Or(a, b) == IF a.ok THEN a ELSE b
As(k, s, r) == IF r.ok THEN Got(r.i, <<N(k, s, r.xs)>>) ELSE Fail
ShapeTypes == {"number", "simpleType", "collection", "blob", "boolean", "document", "string", "integer", "byte",
               "short", "long", "float", "double", "bigDecimal", "bigInteger", "timestamp", "list", "set", "map",
               "structure", "union", "service", "operation", "resource", "member"}
Comparators == <<"=", "!=", "^=", "$=", "*=", "?=", ">=", ">", "<=", "<", "{=}", "{!=}", "{<}", "{<<}">>

Ident(t, i) == IdentAs("id", t, i)
Rel(t, i) == IdentAs("rel", t, i)
SelValue(t, i) == Or(QuotedBy("'", t, i), Or(QuotedBy("\"", t, i), Or(NumberVal(t, i), Or(Absolute(t, i), Ident(t, i)))))
Prop(t, i) == LET r == ThenLit(t, Then(t, Lit(t, i, "("), Ident), ")") IN
  IF r.ok THEN Got(r.i, <<N("prop", r.xs[1].s, <<>>)>>) ELSE Fail
Segment(t, i) == Or(SelValue(t, i), Prop(t, i))
\* P separated by s, appended to r: one operator per kind of item, as operators may not recur over operators.
RECURSIVE Segs(_, _), Rels(_, _), Vals(_, _)
More(t, r, s, P(_, _)) == Then(t, ThenLit(t, r, s), P)
Segs(t, r) == LET q == More(t, r, "|", Segment) IN IF q.ok THEN Segs(t, q) ELSE r
Rels(t, r) == LET q == More(t, r, ",", Rel) IN IF q.ok THEN Rels(t, q) ELSE r
Vals(t, r) == LET q == More(t, r, ",", SelValue) IN IF q.ok THEN Vals(t, q) ELSE r
Key(t, i) ==
  LET r == Ident(t, i) IN
  IF ~r.ok THEN Fail ELSE As("key", r.xs[1].s, Segs(t, Got(r.i, <<>>)))
RECURSIVE CompAt(_, _, _)
CompAt(t, i, n) ==
  IF n > Len(Comparators) THEN Fail
  ELSE LET r == Lit(t, i, Comparators[n]) IN IF r.ok THEN Got(r.i, <<N("op", Comparators[n], <<>>)>>) ELSE CompAt(t, i, n + 1)
Comp(t, i) == CompAt(t, i, 1)
\* What follows the operator: the values and the optional suffix.
Rest(t, c, k, Vs(_, _), P(_, _), lhs) ==
  IF ~c.ok THEN Fail
  ELSE LET v == Then(t, Got(c.i, <<>>), P)
           vs == IF v.ok THEN Vs(t, v) ELSE Fail
           i2 == IF vs.ok THEN Lit(t, Skip(t, vs.i), "i") ELSE Fail
       IN IF ~vs.ok THEN Fail
          ELSE IF i2.ok THEN Got(i2.i, <<N(k \o "i", c.xs[1].s, lhs \o vs.xs)>>)
          ELSE Got(vs.i, <<N(k, c.xs[1].s, lhs \o vs.xs)>>)
Comparison(t, i) == Rest(t, Comp(t, i), "cmp", Vals, SelValue, <<>>)
Attr(t, i) == As("attr", "", ThenLit(t, ThenOpt(t, Then(t, Lit(t, i, "["), Key), Comparison), "]"))

Context(t, i) == As("ctx", "", ThenLit(t, Segs(t, Then(t, Lit(t, i, "@{"), Segment)), "}"))
ScopedVal(t, i) == Or(SelValue(t, i), Context(t, i))
RECURSIVE SVals(_, _), Asserts(_, _)
SVals(t, r) == LET q == More(t, r, ",", ScopedVal) IN IF q.ok THEN SVals(t, q) ELSE r
Assertion(t, i) ==
  LET l == ScopedVal(t, i) IN
  IF ~l.ok THEN Fail ELSE Rest(t, Comp(t, Skip(t, l.i)), "as", SVals, ScopedVal, l.xs)
Asserts(t, r) == LET q == More(t, r, "&&", Assertion) IN IF q.ok THEN Asserts(t, q) ELSE r
Assertions(t, r) == ThenLit(t, Asserts(t, Then(t, ThenLit(t, r, ":"), Assertion)), "]")
Scoped(t, i) ==
  LET o == Lit(t, i, "[@")
      k == IF o.ok THEN Key(t, Skip(t, o.i)) ELSE Fail
  IN IF k.ok THEN As("scopedk", "", Assertions(t, k)) ELSE As("scoped", "", Assertions(t, o))

ShapeOf(t, i) ==
  IF At(t, i) = "*" THEN Got(i + 1, <<N("shape", "*", <<>>)>>)
  ELSE LET r == Ident(t, i) IN
       IF ~r.ok THEN Fail
       ELSE Got(r.i, <<IF r.xs[1].s \in ShapeTypes THEN N("shape", r.xs[1].s, <<>>) ELSE N("bad", "", <<>>)>>)
Directed(t, i, open, close, k) == As(k, "", ThenLit(t, Rels(t, Then(t, Lit(t, i, open), Rel)), close))
VarGet(t, i) == LET r == ThenLit(t, Then(t, Lit(t, i, "${"), Ident), "}") IN
  IF r.ok THEN Got(r.i, <<N("ref", r.xs[1].s, <<>>)>>) ELSE Fail

RECURSIVE Expr(_, _), Exprs(_, _), Sel(_, _), SelList(_, _)
Named(t, i, open) == ThenLit(t, Then(t, Lit(t, i, open), Ident), "(")
Fun(t, i) ==
  LET h == Named(t, i, ":") IN
  IF ~h.ok THEN Fail ELSE As("fun", h.xs[1].s, ThenLit(t, SelList(t, Skip(t, h.i)), ")"))
VarSet(t, i) ==
  LET h == Named(t, i, "$")
      b == IF h.ok THEN Sel(t, Skip(t, h.i)) ELSE Fail
  IN IF ~h.ok THEN Fail ELSE As("def", h.xs[1].s, ThenLit(t, b, ")"))
SelList(t, i) ==
  LET a == Sel(t, i)
      c == ThenLit(t, a, ",")
      b == IF c.ok THEN SelList(t, Skip(t, c.i)) ELSE Fail
  IN IF ~a.ok THEN Fail ELSE IF c.ok /\ b.ok THEN Got(b.i, a.xs \o b.xs) ELSE a
Expr(t, i) ==
  Or(ShapeOf(t, i), Or(Attr(t, i), Or(Scoped(t, i), Or(Fun(t, i),
  Or(Directed(t, i, "-[", "]->", "fwdd"), Or(Directed(t, i, "<-[", "]-", "revd"),
  Or(As("fwd", "", Lit(t, i, ">")), Or(As("rev", "", Lit(t, i, "<")), Or(As("rec", "", Lit(t, i, "~>")),
  Or(VarSet(t, i), VarGet(t, i)))))))))))
Exprs(t, i) ==
  LET a == Expr(t, i)
      b == IF a.ok THEN Exprs(t, Skip(t, a.i)) ELSE Fail
  IN IF ~a.ok THEN Fail ELSE IF b.ok THEN Got(b.i, a.xs \o b.xs) ELSE a
Sel(t, i) == As("sel", "", Exprs(t, i))

NoTree == N("none", "", <<>>)
\* The structure a text denotes, or NoTree when it is not a selector.
Parse(t) ==
  LET r == Sel(t, Skip(t, 1)) IN
  IF ~r.ok \/ Skip(t, r.i) <= Len(t) THEN NoTree
  ELSE IF Bad(r.xs[1]) THEN NoTree ELSE r.xs[1]

(****************************** printing ***********************************)
HasC(s, c) == \E n \in 1..Len(s) : C(s, n) = c
\* Texts that can be written: the grammar has no escapes.
Writable(s) == Len(s) > 0 /\ ~HasC(s, "\\") /\ ~HasC(s, "\t") /\ ~HasC(s, "\n") /\ ~HasC(s, "\r") /\ ~HasC(s, "\f") /\ ~(HasC(s, "\"") /\ HasC(s, "'"))
RECURSIVE Toks(_), Sep(_, _)
Sep(xs, s) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN Toks(xs[1]) ELSE Toks(xs[1]) \o <<s>> \o Sep(Tail(xs), s)
RECURSIVE Flat(_)
Flat(xs) == IF xs = <<>> THEN <<>> ELSE Toks(xs[1]) \o Flat(Tail(xs))
\* The tokens of a structure; any white space may be put between them.
Toks(x) ==
  CASE x.k = "sel" -> Flat(x.xs)
    [] x.k \in {"shape", "int", "float", "id", "abs", "rel"} -> <<x.s>>
    [] x.k = "text" -> <<IF HasC(x.s, "\"") THEN "'" \o x.s \o "'" ELSE "\"" \o x.s \o "\"">>
    [] x.k = "attr" -> <<"[">> \o Flat(x.xs) \o <<"]">>
    [] x.k = "key" -> IF x.xs = <<>> THEN <<x.s>> ELSE <<x.s, "|">> \o Sep(x.xs, "|")
    [] x.k = "prop" -> <<"(", x.s, ")">>
    [] x.k = "cmp" -> <<x.s>> \o Sep(x.xs, ",")
    [] x.k = "cmpi" -> <<x.s>> \o Sep(x.xs, ",") \o <<"i">>
    [] x.k = "as" -> Toks(x.xs[1]) \o <<x.s>> \o Sep(Tail(x.xs), ",")
    [] x.k = "asi" -> Toks(x.xs[1]) \o <<x.s>> \o Sep(Tail(x.xs), ",") \o <<"i">>
    [] x.k = "ctx" -> <<"@{">> \o Sep(x.xs, "|") \o <<"}">>
    [] x.k = "scoped" -> <<"[@", ":">> \o Sep(x.xs, "&&") \o <<"]">>
    [] x.k = "scopedk" -> <<"[@">> \o Toks(x.xs[1]) \o <<":">> \o Sep(Tail(x.xs), "&&") \o <<"]">>
    [] x.k = "fwd" -> <<">">>
    [] x.k = "rev" -> <<"<">>
    [] x.k = "rec" -> <<"~>">>
    [] x.k = "fwdd" -> <<"-[">> \o Sep(x.xs, ",") \o <<"]->">>
    [] x.k = "revd" -> <<"<-[">> \o Sep(x.xs, ",") \o <<"]-">>
    [] x.k = "fun" -> <<":", x.s, "(">> \o Sep(x.xs, ",") \o <<")">>
    [] x.k = "def" -> <<"$", x.s, "(">> \o Flat(x.xs) \o <<")">>
    [] x.k = "ref" -> <<"${", x.s, "}">>
=============================================================================
