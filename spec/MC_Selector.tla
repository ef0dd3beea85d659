---------------------------- MODULE MC_Selector ----------------------------
(* Every structure over small sets of parts, and every short sequence of      *)
(* tokens put into each frame of the grammar.                                 *)
EXTENDS Selector, Json
CONSTANTS MaxToks, Broad

RECURSIVE SeqOf(_)
SeqOf(A) == IF A = {} THEN <<>> ELSE LET x == CHOOSE y \in A : TRUE IN <<x>> \o SeqOf(A \ {x})
SeqsUpTo(A, lo, hi) == UNION {[1..n -> A] : n \in lo..hi}

(***************************** structures **********************************)
L(k, s) == N(k, s, <<>>)
AValues == {L("text", "a b"), L("text", "say \"so\""), L("text", "a\"b"), L("text", "'a"), L("int", "-7"), L("float", "2.5"), L("id", "i"), L("abs", "n.m#X")}
Few == {L("text", "it's"), L("int", "1"), L("id", "i")}
ASegs == AValues \cup {L("prop", "keys")}
AKeys == {N("key", "id", p) : p \in SeqsUpTo(ASegs, 0, 1)} \cup {N("key", "k_1", p) : p \in SeqsUpTo({L("id", "i"), L("prop", "values")}, 2, 2)}
Ops == {Comparators[n] : n \in 1..Len(Comparators)}
Cmps == {N(k, o, v) : k \in {"cmp", "cmpi"}, o \in Ops, v \in SeqsUpTo(AValues, 1, 1) \cup SeqsUpTo(Few, 2, 2)}
AAttrs == {N("attr", "", <<k>>) : k \in AKeys} \cup {N("attr", "", <<k, c>>) : k \in IF Broad THEN AKeys ELSE {L("key", "id")}, c \in Cmps}
ASVals == Few \cup {N("ctx", "", p) : p \in SeqsUpTo({L("id", "foo"), L("prop", "keys")}, 1, 2)}
AAsserts == {N(k, o, v) : k \in {"as", "asi"}, o \in IF Broad THEN Ops ELSE {"=", ">=", "{<<}"}, v \in SeqsUpTo(ASVals, 2, IF Broad THEN 3 ELSE 2)}
OneAs == N("as", "=", <<L("id", "i"), L("id", "i")>>)
Scopeds == {N("scoped", "", <<a>>) : a \in AAsserts} \cup {N("scopedk", "", <<k, a, OneAs>>) : k \in {L("key", "id"), N("key", "trait", <<L("prop", "keys")>>)}, a \in {N("asi", "<=", <<L("int", "1"), L("id", "i")>>), OneAs}}
Leaves == {L("shape", s) : s \in ShapeTypes \cup {"*"}} \cup {L("fwd", ""), L("rev", ""), L("rec", ""), L("ref", "v")}
          \cup {N(k, "", r) : k \in {"fwdd", "revd"}, r \in SeqsUpTo({L("rel", "input"), L("rel", "i")}, 1, 2)}
Sels1 == {N("sel", "", <<x>>) : x \in Leaves \cup AAttrs \cup Scopeds}
Part == {L("shape", "list"), L("shape", "*"), L("fwd", ""), L("rev", ""), L("ref", "v"), N("attr", "", <<L("key", "id")>>), N("fwdd", "", <<L("rel", "i")>>), N("revd", "", <<L("rel", "i")>>)}
Short == {N("sel", "", x) : x \in SeqsUpTo(Part, 1, 2)}
Funs == {N("fun", f, a) : f \in {"not", "my"}, a \in {<<x>> : x \in Short} \cup {<<x, N("sel", "", <<L("fwd", "")>>)>> : x \in Short}}
Defs == {N("def", "v", <<x>>) : x \in Short}
Deep == {N("sel", "", <<N("fun", "not", <<N("sel", "", <<f>>)>>), L("shape", "map")>>) : f \in Funs \cup Defs}
Trees == [leaf |-> Sels1, short |-> {N("sel", "", x) : x \in SeqsUpTo(Part, 2, 3)}, fun |-> {N("sel", "", <<x>>) : x \in Funs \cup Defs}, deep |-> Deep]

RECURSIVE JoinBy(_, _)
JoinBy(ts, s) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o s \o JoinBy(Tail(ts), s)
\* Printing and parsing are inverse, whatever stands between the tokens.
RoundTrip(x) == \A s \in {" ", "\n\t"} : Parse(JoinBy(Toks(x), s)) = Normal(x)

(******************************* texts *************************************)
Tokens == {"list", "foo", "i", "*", "*=", "=", ">=", ">", "<", "<-[", "-[", "]->", "]-", "~>", "[", "]", "[@", ":", "(", ")",
           "@{", "${", "$", "}", "|", ",", "&&", "'x'", "\"", "1", "-1.5", "a#b", ".", " ", "_", "{=}", "="}
Frames == {<<"", "">>, <<"[", "]">>, <<"[a", "]">>, <<"[a=", "]">>, <<"[@:", "]">>, <<"[@a: b = ", "]">>, <<":f(", ")">>, <<"$v(", ")">>, <<"-[", "]->">>, <<"<-[a", "]-">>, <<"[a|", "= 1]">>, <<"${", "}">>}
RECURSIVE Glue(_)
Glue(ts) == IF ts = <<>> THEN "" ELSE ts[1] \o Glue(Tail(ts))
TextsIn(f, first) == {f[1] \o first \o Glue(ts) \o f[2] : ts \in SeqsUpTo(Tokens, 0, MaxToks - 1)}

VARIABLE c
None == <<"", "">>
Chunk(A, n, of) == {A[k] : k \in {j \in DOMAIN A : j % of = n}}
Kinds == {"leaf", "short", "fun", "deep"}
TreeSeq == [k \in Kinds |-> SeqOf(Trees[k])]
Parts == 32
Init == c \in {[k |-> "texts", f |-> f, t |-> t, n |-> 0] : f \in Frames, t \in Tokens \cup {""}}
              \cup {[k |-> k, f |-> None, t |-> "", n |-> n] : k \in Kinds, n \in 0..(Parts - 1)}
Mine == IF c.k \in Kinds THEN Chunk(TreeSeq[c.k], c.n, Parts) ELSE {}
MyTexts == IF c.k = "texts" THEN TextsIn(c.f, c.t) ELSE {}
Next == /\ c.k # "done"
        /\ IF c.k = "texts" THEN PrintT("CASE " \o ToJson([texts |-> SeqOf(MyTexts)]))
           ELSE PrintT("CASE " \o ToJson([trees |-> SeqOf(Mine)]))
        /\ c' = [c EXCEPT !.k = "done"]
Inverse == \A x \in Mine : RoundTrip(x)
\* A text that is a selector prints and parses to itself.
Stable == \A t \in MyTexts : LET x == Parse(t) IN x # NoTree => Parse(JoinBy(Toks(x), " ")) = x
=============================================================================
