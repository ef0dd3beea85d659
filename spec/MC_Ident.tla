------------------------------ MODULE MC_Ident ------------------------------
(* Every text over a small alphabet up to a length, and every pair of        *)
(* identifiers over a small set of parts.                                    *)
EXTENDS Ident, Json
CONSTANTS PrefixLen, SuffixLen

Letters == {"a", "B", "_", "1", ".", "#", "$", "-"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET S == Texts(n - 1) IN S \cup {s \o c : s \in {x \in S : Len(x) = n - 1}, c \in Letters}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Nss == {"a", "A", "a.b", "a.B", "ab", "A_", "a.b.c1"}
Nms == {"x", "X", "y", "_x"}
Mms == {"", "m", "M", "n"}
Sids == {[ok |-> TRUE, ns |-> n, name |-> s, mem |-> m] : n \in Nss, s \in Nms, m \in Mms}

\* Sets of identifiers that are near each other, to be ordered.
Triples == {SidText([ok |-> TRUE, ns |-> n, name |-> s, mem |-> m]) : n \in {"a", "B"}, s \in {"b", "A"}, m \in {"", "b"}}
           \cup {"A#b", "b#A", "b#a$B"}
VARIABLE c
Suffixes == Texts(SuffixLen)
Prefixes == {s \in Texts(PrefixLen) : Len(s) = PrefixLen}
Whole(p) == {p \o s : s \in Suffixes}
Init == c \in {<<"texts", p>> : p \in Prefixes} \cup {<<"short", "">>} \cup {<<"pairs", p>> : p \in Sids} \cup {<<"order", p>> : p \in SUBSET Triples}
Batch == CASE c[1] = "texts" -> Whole(c[2])
           [] c[1] = "short" -> Texts(PrefixLen)
           [] OTHER -> {}
Next == /\ c[1] # "done"
        /\ IF c[1] = "pairs"
           THEN PrintT("CASE " \o ToJson([pairs |-> SeqOf({<<SidText(c[2]), SidText(q)>> : q \in Sids})]))
           ELSE IF c[1] = "order"
           THEN c[2] # {} => PrintT("CASE " \o ToJson([order |-> SeqOf(c[2])]))
           ELSE PrintT("CASE " \o ToJson([texts |-> SeqOf(Batch)]))
        /\ c' = <<"done", "">>

\* A text is an identifier in at most one of the three senses that overlap only where they must.
Laws ==
  \A s \in Batch : LET p == ParseSid(s) IN
    /\ p.ok => SidText(p) = s /\ IsNamespace(p.ns) /\ IsIdent(p.name) /\ (IsMember(p) => IsIdent(p.mem))
    /\ IsIdent(s) => IsNamespace(s)
    /\ ~(p.ok /\ IsNamespace(s))
\* Printing and parsing are inverse; equality is an equivalence that Lower decides.
PairLaws ==
  c[1] = "pairs" => LET p == c[2] IN
    /\ ParseSid(SidText(p)) = p
    /\ EqSid(p, p)
    /\ \A q \in Sids : /\ EqSid(p, q) = EqSid(q, p)
                       /\ EqSid(p, q) = (Lower(SidText(p)) = Lower(SidText(q)))
                       /\ IsValidMember(p, q) => EqSid(p, ShapeOnly(q))
=============================================================================
