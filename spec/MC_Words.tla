------------------------------ MODULE MC_Words ------------------------------
(* Every identifier over a small alphabet up to a length, as a shape, member *)
(* and trait name; laws of the two casing conventions.                      *)
EXTENDS Actions, Json
CONSTANTS PrefixLen, SuffixLen
Letters == {"a", "B", "_", "1"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE LET S == Texts(n - 1) IN S \cup {s \o c : s \in {x \in S : Len(x) = n - 1}, c \in Letters}
VARIABLE p
Init == p \in {s \in Texts(PrefixLen) : Len(s) = PrefixLen}
Names == {s \in {p \o x : x \in Texts(SuffixLen)} : IsIdent(s)}
TermNames == {c1 \o w \o c2 : c1 \in {"", "x", "X", "_", "a_", "A1"}, c2 \in {"", "x", "X", "_b", "9", "S"},
              w \in {"kill", "Kill", "KILL", "master", "Slave", "blacklist", "BlackList", "whitelist", "WHITELIST"}}
Next == /\ p # "done"
        /\ Names # {} => PrintT("CASE " \o ToJson([names |-> SeqOf(Names)]))
        /\ p = "aaa" => PrintT("CASE " \o ToJson([names |-> SeqOf({s \in TermNames : IsIdent(s)})]))
        /\ p' = "done"
\* Both conventions keep the letters, drop the underscores, and differ at most in the first letter.
Conventions == \A s \in (IF p = "done" THEN {} ELSE Names) :
  /\ Lower(UpperCamel(s)) = Lower(LowerCamel(s))
  /\ Concat(Words(s)) = Lower(UpperCamel(s))
  /\ \A c \in Chars(UpperCamel(s)) : c # "_"
  /\ Words(UpperCamel(s)) = Words(s) \/ \E w \in {Words(s)[n] : n \in 1..Len(Words(s))} : Len(w) = 1 \/ \E c \in Chars(w) : c = "1"
=============================================================================
