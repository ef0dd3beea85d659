------------------------------- MODULE Ident -------------------------------
(***************************************************************************)
(* Shape identifiers: which texts they are, what their parts are, and when  *)
(* two of them are equal.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

C(s, n) == SubSeq(s, n, n)
Chars(s) == {C(s, n) : n \in 1..Len(s)}
LowerS == "abcdefghijklmnopqrstuvwxyz"
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == Chars(LowerS)
Uppers == Chars(UpperS)
Alpha == Lowers \cup Uppers
Digits == Chars("0123456789")
Alnum == Alpha \cup Digits
LowerOf == [c \in Uppers |-> LET k == CHOOSE n \in 1..26 : C(UpperS, n) = c IN C(LowerS, k)]
UpperOf == [c \in Lowers |-> LET k == CHOOSE n \in 1..26 : C(LowerS, n) = c IN C(UpperS, k)]
LowerC(c) == IF c \in Uppers THEN LowerOf[c] ELSE c
UpperC(c) == IF c \in Lowers THEN UpperOf[c] ELSE c

RECURSIVE MapChars(_, _)
MapChars(F(_), s) == IF s = "" THEN "" ELSE F(C(s, 1)) \o MapChars(F, SubSeq(s, 2, Len(s)))
Lower(s) == MapChars(LowerC, s)

\* identifier = *"_" ALPHA *("_" / ALPHA / DIGIT)
IsIdent(s) ==
  \E k \in 1..Len(s) : /\ C(s, k) \in Alpha
                       /\ \A j \in 1..(k-1) : C(s, j) = "_"
                       /\ \A j \in (k+1)..Len(s) : C(s, j) \in Alnum \cup {"_"}

Positions(s, c) == {n \in 1..Len(s) : C(s, n) = c}
Min(S) == CHOOSE n \in S : \A k \in S : n <= k
RECURSIVE Split(_, _)
Split(s, c) == LET P == Positions(s, c) IN
  IF P = {} THEN <<s>>
  ELSE <<SubSeq(s, 1, Min(P) - 1)>> \o Split(SubSeq(s, Min(P) + 1, Len(s)), c)
RECURSIVE Join(_, _)
Join(xs, c) == IF xs = <<>> THEN "" ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o c \o Join(Tail(xs), c)

\* namespace = identifier *("." identifier)
IsNamespace(s) == LET p == Split(s, ".") IN \A n \in 1..Len(p) : IsIdent(p[n])

\* absolute shape id = namespace "#" identifier ["$" identifier]
NoSid == [ok |-> FALSE, ns |-> "", name |-> "", mem |-> ""]
ParseSid(s) ==
  LET h == Split(s, "#") IN
  IF Len(h) # 2 THEN NoSid
  ELSE LET d == Split(h[2], "$") IN
       IF Len(d) > 2 \/ ~IsNamespace(h[1]) \/ ~IsIdent(d[1]) \/ (Len(d) = 2 /\ ~IsIdent(d[2])) THEN NoSid
       ELSE [ok |-> TRUE, ns |-> h[1], name |-> d[1], mem |-> IF Len(d) = 2 THEN d[2] ELSE ""]
SidText(p) == p.ns \o "#" \o p.name \o (IF p.mem = "" THEN "" ELSE "$" \o p.mem)
IsMember(p) == p.mem # ""
ShapeOnly(p) == [p EXCEPT !.mem = ""]

\* Identifiers are compared without regard to case.
EqId(a, b) == Lower(a) = Lower(b)
EqSid(p, q) == EqId(p.ns, q.ns) /\ EqId(p.name, q.name) /\ EqId(p.mem, q.mem)
IsValidMember(p, q) == ~IsMember(p) /\ IsMember(q) /\ EqId(p.ns, q.ns) /\ EqId(p.name, q.name)
IsVersion(s) == s \in {"1", "1.0"}
\* A name in the text of a model: a shape id, or a single identifier.
NameKind(s) == IF ParseSid(s).ok THEN "qualified" ELSE IF IsIdent(s) THEN "local" ELSE "error"
=============================================================================
