------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* A registry of file types: which type reads files of an extension, and     *)
(* which type goes by a MIME type.  A type is its name, its MIME type (or    *)
(* "") and its reader.  Neither extensions nor MIME types heed case.         *)
(***************************************************************************)
EXTENDS Model, Ident
LOCAL INSTANCE Json
\* The letters beyond ASCII that occur here.
Beyond == JsonDeserialize("letters.json")
Low(s) == MapChars(LAMBDA c : IF Has(Beyond, c) THEN Beyond[c] ELSE LowerC(c), s)
FT(name, mime, rd) == [name |-> name, mime |-> mime, rd |-> rd]
NoType == FT("", "", "")
EmptyReg == [ext |-> NoFn, mime |-> NoFn]
DefaultReg == [ext |-> "json" :> FT("JSON AST", "", "json") @@ "smithy" :> FT("Smithy IDL", "", "smithy"), mime |-> NoFn]
Start(s) == IF s = "default" THEN DefaultReg ELSE EmptyReg
\* A call c names the extensions x and, unless it removes one, a type.
TypeOf(c) == FT(c.name, c.mime, c.rd)
Marked(r, c) == IF c.mime = "" THEN r.mime ELSE Put(r.mime, Low(c.mime), TypeOf(c))
RegStep(r, c) ==
  LET xs == {Low(c.x[n]) : n \in 1..Len(c.x)} IN
  CASE c.c \in {"register", "register_all"} ->
         [ext |-> [e \in DOMAIN r.ext \cup xs |-> IF e \in xs THEN TypeOf(c) ELSE r.ext[e]], mime |-> Marked(r, c)]
    [] c.c = "remove" -> [r EXCEPT !.ext = [e \in DOMAIN @ \ xs |-> @[e]]]
RECURSIVE RegAfter(_, _)
RegAfter(r, calls) == IF calls = <<>> THEN r ELSE RegAfter(RegStep(r, Head(calls)), Tail(calls))
At(f, k) == IF Has(f, Low(k)) THEN f[Low(k)] ELSE NoType
ByExt(r, x) == At(r.ext, x)
ByMime(r, x) == At(r.mime, x)
\* What each call gives back: the type that no longer goes by the extension.
Given(r, c) == IF c.c = "remove" THEN ByExt(r, c.x[1]) ELSE NoType
Shown(t) == "FileType{" \o t.name \o (IF t.mime = "" THEN "" ELSE ": " \o t.mime) \o "}"
=============================================================================
