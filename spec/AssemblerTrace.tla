--------------------------- MODULE AssemblerTrace ---------------------------
(* Assemblies of real files.  got: for each way of naming the same paths, the  *)
(* outcome; files: the files the assembler says it will read; named: what it    *)
(* says it was given.                                                           *)
EXTENDS Assembler, TraceBase
XConforms(e) ==
  CASE e.op = "assemble" ->
         LET fails == Fails(e.fs, e.reg, e.roots)
             first == e.got[1] IN
         /\ \A n \in 1..Len(e.got) :
              IF fails THEN e.got[n].r = "err"
              ELSE e.got[n].r = "ok" /\ e.got[n].m = first.m
         \* what it was given, each path once
         /\ \A n \in 1..Len(e.named) :
              /\ ToSet(e.named[n].paths) = ToSet(e.roots)
              /\ Len(e.named[n].paths) = Cardinality(ToSet(e.roots)) /\ e.named[n].len = Len(e.named[n].paths)
              /\ e.named[n].empty = (e.roots = <<>>)
         /\ fails \/ SameModel(first.m, Assembled(e.fs, e.reg, e.roots))
         /\ Blocked(e.fs, e.roots)
            \/ ToSet(e.files) = {p \in Files(e.fs, e.reg, e.roots) : TRUE}
                                \cup {p \in FilePaths(e.fs, e.reg, e.roots) : Resolve(e.fs, p) = Nowhere}
    [] OTHER -> FALSE
=============================================================================
