----------------------------- MODULE Assembler -----------------------------
(***************************************************************************)
(* Assembling a model from files.  A file system is a sequence of entries    *)
(*   [path, kind, to, fmt, model]                                            *)
(* where path is relative to the scratch directory "." and kind is           *)
(*   file  a file holding `model` in the format fmt ("json"/"smithy"), or    *)
(*         something no reader reads (fmt "bad"), or a file nobody may open  *)
(*         (fmt "locked")                                                    *)
(*   dir   a directory (fmt "locked": nobody may list it)                    *)
(*   link  a symbolic link to the path `to`                                  *)
(* A path without an entry leads nowhere.  A registry maps extensions, in    *)
(* lower case, to formats.                                                   *)
(*                                                                          *)
(* The state of an assembly is the set of paths still to look at, the        *)
(* directories listed, the files read, and the model so far; any path may be *)
(* the next one.                                                             *)
(***************************************************************************)
EXTENDS Model, Ident

LastOf(s, c) == IF HasChar(s, c) THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = c /\ \A j \in (i+1)..Len(s) : Ch(s, j) # c ELSE 0
Leaf(p) == SubSeq(p, LastOf(p, "/") + 1, Len(p))
DirOf(p) == LET n == LastOf(p, "/") IN IF n = 0 THEN "." ELSE SubSeq(p, 1, n - 1)
\* The extension: what follows the last dot of the name, in lower case; a leading dot starts none.
HasExt(p) == LastOf(Leaf(p), ".") > 1
ExtOf(p) == LET l == Leaf(p) IN Lower(SubSeq(l, LastOf(l, ".") + 1, Len(l)))
Registered(reg, p) == HasExt(p) /\ Has(reg, ExtOf(p))

EntriesAt(fs, p) == {n \in 1..Len(fs) : fs[n].path = p}
Nowhere == "nowhere"
\* Where a path leads, links followed; links that go round lead nowhere.
RECURSIVE Follow(_, _, _)
Follow(fs, p, fuel) ==
  IF p = "." THEN "."
  ELSE IF EntriesAt(fs, p) = {} \/ fuel = 0 THEN Nowhere
  ELSE LET e == fs[CHOOSE n \in EntriesAt(fs, p) : TRUE] IN
       IF e.kind = "link" THEN Follow(fs, e.to, fuel - 1) ELSE p
Resolve(fs, p) == Follow(fs, p, Len(fs) + 1)
EntryOf(fs, p) == fs[CHOOSE n \in EntriesAt(fs, p) : TRUE]
IsDir(fs, p) == LET c == Resolve(fs, p) IN c = "." \/ (c # Nowhere /\ EntryOf(fs, c).kind = "dir")
Locked(fs, c) == c # "." /\ EntryOf(fs, c).fmt = "locked"
Listing(fs, dir) == {fs[n].path : n \in {k \in 1..Len(fs) : DirOf(fs[k].path) = dir}}

(*************************** the machine ***********************************)
(* todo: paths to look at; seen: directories listed; files: files taken;     *)
(* acc: the model so far; bad: whether it has failed                          *)
Start(roots) == [todo |-> ToSet(roots), seen |-> {}, files |-> {}, acc |-> EmptyModel, bad |-> FALSE]
TakeFile(fs, reg, st, p, c) ==
  LET e == EntryOf(fs, c) IN
  IF e.fmt # reg[ExtOf(p)] THEN [st EXCEPT !.bad = TRUE, !.files = @ \cup {c}]
  ELSE IF MergeConflicts(st.acc, e.model) # {} THEN [st EXCEPT !.bad = TRUE, !.files = @ \cup {c}]
  ELSE [st EXCEPT !.acc = Merge(@, e.model), !.files = @ \cup {c}]
Look(fs, reg, st0, p) ==
  LET st == [st0 EXCEPT !.todo = @ \ {p}]
      c == Resolve(fs, p) IN
  IF c = Nowhere THEN [st EXCEPT !.bad = @ \/ Registered(reg, p)]
  ELSE IF IsDir(fs, p) THEN
     IF c \in st.seen THEN st
     ELSE IF Locked(fs, c) THEN [st EXCEPT !.bad = TRUE, !.seen = @ \cup {c}]
     ELSE [st EXCEPT !.seen = @ \cup {c}, !.todo = @ \cup Listing(fs, c)]
  ELSE IF ~Registered(reg, p) \/ c \in st.files THEN st
  ELSE TakeFile(fs, reg, st, p, c)

(******************** what must come of it, directly ***********************)
RECURSIVE Under(_, _, _)
\* all paths met from the paths ps, dirs already listed excepted
Under(fs, ps, seen) ==
  LET dirs == {Resolve(fs, p) : p \in {q \in ps : IsDir(fs, q)}} \ seen
      next == UNION {Listing(fs, d) : d \in {x \in dirs : ~Locked(fs, x)}} IN
  IF dirs = {} THEN ps ELSE ps \cup Under(fs, next, seen \cup dirs)
Met(fs, roots) == Under(fs, ToSet(roots), {})
FilePaths(fs, reg, roots) == {p \in Met(fs, roots) : ~IsDir(fs, p) /\ Registered(reg, p)}
Files(fs, reg, roots) == {Resolve(fs, p) : p \in FilePaths(fs, reg, roots)} \ {Nowhere}
Blocked(fs, roots) == \E p \in Met(fs, roots) : IsDir(fs, p) /\ Locked(fs, Resolve(fs, p))
Unreadable(fs, reg, roots) ==
  \/ Blocked(fs, roots)
  \/ \E p \in FilePaths(fs, reg, roots) :
       Resolve(fs, p) = Nowhere \/ EntryOf(fs, Resolve(fs, p)).fmt # reg[ExtOf(p)]
Clash(fs, fls) == \E a \in fls : \E b \in fls \ {a} : MergeConflicts(EntryOf(fs, a).model, EntryOf(fs, b).model) # {}
Fails(fs, reg, roots) == Unreadable(fs, reg, roots) \/ Clash(fs, Files(fs, reg, roots))
RECURSIVE MergeAll(_, _, _)
MergeAll(fs, fls, acc) ==
  IF fls = {} THEN acc
  ELSE LET f == CHOOSE x \in fls : TRUE IN MergeAll(fs, fls \ {f}, Merge(acc, EntryOf(fs, f).model))
Assembled(fs, reg, roots) == MergeAll(fs, Files(fs, reg, roots), EmptyModel)
=============================================================================
