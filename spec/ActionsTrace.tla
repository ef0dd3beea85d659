---------------------------- MODULE ActionsTrace ----------------------------
EXTENDS Actions, Runner, TraceBase

\* The standard sets of actions are their parts in order.
FirstErr(xs) == \E n \in 1..Len(xs) : xs[n].level = "error"
ActionsConforms(e) ==
  CASE e.op \in {"references", "unresolved"} /\ e.fold ->
         LET x == LowExp(IF e.op = "references" THEN ReferenceIssues(e.model) ELSE UnresolvedIssues(e.model))
         IN e.r = "ok" /\ SameIssues(LowObs(e.issues), x) /\ SameIssues(LowObs(e.again), x)
    [] e.op \in {"references", "unresolved", "naming"} ->
         \* an action keeps nothing from one run to the next
         LET x == CASE e.op = "references" -> ReferenceIssues(e.model)
                    [] e.op = "unresolved" -> UnresolvedIssues(e.model)
                    [] OTHER -> NamingIssues(e.model)
         IN e.r = "ok" /\ SameIssues(e.issues, x) /\ SameIssues(e.again, x)
    [] e.op = "terms" -> e.r = "ok" /\ TermsAgree(e.model, e.issues) /\ TermsAgree(e.model, e.again)
    [] e.op = "words" -> \A n \in 1..Len(e.names) :
         LET s == e.names[n]
             o == e.out[n]
         IN /\ o.shape = (UpperCamel(s) # s) /\ o.member = (LowerCamel(s) # s) /\ o.tr = (LowerCamel(s) # s)
            /\ o.terms = SumWords({s}, "kill") + SumWords({s}, "master") + SumWords({s}, "slave")
                         + SumWords({s}, "blacklist") + SumWords({s}, "whitelist")
    [] e.op = "run" ->
         LET st == RunAll(e.acts, e.fast) IN
         /\ e.ran = [n \in 1..st.at |-> n]
         /\ IF st.failed THEN e.r = "err" /\ e.issues = <<>>
            ELSE e.r = "ok" /\ e.issues = st.issues
         /\ e.texts_ok
    [] e.op = "standard" ->
         \* validation: unresolved references, then wrong references; linting: naming, then terms
         LET u == UnresolvedIssues(e.model)
             r == ReferenceIssues(e.model)
             stop == e.fast /\ u # <<>>
         IN /\ e.r = "ok"
            /\ Len(e.validation) >= Len(u) /\ Len(e.lint) >= Len(NamingIssues(e.model))
            /\ SameIssues(SubSeq(e.validation, 1, Len(u)), u)
            /\ SameIssues(SubSeq(e.validation, Len(u) + 1, Len(e.validation)), IF stop THEN <<>> ELSE r)
            /\ LET k == Len(NamingIssues(e.model)) IN
               /\ SameIssues(SubSeq(e.lint, 1, k), NamingIssues(e.model))
               /\ TermsAgree(e.model, SubSeq(e.lint, k + 1, Len(e.lint)))
    [] OTHER -> FALSE
=============================================================================
