------------------------------- MODULE Render -------------------------------
(* Rendering a loaded project.

   Loading gives a project, a tree of tags with attributes.  Rendering a part
   of it to a target is a question about the project: the answer depends on
   the part, the target and the loaded project only, and the project is as it
   was afterwards.  The parts rendered with other attributes or contents for a
   target (like a width written in another way) are copies made for the answer.

   In the model a tag has attributes for all and for single targets and one
   part; a rendering collects from the outside in, in several steps, with
   working copies.  Several renderings, one inside of another, are under way at
   a time (a page in html includes images rendered from tex).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Shared, MaxWork

Targets == {"html", "tex"}
Values == 0..1

-----------------------------------------------------------------------------
VARIABLES tree, loaded, work, answers, case, step, verdict
vars == <<tree, loaded, work, answers, case, step, verdict>>
\* a tree is a sequence of tags, each part of the one before
Depth == 2
Trees == [1..Depth -> [general : Values, marked : UNION {[S -> Values] : S \in SUBSET Targets}]]
Seen(a, t) == IF t \in DOMAIN a.marked THEN a.marked[t] ELSE a.general
Answer(tr, n, t) == [i \in 1..Depth - n + 1 |-> Seen(tr[n + i - 1], t)]

Init == /\ tree \in Trees /\ loaded = tree /\ work = <<>> /\ answers = {} /\ case = 0 /\ step = 0 /\ verdict = "ok"
Begin == \E n \in 1..Depth, t \in Targets :
           /\ Len(work) < MaxWork
           /\ work' = Append(work, [n |-> n, t |-> t, at |-> n, got |-> <<>>]) /\ UNCHANGED <<tree, loaded, answers, case, step, verdict>>
\* collecting the attributes of the next tag: the values for the target are put in place in the working copy
Collect == \E i \in 1..Len(work) :
           LET w == work[i]
               own == [tree[w.at] EXCEPT !.general = Seen(tree[w.at], w.t)]
           IN /\ w.at <= Depth
              /\ work' = [work EXCEPT ![i].at = w.at + 1, ![i].got = Append(w.got, own.general)]
              /\ tree' = IF Shared THEN [tree EXCEPT ![w.at] = own] ELSE tree
              /\ UNCHANGED <<loaded, answers, case, step, verdict>>
Finish == \E i \in 1..Len(work) :
           /\ work[i].at > Depth /\ Cardinality(answers) < 2
           /\ answers' = answers \cup {[n |-> work[i].n, t |-> work[i].t, a |-> work[i].got]}
           /\ work' = SubSeq(work, 1, i - 1) \o SubSeq(work, i + 1, Len(work))
           /\ UNCHANGED <<tree, loaded, case, step, verdict>>
Next == Begin \/ Collect \/ Finish
Unchanged == tree = loaded
Pure == \A a \in answers : a.a = Answer(loaded, a.n, a.t)
Function == \A a, b \in answers : a.n = b.n /\ a.t = b.t => a.a = b.a

-----------------------------------------------------------------------------
(* Validation of recorded histories.  "fresh" events give the answers a newly
   loaded project gives to its first question, "load" what it looks like, the
   others are those of one project asked many questions.                     *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ tree = "" /\ loaded = "" /\ work = <<>> /\ answers = {}
Known(e) == {a.a : a \in {b \in answers : b.n = e.part /\ b.t = e.target}}
Judge(e) ==
  CASE e.e = "fresh" -> IF Known(e) \subseteq {e.result} THEN "ok" ELSE "two newly loaded projects give the same answer"
    [] e.e = "load" -> IF loaded \in {"", e.result} THEN "ok" ELSE "two newly loaded projects look the same"
    [] e.e = "render" -> IF Known(e) \subseteq {e.result} THEN "ok" ELSE "an answer depends on the questions before"
    [] e.e = "look" -> IF e.result = loaded THEN "ok" ELSE "rendering changed the project"
    [] e.e = "again" -> IF e.result = loaded THEN "ok" ELSE "loading again changed the unchanged project"
    [] OTHER -> "unknown event"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET e == Cases[case].steps[step + 1]
            IN /\ verdict' = Judge(e)
               /\ loaded' = IF e.e = "load" THEN e.result ELSE loaded
               /\ answers' = IF e.e \in {"fresh", "render"} THEN answers \cup {[n |-> e.part, t |-> e.target, a |-> e.result]} ELSE answers
         /\ step' = step + 1 /\ UNCHANGED <<case, tree, work>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict,
             expect |-> IF Cases[case].steps[step].e \in {"look", "again"} THEN {loaded} ELSE Known(Cases[case].steps[step])]))
=============================================================================
