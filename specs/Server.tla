-------------------------------- MODULE Server --------------------------------
(* The preview server of a project that is edited.

   A request for a page, or for the list of documents, brings the project up to
   date first; the answer is what a build of the sources of now gives.  A
   browser keeps answers with a mark of their contents and asks whether they
   are still good: it is told so only if they are.  Requests for anything else
   don't show files outside the folder that is served.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Edits, Requests
Range(s) == {s[i] : i \in 1..Len(s)}
Pages == {"one", "two"}
\* sources: the text of each page and whether they can be built
VARIABLES source, good, pages, kept, shown, edits, left, case, step, verdict, want
vars == <<source, good, pages, kept, shown, edits, left, case, step, verdict, want>>
nothing == [code |-> 0, page |-> "none", text |-> 0]
Init == /\ source = [p \in Pages |-> 0] /\ good = TRUE /\ pages = [p \in Pages |-> 0] /\ kept = [p \in Pages |-> -1]
        /\ shown = nothing /\ edits = Edits /\ left = Requests
        /\ case = 0 /\ step = 0 /\ verdict = "ok" /\ want = 0
Edit == /\ edits > 0 /\ edits' = edits - 1
        /\ \/ \E p \in Pages, v \in 0..2 : source' = [source EXCEPT ![p] = v] /\ UNCHANGED good
           \/ good' = ~good /\ UNCHANGED source
        /\ shown' = nothing /\ UNCHANGED <<pages, kept, left, case, step, verdict, want>>
Update == pages' = IF good THEN source ELSE pages
\* the mark of a page is its contents: nothing older answers for it
Request == /\ left > 0 /\ left' = left - 1 /\ Update
           /\ \E p \in Pages, ask \in BOOLEAN :
                IF ~good THEN shown' = [code |-> 500, page |-> p, text |-> 0] /\ UNCHANGED kept
                ELSE IF ask /\ kept[p] = pages'[p] THEN shown' = [code |-> 304, page |-> p, text |-> kept[p]] /\ UNCHANGED kept
                ELSE shown' = [code |-> 200, page |-> p, text |-> pages'[p]] /\ kept' = [kept EXCEPT ![p] = pages'[p]]
           /\ UNCHANGED <<source, good, edits, case, step, verdict, want>>
Next == Edit \/ Request
Current == shown.code \in {200, 304} => good /\ shown.text = source[shown.page]
Failing == shown.code = 500 => ~good
Recovers == (shown.page # "none" /\ good) => shown.code # 500

-----------------------------------------------------------------------------
(* Validation of recorded sessions.  `fresh` are the files of a build from
   scratch; `tree` the documents, each with the one that includes it.         *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == /\ case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ want = {}
         /\ source = "" /\ good = FALSE /\ pages = {} /\ kept = {} /\ shown = <<>> /\ edits = 0 /\ left = 0
Pairs(q) == {<<x[1], x[2]>> : x \in Range(q)}
RECURSIVE Listing(_, _, _), Below(_, _, _)
\* the documents below d, in their order, each with its level
Below(t, q, level) == IF q = <<>> THEN <<>> ELSE Listing(t, Head(q), level) \o Below(t, Tail(q), level)
Listing(t, d, level) == << <<d, level>> >> \o Below(t, SelectSeq([i \in 1..Len(t) |-> IF t[i][2] = d THEN t[i][1] ELSE ""], LAMBDA x : x # ""), level + 1)
Answers(path, S) == {x[2] : x \in {y \in S : y[1] = path}}
\* `old` are the pages of earlier sources, which may be left in the folders
Judge(e) ==
  CASE e.e = "edit" -> "ok"
    [] e.e = "page" -> IF e.inside = TRUE THEN "a file outside the served folder is shown"
         ELSE IF ~good THEN IF e.code = 500 THEN "ok" ELSE "a page is shown although the sources can't be built"
         ELSE IF Answers(e.path, pages) # {}
              THEN IF e.code \notin {200, 304} THEN "a page is not shown"
                   ELSE IF {e.digest} # Answers(e.path, pages) THEN "a page is not the one of the sources" ELSE "ok"
         ELSE IF e.path \in kept THEN IF e.code \in {200, 304, 404} THEN "ok" ELSE "the answer for a page that is gone"
         ELSE IF e.code # 404 THEN "an unknown page is not answered as unknown" ELSE "ok"
    [] e.e = "file" -> IF Answers(e.path, pages) # {} /\ edits = 1
                       THEN IF e.code \in {200, 304} /\ {e.digest} = Answers(e.path, pages) THEN "ok" ELSE "a file is not the one of the sources"
                       ELSE "ok"
    [] e.e = "source" -> IF e.code = 200 /\ e.same = TRUE THEN "ok" ELSE "a source is not shown as it is"
    [] e.e = "outside" -> IF e.inside = TRUE THEN "a file outside the served folder is shown"
                          ELSE IF e.code \in {400, 403, 404} THEN "ok" ELSE "a path outside the served folder is not refused"
    [] e.e = "unknown" -> IF e.code = 404 \/ (~good /\ e.code = 500) THEN "ok" ELSE "an unknown path is not answered as unknown"
    [] e.e = "list" -> IF ~good THEN IF e.code = 500 THEN "ok" ELSE "documents are listed although the sources can't be built"
                       ELSE IF e.code # 200 THEN "the documents are not listed"
                       ELSE IF [i \in 1..Len(e.rows) |-> <<e.rows[i][1], e.rows[i][2]>>] # Listing(shown, "a.dm", 1) THEN "the documents listed are not those of the project"
                       ELSE IF \E l \in Range(e.links) : Answers(l, pages) = {} THEN "the list has a link to a page that doesn't exist"
                       ELSE IF \E x \in pages : x[3] = TRUE /\ x[1] \notin Range(e.links) THEN "a page is not in the list" ELSE "ok"
    [] OTHER -> "unknown event"
Triples(q) == {<<x[1], x[2], x[3]>> : x \in Range(q)}
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET e == Cases[case].steps[step + 1]
            IN /\ verdict' = Judge(e)
               /\ IF e.e = "edit"
                  THEN /\ pages' = Triples(e.fresh) /\ good' = e.good /\ shown' = e.tree
                       /\ kept' = kept \cup {x[1] : x \in pages}
                  ELSE UNCHANGED <<pages, good, shown, kept>>
               \* the project is up to date after an answer to a request for a page or the list
               /\ edits' = IF e.e = "edit" THEN 0 ELSE IF e.e \in {"page", "list"} /\ e.code = 200 THEN 1 ELSE edits
               /\ want' = IF verdict' = "ok" THEN {} ELSE {<<e.e>>} \cup {<<x[1], x[2]>> : x \in {y \in pages : e.e = "page" /\ y[1] = e.path}}
         /\ step' = step + 1 /\ UNCHANGED <<case, source, left>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> want]))
=============================================================================
