-------------------------------- MODULE Site --------------------------------
(* A project that is edited and built again.

   The files of a built project are a function of its sources: the documents,
   the files they use and the templates.  A build renders the pages whose
   recorded inputs are not those of now.  The pages are those of a build from
   scratch if the inputs that are recorded cover all a page depends on: the
   document itself, the other documents (numbers, titles, references, links,
   entries of including documents), the templates and the files used.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Covers, MaxOps

Docs == {"a", "b"}
Values == 0..1
Parts == {"own", "others", "template", "files"}

-----------------------------------------------------------------------------
VARIABLES text, template, image, included, pages, records, ran, ops, case, step, verdict, full
vars == <<text, template, image, included, pages, records, ran, ops, case, step, verdict, full>>
Current == IF included THEN Docs ELSE {"a"}
\* what a page is made of
Inputs(d) == [own |-> text[d], others |-> {<<e, text[e]>> : e \in Current \ {d}}, template |-> template, files |-> image]
Page(d) == Inputs(d)
Recorded(d) == [p \in Covers |-> Inputs(d)[p]]
None == [p \in {"none"} |-> 0]
Init == /\ text = [d \in Docs |-> 0] /\ template = 0 /\ image = 0 /\ included = FALSE
        /\ pages = [d \in Docs |-> None] /\ records = [d \in Docs |-> None] /\ ran = {} /\ ops = 0
        /\ case = 0 /\ step = 0 /\ verdict = "edited" /\ full = {}
Edit == /\ \/ \E d \in Docs, v \in Values : text' = [text EXCEPT ![d] = v] /\ UNCHANGED <<template, image, included>>
           \/ template' = 1 - template /\ UNCHANGED <<text, image, included>>
           \/ image' = 1 - image /\ UNCHANGED <<text, template, included>>
           \/ included' = ~included /\ UNCHANGED <<text, template, image>>
        /\ ops < MaxOps /\ ops' = ops + 1 /\ verdict' = "edited" /\ UNCHANGED <<pages, records, ran, case, step, full>>
Build == /\ ran' = {d \in Current : records[d] # Recorded(d) \/ pages[d] = None}
         /\ pages' = [d \in Docs |-> IF d \in ran' THEN Page(d) ELSE pages[d]]
         /\ records' = [d \in Docs |-> IF d \in ran' THEN Recorded(d) ELSE records[d]]
         /\ verdict' = IF verdict = "built" THEN "idle" ELSE "built"
         /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<text, template, image, included, case, step, full>>
Next == Edit \/ Build
AsFromScratch == verdict \in {"built", "idle"} => \A d \in Current : pages[d] = Page(d)
NothingToDo == verdict = "idle" => ran = {}

-----------------------------------------------------------------------------
(* Validation of recorded histories.  `full` collects what builds from scratch
   gave for the sources of now, `pages` the files of the project.            *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ full = {} /\ text = "" /\ pages = {} /\ ran = ""
         /\ template = 0 /\ image = 0 /\ included = FALSE /\ records = 0 /\ ops = 0
Range(s) == {s[i] : i \in 1..Len(s)}
Files(e) == {<<f[1], f[2]>> : f \in Range(e.files)}
Judge(e) ==
  CASE e.e = "edit" -> "ok"
    [] e.e = "build" -> "ok"
    [] e.e = "idle" -> IF e.sources # text THEN "unknown event"
                       ELSE IF e.result # "ok" THEN "building again without a change fails"
                       ELSE IF e.files # <<>> THEN "building again without a change runs steps" ELSE "ok"
    [] e.e = "fresh" -> IF e.sources # text THEN "unknown event"
                        ELSE IF (e.result = "ok") # (ran = "ok") THEN "a build fails where a build from scratch doesn't, or the other way round"
                        ELSE IF e.result = "ok" /\ ~(Files(e) \subseteq pages) THEN "files differ from those of a build from scratch" ELSE "ok"
    [] OTHER -> "unknown event"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET e == Cases[case].steps[step + 1]
            IN /\ verdict' = Judge(e)
               /\ text' = e.sources
               /\ pages' = IF e.e = "build" THEN Files(e) ELSE pages
               /\ ran' = IF e.e = "build" THEN e.result ELSE ran
               /\ full' = IF e.e = "fresh" THEN Files(e) \ pages ELSE full
         /\ step' = step + 1 /\ UNCHANGED <<case, template, image, included, records, ops>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> {f[1] : f \in full}]))
=============================================================================
