------------------------------- MODULE Starter -------------------------------
(* Making a project from a starter.

   A command names a starter and a folder.  If the folder isn't empty the user
   is asked first, unless no questions are to be asked.  The files are copied
   one by one; a command that lists the starters or tells about one, that names
   none that exists or that is not confirmed copies nothing.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Files, Commands
Range(s) == {s[i] : i \in 1..Len(s)}
Names == {"one", "two"}
Answers == {"yes", "no", "end"}

VARIABLES starters, folder, before, copying, answer, did, left, case, step, verdict, want
vars == <<starters, folder, before, copying, answer, did, left, case, step, verdict, want>>
none == "none"
\* a folder maps the files it has to where their contents are from
Has(f) == {x \in Files : f[x] # none}
Clone(f, files, n) == [x \in Files |-> IF x \in files THEN n ELSE f[x]]
Init == /\ starters \in [Names -> SUBSET Files] /\ folder \in [Files -> {none, "mine"}] /\ before = folder
        /\ copying = {} /\ answer = none /\ did = none /\ left = Commands
        /\ case = 0 /\ step = 0 /\ verdict = "ok" /\ want = 0
\* a command: a starter (or an unknown one), what for, and whether questions are asked
Command == /\ copying = {} /\ did = none /\ left > 0
           /\ \E n \in Names \cup {"unknown"}, for \in {"clone", "tell", "list"}, ask \in BOOLEAN, a \in Answers :
                LET go == n \in Names /\ for = "clone" /\ (~ask \/ Has(folder) = {} \/ a = "yes")
                IN /\ did' = (IF go THEN n ELSE "nothing") /\ answer' = (IF ~ask THEN "unasked" ELSE a)
                   /\ copying' = IF go THEN starters[n] ELSE {}
           /\ before' = folder /\ left' = left - 1 /\ UNCHANGED <<starters, folder, case, step, verdict, want>>
Copy == /\ \E f \in copying : folder' = [folder EXCEPT ![f] = did] /\ copying' = copying \ {f}
        /\ UNCHANGED <<starters, before, answer, did, left, case, step, verdict, want>>
End == /\ copying = {} /\ did # none /\ did' = none /\ answer' = none
       /\ before' = folder /\ UNCHANGED <<starters, folder, copying, left, case, step, verdict, want>>
Next == Command \/ Copy \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Copy) /\ WF_vars(End)
Finished == copying = {} /\ did \in Names
Complete == Finished => folder = Clone(before, starters[did], did)
Untouched == did = "nothing" => folder = before
Confirmed == (folder # before /\ Has(before) # {}) => answer \in {"yes", "unasked"}
OnlyItsFiles == did \in Names => \A f \in Files \ starters[did] : folder[f] = before[f]
AllEnd == [](did # none => <>(did = none))

-----------------------------------------------------------------------------
(* Validation.  A step has the files (pairs of name and digest) of everything
   the command could reach before and after it, and those of the starter.     *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == /\ case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ want = {}
         /\ starters = 0 /\ folder = <<>> /\ before = 0 /\ copying = 0 /\ answer = 0 /\ did = 0 /\ left = 0
Pairs(q) == {<<x[1], x[2]>> : x \in Range(q)}
Firsts(S) == {x[1] : x \in S}
\* files have the names that they have from the folder above the destination
Put(e, s) == {<<e.dest \o "/" \o x[1], x[2]>> : x \in Pairs(s)}
Merge(old, new) == {x \in old : x[1] \notin Firsts(new)} \cup new
Starter(e) == LET m == {s \in Range(e.starters) : s.name = e.name} IN IF m = {} THEN <<>> ELSE (CHOOSE s \in m : TRUE).files
Known(e) == e.name \in {s.name : s \in Range(e.starters)}
Goes(e) == e.for = "clone" /\ Known(e) /\ (~e.ask \/ e.empty \/ e.answer = "yes")
After(e) == IF Goes(e) THEN Merge(Pairs(e.before), Put(e, Starter(e))) ELSE Pairs(e.before)
Judge(e, w) ==
  IF e.before # folder /\ folder # <<>> THEN "unknown event"
  ELSE IF e.e = "edit" THEN "ok"
  ELSE IF Pairs(e.after) # w
       THEN IF ~Known(e) THEN "files are written for a starter that doesn't exist"
            ELSE IF ~Goes(e) THEN "files are written without confirmation"
            ELSE IF Firsts(Pairs(e.after)) = Firsts(w) THEN "the contents of files differ from those of the starter"
            ELSE "the files differ from those of the starter"
  ELSE IF e.for = "clone" /\ (e.code = 0) # Known(e) /\ (Goes(e) \/ ~Known(e)) THEN "the result of the command is wrong"
  ELSE IF e.for = "list" /\ Range(e.names) # {s.name : s \in Range(e.starters)} THEN "the list of starters differs"
  ELSE IF e.for = "tell" /\ Known(e) /\ Range(e.names) # Firsts(Pairs(Starter(e))) THEN "the files told of a starter differ"
  ELSE IF e.for = "tell" /\ (e.code = 0) # Known(e) THEN "the result of the command is wrong"
  ELSE "ok"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET e == Cases[case].steps[step + 1]
                w == IF e.e = "edit" THEN Pairs(e.after) ELSE After(e)
            IN /\ verdict' = Judge(e, w) /\ folder' = e.after
               /\ want' = IF verdict' = "ok" THEN {} ELSE {x \in w : x \notin Pairs(e.after)} \cup {<<"extra", x[1]>> : x \in {y \in Pairs(e.after) : y \notin w}}
         /\ step' = step + 1 /\ UNCHANGED <<case, starters, before, copying, answer, did, left>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> want]))
=============================================================================
