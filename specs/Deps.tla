-------------------------------- MODULE Deps --------------------------------
(* Files that are named in documents and templates.

   A name is searched in the directories of a document, in their order; the
   first that holds a file of that name gives it.  A page or template refers
   to files by relative or absolute references, from its own folder or from
   the root; the files needed for a template are those of all templates that
   are reached from it, each visited once, however they refer to each other. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NDirs, Nodes

Range(s) == {s[i] : i \in 1..Len(s)}
-----------------------------------------------------------------------------
VARIABLES dirs, at, graph, queue, visited, count, found, case, step, verdict, want
vars == <<dirs, at, graph, queue, visited, count, found, case, step, verdict, want>>
\* the search: dirs[i] tells whether directory i holds the file
First(d) == IF \E i \in DOMAIN d : d[i] THEN CHOOSE i \in DOMAIN d : d[i] /\ \A j \in 1..i - 1 : ~d[j] ELSE 0
\* the templates: node n refers to graph[n]
RECURSIVE Close(_, _)
Close(g, S) == LET T == S \cup UNION {g[n] : n \in S} IN IF T = S THEN S ELSE Close(g, T)
Top == CHOOSE n \in Nodes : TRUE
Init == /\ dirs \in [1..NDirs -> BOOLEAN] /\ at = 1
        /\ graph \in [Nodes -> SUBSET Nodes] /\ queue = {Top} /\ visited = {} /\ count = [n \in Nodes |-> 0] /\ found = {}
        /\ case = 0 /\ step = 0 /\ verdict = "searching" /\ want = {}
Look == /\ verdict = "searching"
        /\ IF at > NDirs THEN verdict' = "none" /\ at' = at
           ELSE IF dirs[at] THEN verdict' = "found" /\ at' = at
           ELSE at' = at + 1 /\ verdict' = verdict
        /\ UNCHANGED <<dirs, graph, queue, visited, count, found, case, step, want>>
Visit == \E n \in queue :
           /\ visited' = visited \cup {n} /\ count' = [count EXCEPT ![n] = @ + 1]
           /\ found' = found \cup {n} /\ queue' = (queue \cup graph[n]) \ visited'
           /\ UNCHANGED <<dirs, at, graph, case, step, verdict, want>>
Next == Look \/ Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Look) /\ WF_vars(Visit)
TakesFirst == /\ verdict = "found" => at = First(dirs)
              /\ verdict = "none" => First(dirs) = 0
OnlyOnce == \A n \in Nodes : count[n] <= 1
Complete == queue = {} => found = Close(graph, {Top})
Ends == <>(verdict # "searching" /\ queue = {})

-----------------------------------------------------------------------------
(* Paths are sequences of names.  References that leave the root are not made. *)
RECURSIVE Walk(_, _)
Walk(done, p) == IF p = <<>> THEN done
                 ELSE IF Head(p) = ".." /\ done # <<>> THEN Walk(SubSeq(done, 1, Len(done) - 1), Tail(p))
                 ELSE IF Head(p) = "." THEN Walk(done, Tail(p)) ELSE Walk(Append(done, Head(p)), Tail(p))
Join(a, b) == Walk(<<>>, a \o b)
Missing == <<"missing">>
\* a reference r of a page in the folder d, with the files F
Resolve(r, d, F) ==
  LET own == Join(d, r.path)
      root == Join(<<>>, r.path)
      order == IF r.absolute THEN <<root, own>> ELSE <<own, root>>
  IN IF order[1] \in F THEN order[1] ELSE IF order[2] \in F THEN order[2] ELSE Missing
Local(refs) == {r \in Range(refs) : r.form = "file"}
Needs(refs, d, F) == {Resolve(r, d, F) : r \in Local(refs)}

Cases == JsonDeserialize(IOEnv.CASES)
TInit == /\ case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ want = {}
         /\ dirs = 0 /\ at = 0 /\ graph = 0 /\ queue = 0 /\ visited = 0 /\ count = 0 /\ found = 0
\* a find: the directories in their order, those which hold the name; the current directory comes last or not at all
FindWant(e) == LET d == [i \in 1..Len(e.dirs) |-> e.dirs[i] \in Range(e.holders)]
               IN IF First(d) # 0 THEN {e.dirs[First(d)]}
                  ELSE IF e.incwd THEN {"cwd", "error"} ELSE {"error"}
\* a scan of one page
ScanWant(e) == Needs(e.refs, e.dir, Range(e.files))
ScanOk(e) == LET w == ScanWant(e)
             IN IF Missing \in w THEN (IF e.strict THEN e.error ELSE ~e.error /\ Range(e.result) = w \ {Missing})
                ELSE ~e.error /\ Range(e.result) = w
\* a project with templates: nodes[i] has a root folder, a place in it, references, and templates it refers to (by number)
RECURSIVE Reach(_, _)
Reach(ns, S) == LET T == S \cup UNION {Range(ns[i].uses) : i \in S} IN IF T = S THEN S ELSE Reach(ns, T)
TreeWant(e) == UNION {Needs(e.nodes[i].refs, <<>>, Range(e.nodes[i].files)) : i \in Reach(e.nodes, {1})}
TreeOk(e) == LET w == TreeWant(e)
             IN IF Missing \in w THEN e.error
                ELSE ~e.error /\ w \subseteq Range(e.result) /\ Range(e.result) \subseteq w /\ e.dangling = <<>>
Judge(e) ==
  CASE e.e = "find" -> IF e.result \in FindWant(e) THEN "ok" ELSE "a file is not the one of the first directory that holds it"
    [] e.e = "scan" -> IF ScanOk(e) THEN "ok" ELSE "the files a page refers to differ"
    [] e.e = "tree" -> IF TreeOk(e) THEN "ok" ELSE "the files of the templates of a project differ"
    [] OTHER -> "unknown event"
Expect(e) == IF e.e = "find" THEN FindWant(e) ELSE IF e.e = "scan" THEN ScanWant(e) ELSE TreeWant(e)
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET e == Cases[case].steps[step + 1]
            IN verdict' = Judge(e) /\ want' = IF verdict' = "ok" THEN {} ELSE {<<w>> : w \in Expect(e)}
         /\ step' = step + 1 /\ UNCHANGED <<case, dirs, at, graph, queue, visited, count, found>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> want]))
=============================================================================
