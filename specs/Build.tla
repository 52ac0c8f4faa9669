------------------------------- MODULE Build -------------------------------
(* Build steps with a persistent record of successful runs, composed in chains and parallel groups.

   A step reads input files (and options) and writes one output file.  The record maps the content of a step's inputs to the content its
   output had after the last success with them; a step is up to date when its present inputs are recorded with its present output.
   A chain runs a step only when all earlier steps are up to date; a group imposes no order.  Processes end in any order, may fail or end
   without output; files are edited, deleted, truncated and restored; sessions end and are interrupted at any point.

   The engine (what may start, what is recorded, what status is reported) is the part bound to builders/*.py by validating recorded traces. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Scenario, MaxEnv            \* bounds of the exhaustive model

Absent == [c |-> "-", v |-> ""]       \* a content: core text and volatile part
Gone(x) == x.c = "-"

\* ------------------------------------------------------------------ structure
(* nodes: sequence of [t |-> "seq"|"par"|"leaf", kids |-> sequence of indexes, s |-> step name, chained, ins, out]; node 1 is the root *)
RECURSIVE Leaves(_, _)
Leaves(nodes, n) == IF nodes[n].t = "leaf" THEN {nodes[n].s} ELSE UNION {Leaves(nodes, nodes[n].kids[k]) : k \in DOMAIN nodes[n].kids}
RECURSIVE LeafSeq(_, _)
LeafSeq(nodes, n) == IF nodes[n].t = "leaf" THEN <<nodes[n].s>> ELSE FlattenSeq([k \in DOMAIN nodes[n].kids |-> LeafSeq(nodes, nodes[n].kids[k])])
Before(nodes, s) == UNION {UNION {Leaves(nodes, nodes[n].kids[i]) : i \in {i \in DOMAIN nodes[n].kids :
                                     \E j \in DOMAIN nodes[n].kids : i < j /\ s \in Leaves(nodes, nodes[n].kids[j])}} :
                           n \in {n \in DOMAIN nodes : nodes[n].t = "seq"}}

\* ------------------------------------------------------------------ steps
(* a state: files, rec (record), run (set of [s, key, ins]), fin (set of [s, key, outcome] not yet noticed), nodes, steps *)
File(st, f) == IF f \in DOMAIN st.files THEN st.files[f] ELSE Absent
Def(st, s) == st.steps[s]
Ins(st, s) == [k \in DOMAIN Def(st, s).ins |-> File(st, Def(st, s).ins[k].f)]
Out(st, s) == File(st, Def(st, s).out.f)
\* the volatile part of a PDF file is no content
Norm(file, x) == IF file.pdf THEN x.c ELSE x.c \o "~" \o x.v
Key(st, s) == [action |-> Def(st, s).action, opts |-> Def(st, s).opts, out |-> Def(st, s).out.f,
               ins |-> [k \in DOMAIN Def(st, s).ins |-> Norm(Def(st, s).ins[k], Ins(st, s)[k])]]
InsExist(st, s) == \A k \in DOMAIN Def(st, s).ins : ~Gone(Ins(st, s)[k])
Recorded(st, s) == \E r \in st.rec : r.key = Key(st, s) /\ r.out = Norm(Def(st, s).out, Out(st, s))
UpToDate(st, s) == InsExist(st, s) /\ ~Gone(Out(st, s)) /\ Recorded(st, s)

Join(q) == FoldLeft(LAMBDA a, x : a \o x.c \o ",", "", q)
Result(st, s, ins, nonce) ==
  CASE Def(st, s).kind = "copy" -> ins[1]
    [] Def(st, s).kind = "save" -> [c |-> Def(st, s).opts[1], v |-> ""]
    [] OTHER -> [c |-> Def(st, s).action \o "(" \o Join(ins) \o ")" \o nonce, v |-> ""]

Steps(st) == Leaves(st.nodes, 1)
AllDone(st) == \A s \in Steps(st) : UpToDate(st, s)
Running(st, s) == \E r \in st.run : r.s = s
\* the latest run of the step failed and nothing it reads has changed since
Ended_(st, s, outcome) == \E r \in st.fin : r.s = s /\ r.outcome = outcome /\ r.key = Key(st, s)
Failed(st, s) == Ended_(st, s, "fail")
MayStart(st, s) == ~Running(st, s) /\ ~UpToDate(st, s) /\ \A b \in Before(st.nodes, s) : UpToDate(st, b)
CanStart(st, s) == MayStart(st, s) /\ InsExist(st, s) /\ ~Failed(st, s) /\ ~Ended_(st, s, "noout")
Produced(st) == {Def(st, s).out.f : s \in Steps(st)}
MissingInput(st) == \E s \in Steps(st) : \E k \in DOMAIN Def(st, s).ins : Gone(Ins(st, s)[k]) /\ Def(st, s).ins[k].f \notin Produced(st)
AnyMissing(st) == \E s \in Steps(st) : ~InsExist(st, s) \/ (\E r \in st.fin : r.s = s /\ r.outcome = "noout")
AnyFailed(st) == \E s \in Steps(st) : Failed(st, s) /\ InsExist(st, s) /\ ~UpToDate(st, s) /\ \E r \in st.fin : r.s = s /\ ~r.old

\* ------------------------------------------------------------------ effects
SetFile(st, f, x) == [st EXCEPT !.files = (f :> x) @@ @]
Rec(st, s, key, out) == [st EXCEPT !.rec = {r \in @ : r.key # key} \cup {[key |-> key, out |-> Norm(Def(st, s).out, out)]}]
Started(st, s) == [st EXCEPT !.run = @ \cup {[s |-> s, key |-> Key(st, s), ins |-> Ins(st, s)]}, !.fin = {r \in @ : r.s # s}, !.count = @ + 1]
Ended(st, s, outcome, x) ==
  LET r == CHOOSE r \in st.run : r.s = s
      st1 == [st EXCEPT !.run = @ \ {r}, !.fin = {q \in @ : q.s # s} \cup {[s |-> s, key |-> r.key, outcome |-> outcome, old |-> FALSE]}]
  IN IF x.c = "unchanged" THEN st1 ELSE SetFile(st1, Def(st, s).out.f, x)
\* ends of processes are noticed: a success with unchanged inputs is recorded once its output is present
(* a failure may be forgotten once the inputs were seen to differ (old) *)
RECURSIVE Settle(_, _)
Settle(sx, q) ==
  LET st == IF q = <<>> THEN sx
            ELSE [sx EXCEPT !.fin = {IF r.s = Head(q) /\ r.outcome = "fail" /\ r.key # Key(sx, Head(q)) THEN [r EXCEPT !.old = TRUE] ELSE r : r \in @}]
  IN
  IF q = <<>> THEN st
  ELSE LET s == Head(q)
           f == {r \in st.fin : r.s = s /\ r.outcome \in {"ok", "noout"}}
           st1 == IF UpToDate(st, s) THEN [st EXCEPT !.fin = {r \in @ : r.s # s}]
                  ELSE IF f = {} THEN st
                  ELSE LET r == CHOOSE r \in f : TRUE
                       IN IF r.key # Key(st, s) THEN [st EXCEPT !.fin = @ \ {r}]
                          ELSE IF Gone(Out(st, s)) \/ ~InsExist(st, s) THEN st
                          ELSE Rec([st EXCEPT !.fin = @ \ {r}], s, r.key, Out(st, s))
       IN Settle(st1, Tail(q))
SettleAll(st) == Settle(st, LeafSeq(st.nodes, 1))

\* a step that is there more than once: one process stands for all of them
Repeated(st, s) == LET q == LeafSeq(st.nodes, 1) IN \E i, j \in DOMAIN q : i # j /\ q[i] = s /\ q[j] = s
\* the status a whole build may report
StatusOk(st, v) ==
  /\ (v = "done") <=> AllDone(st)
  /\ v = "error" => \E s \in Steps(st) : Failed(st, s) /\ ~UpToDate(st, s)
  /\ AnyFailed(st) => v \in {"error", "missing", "building"}
  /\ v = "building" => st.run # {}
  /\ v = "missing" => AnyMissing(st)
  /\ v = "ready" => \E s \in Steps(st) : MayStart(st, s) \/ (Running(st, s) /\ Repeated(st, s))
  /\ v \in {"done", "error", "building", "missing", "ready"}

\* its success is noticed at one place after another was asked
Lag(st, v) == v = "ready" /\ \E r \in st.fin : Repeated(st, r.s)

-----------------------------------------------------------------------------
(* The exhaustive model: all interleavings of the engine with edits, faults, ends of processes and interruptions *)
VARIABLES st, env, broken, case, step, verdict
vars == <<st, env, broken, case, step, verdict>>

L(s) == [t |-> "leaf", kids |-> <<>>, s |-> s]
Seq2 == [t |-> "seq", kids |-> <<2, 3>>, s |-> ""]
F(f) == [f |-> f, pdf |-> FALSE]
P(f) == [f |-> f, pdf |-> TRUE]
S(s, ins, out, kind) == [kind |-> kind, action |-> s, opts |-> <<>>, ins |-> ins, out |-> out]
Scen ==
  CASE Scenario = 1 -> [nodes |-> <<[Seq2 EXCEPT !.kids = <<2, 3, 4>>], L("a"), L("b"), L("c")>>,
                        steps |-> [x \in {"a", "b", "c"} |-> CASE x = "a" -> S("a", <<F("in")>>, F("m"), "cmd")
                                       [] x = "b" -> S("b", <<F("m")>>, F("n"), "cmd") [] OTHER -> S("c", <<F("n")>>, F("out"), "copy")]]
    [] Scenario = 2 -> [nodes |-> <<[Seq2 EXCEPT !.kids = <<2, 5>>], [t |-> "par", kids |-> <<3, 4>>, s |-> ""], L("a"), L("b"), L("c")>>,
                        steps |-> [x \in {"a", "b", "c"} |-> CASE x = "a" -> S("a", <<F("in")>>, F("m"), "cmd")
                                       [] x = "b" -> S("b", <<F("in")>>, F("n"), "cmd") [] OTHER -> S("c", <<F("m"), F("n")>>, F("out"), "cmd")]]
    [] OTHER -> [nodes |-> <<[t |-> "par", kids |-> <<2, 5>>, s |-> ""], [Seq2 EXCEPT !.kids = <<3, 4>>], L("a"), L("b"), L("c")>>,
                        steps |-> [x \in {"a", "b", "c"} |-> CASE x = "a" -> S("a", <<P("in")>>, F("m"), "cmd")
                                       [] x = "b" -> S("b", <<F("m")>>, F("n"), "cmd") [] OTHER -> S("c", <<P("in")>>, F("out"), "copy")]]
Start0 == [files |-> [f \in {"in"} |-> [c |-> "1", v |-> ""]], rec |-> {}, run |-> {}, fin |-> {}, count |-> 0] @@ Scen
Init == st = Start0 /\ env = MaxEnv /\ broken = FALSE /\ case = 0 /\ step = 0 /\ verdict = "ok"
Upd(x) == st' = [x EXCEPT !.count = 0] /\ UNCHANGED <<case, step, verdict>>
Used == {Def(st, s).out.f : s \in Steps(st)}

Edit == /\ env > 0 /\ env' = env - 1 /\ UNCHANGED broken
        /\ \/ \E c \in {"1", "2", "-"}, v \in {"", "x"} : (c = "-" => v = "") /\ Upd(SetFile(st, "in", [c |-> c, v |-> v]))
           \/ \E f \in Used, x \in {Absent, [c |-> "", v |-> ""]} :       \* outputs are deleted or truncated while nothing runs
                 st.run = {} /\ st.fin = {} /\ Upd(SetFile(st, f, x))
\* the session ends: nothing is running any more, interrupted outputs are left in any state, unnoticed ends are forgotten
Crash == /\ env > 0 /\ env' = env - 1 /\ UNCHANGED broken
         /\ \E half \in SUBSET {r.s : r \in st.run} :
              Upd([st EXCEPT !.run = {}, !.fin = {},
                             !.files = [f \in {Def(st, s).out.f : s \in half} |-> [c |-> "half", v |-> ""]] @@ @])
Begin(s) == CanStart(st, s) /\ (\A r \in st.fin : r.s # s) /\ Def(st, s).kind = "cmd" /\ Upd(Started(st, s)) /\ UNCHANGED <<env, broken>>
Sync(s) == /\ CanStart(st, s) /\ (\A r \in st.fin : r.s # s) /\ Def(st, s).kind # "cmd"
           /\ Upd(LET x == Result(st, s, Ins(st, s), "") IN Rec(SetFile(st, Def(st, s).out.f, x), s, Key(st, s), x)) /\ UNCHANGED <<env, broken>>
Finish(s) == /\ Running(st, s) /\ UNCHANGED broken
             /\ LET r == CHOOSE r \in st.run : r.s = s
                IN \/ Upd(Ended(st, s, "ok", Result(st, s, r.ins, ""))) /\ UNCHANGED env
                   \/ env > 0 /\ env' = env - 1 /\ \E x \in {[c |-> "unchanged", v |-> ""], [c |-> "half", v |-> ""]} : Upd(Ended(st, s, "fail", x))
                   \/ env > 0 /\ env' = env - 1 /\ Upd(SetFile(Ended(st, s, "noout", [c |-> "unchanged", v |-> ""]), Def(st, s).out.f, Absent))
Notice == SettleAll(st) # st /\ Upd(SettleAll(st)) /\ UNCHANGED <<env, broken>>
\* a failed command is tried again after the cause is gone (a new session)
Retry == \E r \in st.fin : r.outcome # "ok" /\ Upd([st EXCEPT !.fin = @ \ {r}]) /\ UNCHANGED <<env, broken>>
Next == Edit \/ Crash \/ Notice \/ Retry \/ \E s \in Steps(st) : Begin(s) \/ Sync(s) \/ Finish(s)
Fair == /\ WF_vars(Notice) /\ WF_vars(Retry)
        /\ \A s \in {"a", "b", "c"} : WF_vars(Begin(s)) /\ WF_vars(Sync(s)) /\ WF_vars(Finish(s))
Spec == Init /\ [][Next]_vars /\ Fair

\* what a build from scratch gives for a file
RECURSIVE Fresh(_, _)
Fresh(x, f) == IF \E s \in Steps(x) : Def(x, s).out.f = f
               THEN LET s == CHOOSE s \in Steps(x) : Def(x, s).out.f = f
                    IN Result(x, s, [k \in DOMAIN Def(x, s).ins |-> Fresh(x, Def(x, s).ins[k].f)], "")
               ELSE File(x, f)
\* a volatile difference of a PDF source need not reach its copies
Same(a, b) == a.c = b.c
DoneIsFresh == AllDone(st) => \A f \in Used : Same(File(st, f), Fresh(st, f))
RecordSound == \A r \in st.rec : r.out # "half~" /\ r.out # "~"
OneRun == \A a, b \in st.run : a.s = b.s => a = b
Recovers == <>[](MissingInput(st) \/ AllDone(st))

-----------------------------------------------------------------------------
(* Validation of traces recorded from the real builders *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == /\ case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ env = 0 /\ broken = FALSE
         /\ st = [files |-> Cases[case].files, rec |-> {}, run |-> {}, fin |-> {}, count |-> 0, nodes |-> <<>>, steps |-> <<>>,
                  could |-> FALSE, maybe |-> {}]

\* in a chained sequence each step reads the output of the one before, the first the inputs and the last writes the output of the chain
ChainOk(e) == \A n \in DOMAIN e.nodes :
  (e.nodes[n].t = "seq" /\ e.nodes[n].chained) =>
     LET q == LeafSeq(e.nodes, n)
         names(s) == [k \in DOMAIN e.steps[s].ins |-> e.steps[s].ins[k].f]
     IN /\ names(q[1]) = e.nodes[n].ins
        /\ \A k \in 1..(Len(q) - 1) : names(q[k + 1]) = <<e.steps[q[k]].out.f>>
        /\ e.steps[q[Len(q)]].out.f = e.nodes[n].out
     
Verdict(b, why) == IF b THEN "ok" ELSE why

\* result of one event: [st, v]
On(y0, e) ==
  LET x == IF e.e \in {"start", "sync"} THEN SettleAll(y0) ELSE y0 IN
  CASE e.e = "write" -> [st |-> SetFile(x, e.f, e.x), v |-> "ok"]
    [] e.e = "tree" -> [st |-> [x EXCEPT !.nodes = e.nodes, !.steps = e.steps, !.fin = {}, !.run = {}],
                        v |-> Verdict(ChainOk(e), "the steps of a chain do not read the output of the step before")]
    [] e.e = "start" ->
         [st |-> Started(x, e.s),
          v |-> IF Running(x, e.s) THEN "a step is started while it is running"
                ELSE IF UpToDate(x, e.s) THEN "a step is run although it is up to date"
                ELSE IF ~MayStart(x, e.s) THEN "a step is started before every earlier step is done"
                ELSE "ok"]
    [] e.e = "end" ->
         [st |-> Ended(x, e.s, e.outcome, e.x),
          v |-> IF ~Running(x, e.s) THEN "a step ended that was not started"
                ELSE LET r == CHOOSE r \in x.run : r.s = e.s
                     IN Verdict(e.outcome # "ok" \/ e.x = Result(x, e.s, r.ins, e.nonce), "a step did not consume its inputs")]
    [] e.e = "sync" ->
         [st |-> [Rec(SetFile(x, Def(x, e.s).out.f, e.x), e.s, Key(x, e.s), e.x) EXCEPT !.count = @ + 1, !.fin = {r \in @ : r.s # e.s}],
          v |-> IF UpToDate(x, e.s) THEN "a step is run although it is up to date"
                ELSE IF ~MayStart(x, e.s) THEN "a step is started before every earlier step is done"
                ELSE Verdict(e.x = Result(x, e.s, Ins(x, e.s), ""), "a step did not consume its inputs")]
    [] e.e = "begin" ->     \* a call of build() begins
         [st |-> [x EXCEPT !.count = 0, !.could = x.run = {} /\ (\E s \in Steps(x) : CanStart(x, s)) /\ ~AnyFailed(x) /\ ~MissingInput(x) /\ ~AnyMissing(SettleAll(x))], v |-> "ok"]
    [] e.e = "built" ->
         LET y == SettleAll(x)
         IN [st |-> y, v |-> IF x.could /\ x.count = 0 THEN "no step was started although one is needed and can run"
                             ELSE IF ~(StatusOk(y, e.v) \/ Lag(x, e.v)) THEN "status " \o e.v \o " after the build"
                             ELSE Verdict(~e.complete \/ e.v \notin {"ready", "building"}, "a complete build returned before it was finished")]
    [] e.e = "poll" -> LET y == SettleAll(x) IN [st |-> y, v |-> Verdict(StatusOk(y, e.v) \/ Lag(x, e.v), "status " \o e.v)]
    [] e.e = "leaf" -> LET y == Settle(x, <<e.s>>)      \* the status of a single step
                       IN [st |-> y, v |-> Verdict((e.v = "done") <=> UpToDate(y, e.s), "a step is reported " \o e.v)]
    [] e.e = "crash" ->     \* the process was stopped; the files found, and the steps that may have been run since the last known state
         [st |-> [x EXCEPT !.files = e.files, !.run = {}, !.fin = {}, !.maybe = Steps(x)],
          v |-> Verdict(\A f \in DOMAIN x.files : (\A s \in Steps(x) : Def(x, s).out.f # f) => (f \in DOMAIN e.files /\ e.files[f] = x.files[f]),
                        "an interrupted build changed a file that is no output")]
    [] e.e = "known" ->     \* after an interruption: the steps the program takes as up to date
         LET good == {s \in Steps(x) : s \in x.maybe /\ InsExist(x, s) /\ ~Gone(Out(x, s)) /\ Out(x, s) = Result(x, s, Ins(x, s), "")}
             done == {e.done[k] : k \in DOMAIN e.done}
             utd == {s \in Steps(x) : UpToDate(x, s)}
             add == {[key |-> Key(x, s), out |-> Norm(Def(x, s).out, Out(x, s))] : s \in done}
         IN [st |-> [x EXCEPT !.rec = {r \in @ : \A a \in add : a.key # r.key} \cup add, !.maybe = {}],
             v |-> IF ~(done \subseteq (utd \cup good)) THEN "a step is taken as up to date because of an interrupted attempt"
                   ELSE Verdict(utd \subseteq done, "a step that succeeded is not up to date in a later process")]
    [] e.e = "final" ->     \* everything was built again after the faults were gone
         [st |-> x, v |-> Verdict(\A s \in Steps(x) : Same(Out(x, s), Fresh(x, Def(x, s).out.f)) /\ e.files[Def(x, s).out.f] = Out(x, s),
                                  "the outputs differ from those of a build from scratch")]
    [] e.e = "files" ->
         [st |-> x, v |-> Verdict(\A f \in DOMAIN e.files : e.files[f] = File(x, f), "a file was changed by no step")]
    [] OTHER -> [st |-> x, v |-> "unknown event"]

TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET r == On(st, Cases[case].steps[step + 1]) IN st' = r.st /\ verdict' = r.v
         /\ step' = step + 1 /\ UNCHANGED <<env, broken, case>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict]))
=============================================================================
