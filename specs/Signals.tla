------------------------------ MODULE Signals ------------------------------
(* Event registries: named signals, each a partial map from an order number to a handler.
   Handlers are weakly or strongly held; a weakly held handler that is dropped by its owner is dead.
   A tag-level switch map disables handlers by their name for one emission.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS SigNames, Orders, Hids, MaxLen      \* bounds of the generator

\* a state: [reg |-> set of [sig, order, hid, weak], dead |-> set of hids, names |-> set of created signal names]
Empty == [reg |-> {}, dead |-> {}]

At(st, s, o) == {r \in st.reg : r.sig = s /\ r.order = o}
\* a handler is gone when its owner dropped it and nothing holds it strongly
Live(st, r) == r.hid \notin st.dead \/ \E x \in st.reg : x.hid = r.hid /\ ~x.weak
Of(st, s) == {r \in st.reg : r.sig = s}

RECURSIVE Ordered(_)
Ordered(rs) == IF rs = {} THEN <<>>
               ELSE LET m == CHOOSE r \in rs : \A x \in rs : r.order <= x.order
                    IN <<m>> \o Ordered(rs \ {m})

\* switches: a set of records [name, on]; a handler called h is disabled iff [name |-> h, on |-> FALSE] is present
Enabled(h, sw) == [name |-> h, on |-> FALSE] \notin sw
Called(st, s, sw) == SelectSeq(Ordered({r \in Of(st, s) : Live(st, r)}), LAMBDA r : Enabled(r.hid, sw))
Ids(q) == [i \in 1..Len(q) |-> q[i].hid]
\* a handler that raises stops the emission; the error reaches the emitter
UpTo(q, bad) == IF \E i \in 1..Len(q) : q[i] = bad
                THEN SubSeq(q, 1, CHOOSE i \in 1..Len(q) : q[i] = bad /\ \A j \in 1..(i-1) : q[j] # bad)
                ELSE q

\* the effect of one operation: new state and the set of allowed observations
Apply(st, op) ==
  CASE op.op = "connect" ->
         LET at == At(st, op.sig, op.order)
             new == [st EXCEPT !.reg = (@ \ at) \cup {[sig |-> op.sig, order |-> op.order, hid |-> op.hid, weak |-> op.weak]}]
         IN IF at = {} THEN {[st |-> new, obs |-> [res |-> "ok"]]}
            ELSE IF \E r \in at : Live(st, r) THEN {[st |-> st, obs |-> [res |-> "duplicate"]]}
            ELSE {[st |-> st, obs |-> [res |-> "duplicate"]], [st |-> new, obs |-> [res |-> "ok"]]}
    [] op.op = "drop" -> {[st |-> [st EXCEPT !.dead = @ \cup {op.hid}], obs |-> [res |-> "ok"]]}
    [] op.op = "reset" -> {[st |-> [st EXCEPT !.reg = @ \ Of(st, op.sig)], obs |-> [res |-> "ok"]]}
    [] op.op = "emit" ->
         LET c == Ids(Called(st, op.sig, {op.switches[i] : i \in 1..Len(op.switches)}))
         IN IF op.raiser # "" /\ \E i \in 1..Len(c) : c[i] = op.raiser
            THEN {[st |-> st, obs |-> [res |-> "raised", calls |-> UpTo(c, op.raiser)]]}
            ELSE {[st |-> st, obs |-> [res |-> "ok", calls |-> c, values |-> c]]}
    [] op.op = "list" ->
         {[st |-> st, obs |-> [res |-> "ok", calls |-> Ids(Ordered({r \in Of(st, op.sig) : Live(st, r)}))]]}

-----------------------------------------------------------------------------
(* Generator: every history of operations up to MaxLen; used for the design check and for replay *)
VARIABLES st, hist, case, step, sts, verdict
Ops == [op : {"connect"}, sig : SigNames, order : Orders, hid : Hids, weak : BOOLEAN]
  \cup [op : {"drop"}, hid : Hids]
  \cup [op : {"reset"}, sig : SigNames]
  \cup [op : {"emit"}, sig : SigNames, raiser : {""}, switches : {<<>>}]

Usable(op) == ("hid" \in DOMAIN op) => op.hid \notin st.dead
GInit == st = Empty /\ hist = <<>> /\ case = 0 /\ step = 0 /\ sts = {} /\ verdict = "ok"
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : Usable(op) /\ \E r \in Apply(st, op) :
             st' = r.st /\ hist' = Append(hist, op @@ [obs |-> r.obs])
        /\ UNCHANGED <<case, step, sts, verdict>>

OnePerPlace == \A a, b \in st.reg : (a.sig = b.sig /\ a.order = b.order) => a = b
DeadNotCalled == \A s \in SigNames : \A i \in 1..Len(Called(st, s, {})) :
                    LET r == Called(st, s, {})[i]
                    IN r.hid \in st.dead => \E x \in st.reg : x.hid = r.hid /\ ~x.weak
Increasing == \A s \in SigNames : LET c == Called(st, s, {}) IN \A i, j \in 1..Len(c) : i < j => c[i].order < c[j].order
Emit == hist = <<>> \/ hist[Len(hist)].op # "emit" \/ PrintT(ToJson(hist))

-----------------------------------------------------------------------------
(* Validation of recorded traces *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ sts = {Empty} /\ verdict = "ok" /\ st = Empty /\ hist = <<>>
Clause(e) == CASE e.op = "connect" -> "two handlers in the same place, or a free place refused"
               [] e.op = "emit" -> "handlers called, order of calls, arguments or results differ"
               [] OTHER -> "registry listing or operation result differs"
TNext ==
  /\ verdict = "ok" /\ step < Len(Cases[case].steps)
  /\ LET e == Cases[case].steps[step + 1]
         rs == UNION {{r.st : r \in {x \in Apply(s, e) : x.obs = e.obs}} : s \in sts}
     IN IF rs = {} THEN verdict' = Clause(e) /\ sts' = sts ELSE verdict' = "ok" /\ sts' = rs
  /\ step' = step + 1 /\ UNCHANGED <<case, st, hist>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict,
              expect |-> SetToSeq(UNION {{x.obs : x \in Apply(s, Cases[case].steps[step])} : s \in sts})]))
=============================================================================
