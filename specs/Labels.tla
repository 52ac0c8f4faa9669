------------------------------- MODULE Labels -------------------------------
(* The label registry of a project: labels are owned by documents, identified by (document, id), read in
   document order, purged with their document. Operations: adding, lookups, resets, and loads of the project. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Docs, Ids, MaxLen           \* bounds of the generator

\* a state: [order |-> documents in project order, reg |-> sequence of [doc, id, kinds] in the order of addition]
ToSet2(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))
OfDoc(reg, d) == SelectSeq(reg, LAMBDA l : l.doc = d)
Sorted(st) == Flat([i \in 1..Len(st.order) |-> OfDoc(st.reg, st.order[i])])
Purged(st) == [st EXCEPT !.reg = Sorted(st)]
Key(l) == [doc |-> l.doc, id |-> l.id]
Keys(q) == [i \in 1..Len(q) |-> Key(q[i])]
Has(st, d, i) == \E k \in 1..Len(st.reg) : st.reg[k].doc = d /\ st.reg[k].id = i
None == [res |-> "unknown"]

\* one lookup in a purged registry: ref = [ctx, doc, id] with "" for an absent part
Find(st, ref) ==
  LET q == Sorted(st)
      at(d) == SelectSeq(q, LAMBDA l : l.id = ref.id /\ l.doc = d)
      any == SelectSeq(q, LAMBDA l : l.id = ref.id)
  IN CASE ref.doc # "" -> at(ref.doc)
       [] ref.ctx # "" /\ at(ref.ctx) # <<>> -> at(ref.ctx)
       [] OTHER -> any
Lookup(st, refs) ==
  IF \E i \in 1..Len(refs) : Find(st, refs[i]) = <<>> THEN None
  ELSE [res |-> "ok", found |-> [i \in 1..Len(refs) |-> Key(Find(st, refs[i])[1])]]

OfKind(q, k) == SelectSeq(q, LAMBDA l : \E i \in 1..Len(l.kinds) : l.kinds[i] = k)
\* several kinds: the labels of any of them in document order, or kind after kind
ByKind(st, d, ks) ==
  LET q == IF d = "" THEN Sorted(st) ELSE OfDoc(Sorted(st), d)
      ks2 == ToSet2(ks)
  IN IF ks = <<>> THEN {q}
     ELSE {SelectSeq(q, LAMBDA l : ToSet2(l.kinds) \cap ks2 # {}), Flat([i \in 1..Len(ks) |-> OfKind(q, ks[i])])}

Apply(st, op) ==
  CASE op.op = "add" ->
         LET d == IF op.doc # "" THEN op.doc ELSE op.ctx
         IN IF Has(st, d, op.id) THEN {[st |-> st, obs |-> [res |-> "duplicate"]]}
            ELSE {[st |-> [st EXCEPT !.reg = Append(@, [doc |-> d, id |-> op.id, kinds |-> op.kinds])], obs |-> [res |-> "ok"]]}
    [] op.op = "get" -> {[st |-> Purged(st), obs |-> Lookup(st, op.refs)]}
    [] op.op = "kind" -> {[st |-> Purged(st), obs |-> [res |-> "ok", found |-> Keys(q)]] : q \in ByKind(st, op.doc, op.kinds)}
    [] op.op = "reset" ->
         {[st |-> [st EXCEPT !.reg = IF op.all THEN <<>> ELSE SelectSeq(@, LAMBDA l : l.doc \notin ToSet2(op.docs))], obs |-> [res |-> "ok"]]}
    [] op.op = "load" ->
         \* the documents in op.changed are read again and own exactly the labels they now contain; the load of a document
         \* may read the other documents again as well
         LET ch == {op.changed[i].doc : i \in 1..Len(op.changed)}
             files == {f \in st.files : f.doc \notin ch /\ f.doc \in ToSet2(op.order)} \cup ToSet2(op.changed)
             new(re) == [order |-> op.order, files |-> files,
                         reg |-> SelectSeq(st.reg, LAMBDA l : l.doc \notin re) \o
                                 Flat(SetToSeq({[k \in 1..Len(f.labels) |-> [doc |-> f.doc, id |-> f.labels[k].id, kinds |-> f.labels[k].kinds]] :
                                      f \in {x \in files : x.doc \in re}}))]
             after == {new(ch \cup more) : more \in SUBSET (ToSet2(op.order) \ ch)}
         IN {[st |-> n, obs |-> [res |-> "ok"]] : n \in after} \cup {[st |-> Purged(n), obs |-> [res |-> "ok"]] : n \in after}

-----------------------------------------------------------------------------
VARIABLES st, hist, case, step, sts, verdict
Refs == [ctx : Docs \cup {""}, doc : Docs \cup {""}, id : Ids]
Kinds == {<<"p">>, <<"p", "q">>}
Ops == [op : {"add"}, ctx : Docs, doc : Docs \cup {""}, id : Ids, kinds : Kinds]
  \cup [op : {"get"}, refs : {<<r>> : r \in Refs}]
  \cup [op : {"kind"}, doc : Docs \cup {""}, kinds : {<<>>, <<"p">>, <<"q">>}]
  \cup {[op |-> "reset", all |-> TRUE, docs |-> <<>>]} \cup {[op |-> "reset", all |-> FALSE, docs |-> <<d>>] : d \in Docs}
First == SetToSeq(Docs)
GInit == st = [order |-> First, reg |-> <<>>, files |-> {}] /\ hist = <<>> /\ case = 0 /\ step = 0 /\ sts = {} /\ verdict = "ok"
\* lookups only end a history: they do not change what later operations give
Next == /\ Len(hist) < MaxLen
        /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op \notin {"get", "kind"})
        /\ \E op \in Ops : (Len(hist) = MaxLen - 1 \/ op.op \notin {"get", "kind"}) /\ \E r \in Apply(st, op) :
             st' = r.st /\ hist' = Append(hist, op @@ [obs |-> r.obs])
        /\ UNCHANGED <<case, step, sts, verdict>>

UniquePerDoc == \A i, j \in 1..Len(st.reg) : (i # j /\ st.reg[i].id = st.reg[j].id) => st.reg[i].doc # st.reg[j].doc
OwnedOnly == \A i \in 1..Len(Sorted(st)) : Sorted(st)[i].doc \in ToSet2(st.order)
Kept == \A i \in 1..Len(st.reg) : st.reg[i].doc \in ToSet2(st.order) => \E j \in 1..Len(Sorted(st)) : Sorted(st)[j] = st.reg[i]
QualifiedIsExact == \A d \in Docs, i \in Ids : LET r == Find(st, [ctx |-> "", doc |-> d, id |-> i])
                       IN (r # <<>>) = Has(st, d, i) /\ (r # <<>> => r[1].doc = d /\ r[1].id = i)
PlainIsFirst == \A i \in Ids : LET r == Find(st, [ctx |-> "", doc |-> "", id |-> i])
                  IN r # <<>> => \A k \in 1..Len(st.order) : Has(st, st.order[k], i) =>
                       \E m \in 1..k : st.order[m] = r[1].doc
Emit == hist = <<>> \/ hist[Len(hist)].op \notin {"get", "kind"} \/ PrintT(ToJson(hist))

-----------------------------------------------------------------------------
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ sts = {[order |-> Cases[case].order, reg |-> Cases[case].reg, files |-> ToSet2(Cases[case].files)]} /\ verdict = "ok"
         /\ st = [order |-> <<>>, reg |-> <<>>, files |-> {}] /\ hist = <<>>
Clause(e) == CASE e.op = "add" -> "a second use of an id in a document accepted, or a first use refused"
               [] e.op = "get" -> "another label found, or an unknown one"
               [] e.op = "kind" -> "the labels of a kind or document differ"
               [] OTHER -> "operation result differs"
TNext ==
  /\ verdict = "ok" /\ step < Len(Cases[case].steps)
  /\ LET e == Cases[case].steps[step + 1]
         rs == UNION {{r.st : r \in {x \in Apply(s, e) : x.obs = e.obs}} : s \in sts}
     IN IF rs = {} THEN verdict' = Clause(e) /\ sts' = sts ELSE verdict' = "ok" /\ sts' = rs
  /\ step' = step + 1 /\ UNCHANGED <<case, st, hist>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict,
              expect |-> SetToSeq(UNION {{x.obs : x \in Apply(s, Cases[case].steps[step])} : s \in sts})]))
=============================================================================
