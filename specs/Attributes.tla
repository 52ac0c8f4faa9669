----------------------------- MODULE Attributes -----------------------------
(* Attribute lists with entries for targets.

   A list of entries in order: named entries with a value and positional ones.  An entry name may end with a target mark (".html"); the
   view for a target has, for every name, the entry marked for the target or else the unmarked entry, and nothing else.  Lookups by name or
   by kind of positional entry see what the view has.

   The exhaustive model explores all short lists of entries and checks the laws of views; recorded lookups of the real class are validated
   against the same operators, the texts parsed with AttrText. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
T == INSTANCE Text
A == INSTANCE AttrText
CONSTANTS MaxEntries

C(s) == s         \* texts are sequences of characters
Html == <<".", "h", "t", "m", "l">>
XHtml == <<".", "x", "h", "t", "m", "l">>
Tex == <<".", "t", "e", "x">>
Css == <<".", "c", "s", "s">>
Marks == {Html, XHtml, Tex, Css}
MarkOf(k) == IF \E m \in Marks : T!EndsWith(k, m) THEN CHOOSE m \in Marks : T!EndsWith(k, m) ELSE <<>>
Base(k) == SubSeq(k, 1, Len(k) - Len(MarkOf(k)))
Marked(k) == MarkOf(k) # <<>>

\* ------------------------------------------------------------------ kinds of positional entries
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : T!IsDigit(s[i])
IsInt(s) == AllDigits(s) \/ (Len(s) > 1 /\ s[1] = "-" /\ AllDigits(Tail(s)))
IsFloat(s) == LET i == T!Index(s, <<".">>) IN i > 0 /\ IsInt(SubSeq(s, 1, i - 1)) /\ AllDigits(T!From(s, i + 1))
KindOf(k) == IF IsInt(Base(k)) THEN "int" ELSE IF IsFloat(Base(k)) THEN "float" ELSE "string"
IsKind(e, kind) == e.pos /\ (kind = "any" \/ KindOf(e.k) = kind)

\* ------------------------------------------------------------------ lookups; t is a mark or <<>> for no target
None == [found |-> FALSE, k |-> <<>>, v |-> <<>>, pos |-> FALSE]
Hit(e) == [found |-> TRUE, k |-> e.k, v |-> e.v, pos |-> e.pos]
First(q, P(_)) == LET p == {i \in DOMAIN q : P(q[i])} IN IF p = {} THEN None ELSE Hit(q[CHOOSE i \in p : \A x \in p : i <= x])
FindName(es, name, t) ==
  LET own == First(es, LAMBDA e : t # <<>> /\ e.k = name \o t) IN IF own.found THEN own ELSE First(es, LAMBDA e : e.k = name)
FindKind(es, kind, t) ==
  LET own == First(es, LAMBDA e : t # <<>> /\ IsKind(e, kind) /\ MarkOf(e.k) = t)
  IN IF own.found THEN own ELSE First(es, LAMBDA e : IsKind(e, kind) /\ ~Marked(e.k))

\* ------------------------------------------------------------------ views
Has(es, k) == \E i \in DOMAIN es : es[i].k = k
Visible(es, e, t) == IF Marked(e.k) THEN MarkOf(e.k) = t ELSE t = <<>> \/ ~Has(es, e.k \o t)
ViewRaw(es, t) == SelectSeq(es, LAMBDA e : Visible(es, e, t))
Stripped(e) == [e EXCEPT !.k = Base(e.k)]
View(es, t) == LET r == ViewRaw(es, t) IN [i \in DOMAIN r |-> Stripped(r[i])]
\* the entries of the view asked for by names and kinds, in the order they are asked for
RECURSIVE Pick(_, _, _)
Pick(es, asked, t) ==
  IF asked = <<>> THEN <<>>
  ELSE LET h == Head(asked)
           r == IF h.kind # "" THEN FindKind(es, h.kind, t) ELSE FindName(es, h.name, t)
           e == [k |-> r.k, v |-> r.v, pos |-> r.pos]
           rest == Pick(es, Tail(asked), t)
       IN IF ~r.found \/ (h.kind = "" /\ Marked(h.name)) THEN rest ELSE <<Stripped(e)>> \o SelectSeq(rest, LAMBDA x : x.k # Base(r.k))

\* ------------------------------------------------------------------ texts of views
Sp == <<" ">>
HtmlText(es) == T!Join([i \in DOMAIN es |-> IF es[i].pos THEN es[i].k ELSE es[i].k \o <<"=", "'">> \o es[i].v \o <<"'">>], Sp)
ArgsText(es) == T!Concat([i \in DOMAIN es |-> <<"{">> \o (IF es[i].pos THEN es[i].k ELSE es[i].v) \o <<"}">>])
OptsText(es) == IF es = <<>> THEN <<>>
                ELSE <<"[">> \o T!Join([i \in DOMAIN es |-> IF es[i].pos THEN es[i].k ELSE es[i].k \o <<"=">> \o es[i].v], <<",", " ">>) \o <<"]">>

\* an entry added to a list: a value is appended to the one that is there
Add(es, k, v, pos) ==
  IF ~Has(es, k) THEN Append(es, [k |-> k, v |-> v, pos |-> pos])
  ELSE [i \in DOMAIN es |-> IF es[i].k # k THEN es[i] ELSE IF pos THEN [k |-> k, v |-> <<>>, pos |-> TRUE] ELSE [es[i] EXCEPT !.v = @ \o Sp \o v]]

-----------------------------------------------------------------------------
(* The exhaustive model: all lists of few entries *)
VARIABLES es, case, step, verdict
vars == <<es, case, step, verdict>>
Pool == {[k |-> k \o m, v |-> v, pos |-> v = <<>>] : k \in {<<"a">>, <<"3">>}, m \in {<<>>, Html, Tex}, v \in {<<>>, <<"1">>}}
Init == es = <<>> /\ case = 0 /\ step = 0 /\ verdict = "ok"
Next == Len(es) < MaxEntries /\ \E e \in Pool : ~Has(es, e.k) /\ es' = Append(es, e) /\ UNCHANGED <<case, step, verdict>>
Targets == Marks \cup {<<>>}
Names(q) == {q[i].k : i \in DOMAIN q}
OneEach == \A t \in Targets : \A i, j \in DOMAIN View(es, t) : View(es, t)[i].k = View(es, t)[j].k => i = j
NoLeak == \A t \in Targets : \A i \in DOMAIN ViewRaw(es, t) : MarkOf(ViewRaw(es, t)[i].k) \in {<<>>, t}
NoLoss == \A t \in Targets : \A i \in DOMAIN es : MarkOf(es[i].k) \in {<<>>, t} => Base(es[i].k) \in Names(View(es, t))
Wins == \A t \in Targets \ {<<>>} : \A i \in DOMAIN es : MarkOf(es[i].k) = t =>
          \E j \in DOMAIN View(es, t) : View(es, t)[j] = Stripped(es[i])
\* lookups see what the view has
Agree == \A t \in Targets : \A n \in {<<"a">>, <<"3">>} :
           LET r == FindName(es, n, t) IN r.found = (n \in Names(View(es, t))) /\
              (r.found => \E j \in DOMAIN View(es, t) : View(es, t)[j] = Stripped([k |-> r.k, v |-> r.v, pos |-> r.pos]))
\* (a positional entry is not hidden from lookups by kind by a named one of the same name)
Uniform == \A i, j \in DOMAIN es : Base(es[i].k) = Base(es[j].k) => es[i].pos = es[j].pos
AgreeKind == Uniform => \A t \in Targets : \A kind \in {"any", "int", "string"} :
           FindKind(es, kind, t).found = (\E j \in DOMAIN View(es, t) : IsKind(View(es, t)[j], kind))
Stable == \A t \in Targets : View(View(es, t), t) = View(es, t)

-----------------------------------------------------------------------------
(* Validation of recorded lookups *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ es = <<>>
Same(q, obs) == Len(q) = Len(obs) /\ \A i \in DOMAIN q : q[i].k = obs[i].k /\ q[i].pos = obs[i].pos /\ (q[i].pos \/ q[i].v = obs[i].v)
SameSet(q, obs) == Len(q) = Len(obs) /\ \A i \in DOMAIN q : \E j \in DOMAIN obs : q[i].k = obs[j].k /\ q[i].pos = obs[j].pos /\ (q[i].pos \/ q[i].v = obs[j].v)
\* asked in no order: the order of the list
InOrder(q, e) == \A i, j \in DOMAIN e.got : i < j =>
   LET pos(k) == {x \in DOMAIN q : q[x].k = k} IN pos(e.got[i].k) # {} /\ pos(e.got[j].k) # {} =>
     (CHOOSE x \in pos(e.got[i].k) : TRUE) < (CHOOSE x \in pos(e.got[j].k) : TRUE)
V(b, why) == IF b THEN "ok" ELSE why
On(q, e) ==
  CASE e.e = "parse" -> [q |-> A!Attrs(e.text), v |-> V(Same(A!Attrs(e.text), e.got), "the entries of a text")]
    [] e.e = "view" -> [q |-> q, v |-> V(Same(View(q, e.t), e.got), "the entries for a target")]
    [] e.e = "raw" -> [q |-> q, v |-> V(Same(ViewRaw(q, e.t), e.got), "the entries for a target, names unchanged")]
    [] e.e = "pick" -> LET w == Pick(q, e.asked, e.t)
                       IN [q |-> q, v |-> V(IF e.sorted THEN Same(w, e.got) ELSE SameSet(w, e.got) /\ (e.plain => InOrder(q, e)), "the entries asked for")]
    [] e.e = "find" -> LET r == IF e.kind # "" THEN FindKind(q, e.kind, e.t) ELSE FindName(q, e.name, e.t)
                       IN [q |-> q, v |-> V(r = e.got, "the entry found")]
    [] e.e = "get" -> LET r == IF e.kind # "" THEN FindKind(q, e.kind, e.t) ELSE FindName(q, e.name, e.t)
                          w == IF ~r.found THEN [found |-> FALSE, pos |-> FALSE, v |-> <<>>]
                               ELSE IF e.kind # "" THEN [found |-> TRUE, pos |-> FALSE, v |-> Base(r.k)]
                               ELSE [found |-> TRUE, pos |-> r.pos, v |-> r.v]
                      IN [q |-> q, v |-> V(w = e.got, "the value found")]
    [] e.e = "text" -> LET w == View(q, e.t)
                       IN [q |-> q, v |-> V(e.got = [html |-> HtmlText(w), args |-> ArgsText(w), opts |-> OptsText(w)], "the text of the entries")]
    [] e.e = "append" -> LET w == Add(q, e.k, e.v, e.pos) IN [q |-> w, v |-> V(Same(w, e.got), "an entry added")]
    [] e.e = "dict" -> [q |-> q, v |-> V(Same(q, e.got), "the entries after lookups")]
    [] e.e = "copy" -> [q |-> q, v |-> V(Same(q, e.got), "the entries of a copy")]
    [] OTHER -> [q |-> q, v |-> "unknown event"]
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET r == On(es, Cases[case].steps[step + 1]) IN es' = r.q /\ verdict' = r.v
         /\ step' = step + 1 /\ UNCHANGED case
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> es]))
=============================================================================
