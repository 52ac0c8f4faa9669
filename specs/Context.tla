------------------------------- MODULE Context -------------------------------
(* Contexts: typed settings merged by "matched updates" from headers, templates and parents. A value is
   [t |-> type, v |-> ...]: int (v integer), bool, float (v in hundredths), str (v text), list (v sequence of values),
   set (v set of texts), dict (v set of [k, v]). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Text, HeaderText


Str(s) == [t |-> "str", v |-> s]
\* ---- conversions of texts
ToList(s) == LET semi == SplitAt(s, ";")
                 lines == SelectSeq(Map(SplitAt(s, NL), Strip), LAMBDA x : x # <<>>)
                 commas == SplitAt(s, ",")
             IN IF Len(semi) > 1 THEN Map(semi, Strip)
                ELSE IF Len(lines) > 1 THEN lines
                ELSE IF Len(commas) > 1 THEN Map(commas, Strip) ELSE <<s>>
ToDict(s) == {[k |-> e.key, v |-> Str(e.value)] : e \in Dict(SplitLines(s))}
RECURSIVE Num(_, _)
Num(ds, acc) == IF ds = <<>> THEN acc ELSE Num(Tail(ds), 10 * acc + DigitVal(Head(ds)))
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
Signed(s) == s # <<>> /\ s[1] \in {"+", "-"}
Abs(s) == IF Signed(s) THEN Tail(s) ELSE s
Sign(s) == IF s # <<>> /\ s[1] = "-" THEN -1 ELSE 1
IsInt(s) == AllDigits(Abs(Strip(s)))
IntOf(s) == LET m == Strip(s) IN Sign(m) * Num(Abs(m), 0)
\* decimals with up to two places, in hundredths
IsDec(s) == LET m == Abs(Strip(s)) p == SplitAt(m, ".")
            IN IsInt(s) \/ (Len(p) = 2 /\ (\A i \in 1..2 : p[i] = <<>> \/ AllDigits(p[i])) /\ m # <<".">> /\ Len(p[2]) <= 2)
DecOf(s) == LET m == Abs(Strip(s)) p == SplitAt(m, ".")
                f == IF Len(p) = 1 THEN 0 ELSE Num(p[2], 0) * (IF Len(p[2]) = 1 THEN 10 ELSE 1)
            IN Sign(Strip(s)) * (100 * Num(p[1], 0) + f)
Lower(c) == CASE c = "T" -> "t" [] c = "R" -> "r" [] c = "U" -> "u" [] c = "E" -> "e" [] c = "F" -> "f" [] c = "A" -> "a" [] c = "L" -> "l" [] c = "S" -> "s" [] OTHER -> c
BoolText(s) == Map(Strip(s), Lower)
True4 == <<"t", "r", "u", "e">>
False5 == <<"f", "a", "l", "s", "e">>

\* ---- merging; every result is a set of allowed new values
ToSet2(q) == {q[i] : i \in 1..Len(q)}
Has(d, k) == \E p \in d : p.k = k
At(d, k) == (CHOOSE p \in d : p.k = k).v
Put(d, k, v) == {p \in d : p.k # k} \cup {[k |-> k, v |-> v]}
Texts(q) == \A i \in 1..Len(q) : q[i].t = "str"

RECURSIVE Merge(_, _), MergeAll(_, _, _)
\* the entries of ch (a set of [k, v]) with keys ks merged into d; entries that are missing are added
MergeAll(d, ch, ks) ==
  IF ks = {} THEN {d}
  ELSE LET k == CHOOSE x \in ks : TRUE
           rest == ks \ {k}
       IN IF ~Has(ch, k) THEN MergeAll(d, ch, rest)
          ELSE IF ~Has(d, k) THEN MergeAll(Put(d, k, At(ch, k)), ch, rest)
          ELSE UNION {MergeAll(Put(d, k, m), ch, rest) : m \in Merge(At(d, k), At(ch, k))}
Keep(o) == {o}
Merge(o, c) ==
  CASE o.t = "list" ->
         (CASE c.t = "str" -> {[o EXCEPT !.v = Map(ToList(c.v), Str) \o @]}
            [] c.t = "list" -> {[o EXCEPT !.v = c.v \o @]}
            [] c.t = "set" -> {[o EXCEPT !.v = Map(q, Str) \o @] : q \in SetToSeqs(c.v)}
            [] c.t = "dict" -> Keep(o) \cup {[o EXCEPT !.v = Map(q, Str) \o @] : q \in SetToSeqs({p.k : p \in c.v})}
            [] OTHER -> Keep(o))
    [] o.t = "set" ->
         (CASE c.t = "str" -> {[o EXCEPT !.v = @ \cup ToSet2(ToList(c.v))]}
            [] c.t = "set" -> {[o EXCEPT !.v = @ \cup c.v]}
            [] c.t = "list" -> IF Texts(c.v) THEN {[o EXCEPT !.v = @ \cup {c.v[i].v : i \in 1..Len(c.v)}]} ELSE Keep(o)
            [] c.t = "dict" -> Keep(o) \cup {[o EXCEPT !.v = @ \cup {p.k : p \in c.v}]}
            [] OTHER -> Keep(o))
    [] o.t = "dict" ->
         (CASE c.t = "str" -> {[o EXCEPT !.v = m] : m \in MergeAll(o.v, ToDict(c.v), {p.k : p \in ToDict(c.v)})}
            [] c.t = "dict" -> {[o EXCEPT !.v = m] : m \in MergeAll(o.v, c.v, {p.k : p \in c.v})}
            [] OTHER -> Keep(o))
    [] o.t = "bool" ->
         (CASE c.t = "str" /\ BoolText(c.v) = True4 -> {[o EXCEPT !.v = TRUE]}
            [] c.t = "str" /\ BoolText(c.v) = False5 -> {[o EXCEPT !.v = FALSE]}
            [] c.t = "bool" -> {c}
            [] c.t \in {"int", "float"} -> Keep(o) \cup {[o EXCEPT !.v = (c.v # 0)]}
            [] OTHER -> Keep(o))
    [] o.t = "int" ->
         (CASE c.t = "str" -> IF IsInt(c.v) THEN {[o EXCEPT !.v = IntOf(c.v)]} ELSE Keep(o)
            [] c.t = "int" -> {c}
            [] c.t = "float" -> Keep(o) \cup {[o EXCEPT !.v = (IF c.v < 0 THEN -((-c.v) \div 100) ELSE c.v \div 100)]}
            [] c.t = "bool" -> Keep(o) \cup {[o EXCEPT !.v = (IF c.v THEN 1 ELSE 0)]}
            [] OTHER -> Keep(o))
    [] o.t = "float" ->
         (CASE c.t = "str" -> IF IsDec(c.v) THEN {[o EXCEPT !.v = DecOf(c.v)]} ELSE Keep(o)
            [] c.t = "float" -> {c}
            [] c.t = "int" -> {[o EXCEPT !.v = 100 * c.v]}
            [] c.t = "bool" -> Keep(o) \cup {[o EXCEPT !.v = (IF c.v THEN 100 ELSE 0)]}
            [] OTHER -> Keep(o))
    [] OTHER -> IF c.t = "str" THEN {c} ELSE Keep(o)

\* an empty value of the same type, for the keys whose values replace the existing one
Cleared(o) == CASE o.t = "list" -> [o EXCEPT !.v = <<>>] [] o.t \in {"set", "dict"} -> [o EXCEPT !.v = {}] [] OTHER -> o
RECURSIVE Update(_, _, _, _, _)
Update(d, ch, ks, over, rep) ==
  IF ks = {} THEN {d}
  ELSE LET k == CHOOSE x \in ks : TRUE
           rest == ks \ {k}
           o == At(d, k)
           ms == IF k \in rep THEN Merge(Cleared(o), At(ch, k)) \cup (IF At(ch, k).t \in {"str", o.t} THEN {} ELSE {o}) ELSE Merge(o, At(ch, k))
       IN IF ~Has(ch, k) THEN Update(d, ch, rest, over, rep)
          ELSE IF ~Has(d, k) THEN Update(Put(d, k, At(ch, k)), ch, rest, over, rep)
          ELSE IF ~over THEN Update(d, ch, rest, over, rep)
          ELSE UNION {Update(Put(d, k, m), ch, rest, over, rep) : m \in ms}

\* ---- the machine: contexts by name, each with its settings, initial values, and parent
\* state: set of [name, vals, init, parent]; NoInherit/Kept/Replaced as given for the class
Ctx(st, n) == CHOOSE c \in st : c.name = n
Set(st, c) == {x \in st : x.name # c.name} \cup {c}
Keys(d) == {p.k : p \in d}
Fresh(st, c, cls, base) ==
  LET from == IF c.parent = "" THEN {} ELSE LET p == Ctx(st, c.parent).vals IN {x \in p : x.k \notin cls.noinherit}
      s1 == Update(base, from, Keys(from), TRUE, cls.replaced)
  IN UNION {Update(d, c.init, Keys(c.init), TRUE, cls.replaced) : d \in s1}
RECURSIVE Canon(_)
\* values as read from the traces: sets of texts and dicts come as sequences
Canon(x) == CASE x.t = "list" -> [t |-> "list", v |-> [i \in 1..Len(x.v) |-> Canon(x.v[i])]]
              [] x.t = "set" -> [t |-> "set", v |-> ToSet2(x.v)]
              [] x.t = "dict" -> [t |-> "dict", v |-> {[k |-> x.v[i].k, v |-> Canon(x.v[i].v)] : i \in 1..Len(x.v)}]
              [] OTHER -> [t |-> x.t, v |-> x.v]
CanonD(q) == {[k |-> q[i].k, v |-> Canon(q[i].v)] : i \in 1..Len(q)}

Apply(st, op, cls) ==
  CASE op.op = "new" ->
         LET c == [name |-> op.name, vals |-> {}, init |-> CanonD(op.init), parent |-> op.parent]
         IN {Set(st, [c EXCEPT !.vals = v]) : v \in Fresh(st, c, cls, {})}
    [] op.op = "reset" ->
         LET c == Ctx(st, op.name)
         IN {Set(st, [c EXCEPT !.vals = v]) : v \in Fresh(st, c, cls, {p \in c.vals : p.k \in cls.kept})}
    [] op.op = "update" ->
         LET c == Ctx(st, op.name)
             ch == IF op.src # "" THEN Ctx(st, op.src).vals ELSE CanonD(op.changes)
             ks == IF op.some THEN ToSet2(op.keys) ELSE Keys(ch)
         IN {Set(st, [c EXCEPT !.vals = v]) : v \in Update(c.vals, ch, ks, op.over, cls.replaced)}
    [] op.op = "text" ->
         LET c == Ctx(st, op.name)
             ch == IF HasHeader(op.text) THEN {[k |-> e.key, v |-> Str(e.value)] : e \in Dict(Block(op.text))} ELSE ToDict(op.text)
         IN {Set(st, [c EXCEPT !.vals = v]) : v \in Update(c.vals, ch, Keys(ch), op.over, cls.replaced)}
    [] op.op = "filter" ->
         LET s == Ctx(st, op.src).vals
         IN {Set(st, [name |-> op.name, vals |-> {p \in s : p.k \in ToSet2(op.keys)}, init |-> {}, parent |-> ""])}
    [] op.op = "poke" ->       \* the owner of a context changes a value in place
         LET c == Ctx(st, op.name)
             there == Has(c.vals, op.key)
             o == At(c.vals, op.key)
             new == CASE o.t = "list" -> [o EXCEPT !.v = Append(@, Str(op.text))]
                      [] o.t = "set" -> [o EXCEPT !.v = @ \cup {op.text}]
                      [] o.t = "dict" -> [o EXCEPT !.v = Put(@, op.text, Str(op.text))]
                      [] OTHER -> o
         IN IF there THEN {Set(st, [c EXCEPT !.vals = Put(c.vals, op.key, new)])} ELSE {st}

-----------------------------------------------------------------------------
(* Design check: all pairs of an existing value and a change *)
VARIABLES pair, case, step, sts, verdict
A == <<"a">>
Kk == <<"k">>
Scalars == {[t |-> "int", v |-> 3], [t |-> "int", v |-> 0], [t |-> "bool", v |-> TRUE], [t |-> "bool", v |-> FALSE], [t |-> "float", v |-> 150]}
TextVals == {<<>>, <<"x">>, <<"1", "2">>, <<" ", "-", "7", " ">>, <<"1", ".", "5">>, <<"T", "r", "u", "e">>, <<"f", "a", "l", "s", "e">>, <<"a", ",", " ", "b">>,
             <<"a", ",", "b", ";", "c">>, <<"a", NL, "b", ",", "c">>, <<"k", ":", " ", "v">>, <<"k", ":", NL, " ", "m", ":", " ", "9">>, <<"1", ".", "x">>, <<"-">>}
Strs == {Str(s) : s \in TextVals}
Lists == {[t |-> "list", v |-> <<>>], [t |-> "list", v |-> <<Str(A)>>], [t |-> "list", v |-> <<[t |-> "int", v |-> 1], Str(A)>>], [t |-> "list", v |-> <<[t |-> "list", v |-> <<Str(A)>>]>>]}
Sets == {[t |-> "set", v |-> {}], [t |-> "set", v |-> {A}], [t |-> "set", v |-> {A, <<"b">>}]}
D1 == {[t |-> "dict", v |-> {}]} \cup {[t |-> "dict", v |-> {[k |-> Kk, v |-> x]}] : x \in Scalars \cup {Str(<<"x">>), Str(<<"1", "2">>), Str(<<"m", ":", " ", "1">>)} \cup Lists \cup Sets}
D2 == {[t |-> "dict", v |-> {[k |-> Kk, v |-> x], [k |-> A, v |-> Str(A)]}] : x \in {[t |-> "dict", v |-> {[k |-> <<"m">>, v |-> [t |-> "int", v |-> 5]]}], [t |-> "dict", v |-> {}]}}
Vals == Scalars \cup Strs \cup Lists \cup Sets \cup D1 \cup D2
GInit == pair \in Vals \X Vals /\ case = 0 /\ step = 0 /\ sts = {} /\ verdict = "ok"
GNext == UNCHANGED <<pair, case, step, sts, verdict>>
TypeKept == \A m \in Merge(pair[1], pair[2]) : m.t = pair[1].t
\* nothing of a collection is lost, and new list entries come first
Grows == \A m \in Merge(pair[1], pair[2]) :
   CASE m.t = "list" -> EndsWith(m.v, pair[1].v)
     [] m.t = "set" -> pair[1].v \subseteq m.v
     [] m.t = "dict" -> Keys(pair[1].v) \subseteq Keys(m.v)
     [] OTHER -> TRUE
SameTypeWins == (pair[1].t = pair[2].t /\ pair[1].t \in {"int", "bool", "float", "str"}) => Merge(pair[1], pair[2]) = {pair[2]}
RECURSIVE Plain(_)
Plain(x) == CASE x.t = "set" -> [t |-> "set", v |-> SetToSeq(x.v)]
              [] x.t = "list" -> [t |-> "list", v |-> [i \in 1..Len(x.v) |-> Plain(x.v[i])]]
              [] x.t = "dict" -> [t |-> "dict", v |-> SetToSeq({[k |-> p.k, v |-> Plain(p.v)] : p \in x.v})]
              [] OTHER -> x
Emit == PrintT(ToJson(<<Plain(pair[1]), Plain(pair[2])>>))

-----------------------------------------------------------------------------
Cases == JsonDeserialize(IOEnv.CASES)
Cls(c) == [noinherit |-> ToSet2(c.noinherit), replaced |-> ToSet2(c.replaced), kept |-> ToSet2(c.kept)]
TInit == case \in 1..Len(Cases) /\ step = 0 /\ sts = {{}} /\ verdict = "ok" /\ pair = <<>>
Shown(st) == {[name |-> c.name, vals |-> c.vals] : c \in st}
Seen(e) == {[name |-> e.obs[i].name, vals |-> CanonD(e.obs[i].vals)] : i \in 1..Len(e.obs)}
TNext ==
  /\ verdict = "ok" /\ step < Len(Cases[case].steps)
  /\ LET e == Cases[case].steps[step + 1]
         after == UNION {Apply(s, e, Cls(Cases[case])) : s \in sts}
         rs == {s \in after : Shown(s) = Seen(e)}
         own == \E s \in after : \E c \in Shown(s) : c.name = e.name /\ c \in Seen(e)
     IN IF rs = {} THEN verdict' = (IF own THEN "another context is altered by " \o e.op ELSE "wrong settings after " \o e.op) /\ sts' = sts
        ELSE verdict' = "ok" /\ sts' = rs
  /\ step' = step + 1 /\ UNCHANGED <<case, pair>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict,
              expect |-> SetToSeq(UNION {{[name |-> c.name, vals |-> Plain([t |-> "dict", v |-> c.vals])] : c \in s} :
                   s \in UNION {Apply(x, Cases[case].steps[step], Cls(Cases[case])) : x \in sts}})]))
=============================================================================
