----------------------------- MODULE MarkupText -----------------------------
(* The markup language: macros, tags, typography and paragraphs of a text. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Text
LOCAL INSTANCE AttrText

Verbatim == {<<"v","e","r","b">>, <<"v">>, <<"p","r","e">>, <<"v","e","r","b","a","t","i","m">>, <<"c","o","d","e">>, <<"d","m">>}
\* tags that stand on their own, outside of paragraphs
Block == {<<"v","e","r","b">>, <<"v">>, <<"p","r","e">>, <<"v","e","r","b","a","t","i","m">>, <<"f","e","a","t","u","r","e","b","o","x">>, <<"p">>}
Paragraphed == {<<"f","e","a","t","u","r","e","b","o","x">>, <<"b","o","d","y">>}

S(v) == [t |-> "s", v |-> v, name |-> <<>>, attrs |-> <<>>, kids |-> <<>>, role |-> ""]
T(name, attrs, kids) == [t |-> "t", v |-> <<>>, name |-> name, attrs |-> attrs, kids |-> kids, role |-> ""]
Strings(v) == IF v = <<>> THEN <<>> ELSE <<S(v)>>

-----------------------------------------------------------------------------
(* Tags *)
TagAt(s, i) == i < Len(s) /\ s[i] = "@" /\ s[i + 1] \in Alnum
NextTag(s, i) == LET p == {k \in i..Len(s) : TagAt(s, k)} IN IF p = {} THEN 0 ELSE CHOOSE k \in p : \A x \in p : k <= x
NameLen(s, i) == Run(s, i + 1, Word)
\* end of the attributes starting at j, j - 1 if there are none
AttrEnd(s, j) == IF j <= Len(s) /\ s[j] = "[" THEN LET k == IndexFrom(s, <<"]">>, j + 1) IN IF k > j + 1 THEN k ELSE j - 1 ELSE j - 1
RECURSIVE Walk(_, _, _)
Walk(s, k, level) ==      \* position of the brace that closes the level, and the deepest level on the way
  IF k > Len(s) THEN [at |-> 0, deep |-> level]
  ELSE IF s[k] = "}" THEN IF level = 1 THEN [at |-> k, deep |-> 1] ELSE LET r == Walk(s, k + 1, level - 1) IN [r EXCEPT !.deep = IF @ > level THEN @ ELSE level]
  ELSE IF s[k] = "{" THEN LET r == Walk(s, k + 1, level + 1) IN [r EXCEPT !.deep = IF @ > level + 1 THEN @ ELSE level + 1]
  ELSE LET n == RunOut(s, k, {"{", "}"}) IN Walk(s, k + n, level)
\* the tag at i: its name, attributes, content (whether it has one) and the position after it
TagOf(s, i) ==
  LET n == NameLen(s, i)
      a == AttrEnd(s, i + n + 1)
      open == a + 1 <= Len(s) /\ s[a + 1] = "{"
      w == IF open THEN Walk(s, a + 2, 1) ELSE [at |-> a, deep |-> 0]
  IN [name |-> SubSeq(s, i + 1, i + n), attrs |-> SubSeq(s, i + n + 1, a), open |-> open, closed |-> w.at > 0, deep |-> w.deep,
      content |-> IF open /\ w.at > 0 THEN SubSeq(s, a + 2, w.at - 1) ELSE <<>>, next |-> w.at + 1]

(* Typography *)
EN == "–"
EM == "—"
RECURSIVE Dash(_, _, _, _)
\* replaces w and the dash d itself by d, with the white space around it on the same paragraph
Dash(s, w, d, out) ==
  LET i1 == Index(s, w)
      i2 == Index(s, <<d>>)
      i == IF i1 = 0 THEN i2 ELSE IF i2 = 0 THEN i1 ELSE IF i1 < i2 THEN i1 ELSE i2
      n == IF i = i2 THEN 1 ELSE Len(w)
      before == out \o SubSeq(s, 1, i - 1)
      keptb == LET t == SubSeq(before, Len(before) - Trail(before, White) + 1, Len(before))
                   m == Count(t, NL)
               IN IF m < 2 THEN RStrip(before, White) ELSE RStrip(before, Blanks)
      after == From(s, i + n)
      kepta == LET t == SubSeq(after, 1, Lead(after, White)) IN IF Count(t, NL) < 2 THEN LStrip(after, White) ELSE LStrip(after, Blanks)
  IN IF i = 0 THEN out \o s ELSE Dash(kepta, w, d, Append(keptb, d))
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE " "
WordAt(s, i) == At(s, i) \in Word
SpaceAt(s, i) == At(s, i) \in White
\* quotes: at the start of a word, at its end, within it
Apost(s) == [i \in 1..Len(s) |-> IF s[i] = "'" /\ WordAt(s, i - 1) /\ WordAt(s, i + 1) THEN "’" ELSE s[i]]
Start(s, q, new) == [i \in 1..Len(s) |-> IF s[i] = q /\ ~WordAt(s, i - 1) /\ ~SpaceAt(s, i + 1) THEN new ELSE s[i]]
End(s, q, new) == [i \in 1..Len(s) |-> IF s[i] = q /\ ~SpaceAt(s, i - 1) /\ ~WordAt(s, i + 1) THEN new ELSE s[i]]
Typo(s) ==
  LET a == Dash(s, <<"-", "-", "-">>, EM, <<>>)
      b == Dash(a, <<"-", "-">>, EN, <<>>)
      c == Apost(b)
      d == End(Start(c, "'", "‘"), "'", "’")
  IN End(Start(d, "\"", "“"), "\"", "”")

(* Paragraphs *)
\* a text at its blank lines
RECURSIVE Pieces(_)
Pieces(s) ==
  LET p == {i \in 1..Len(s) : s[i] = NL
                              /\ \E k \in (i + 1)..Len(s) : s[k] = NL /\ \A x \in (i + 1)..(k - 1) : s[x] \in White}
  IN IF p = {} THEN <<s>>
     ELSE LET i == CHOOSE k \in p : \A x \in p : k <= x
          IN <<RStrip(SubSeq(s, 1, i - 1), White)>> \o Pieces(LStrip(From(s, i), White))
RECURSIVE Group(_, _, _)
\* runs of inline content (as sequences) and block tags (as nodes)
Group(nodes, run, out) ==
  LET flush == IF \A i \in 1..Len(run) : run[i].t = "s" /\ Blank(run[i].v) THEN out ELSE Append(out, [run |-> run, block |-> FALSE])
  IN IF nodes = <<>> THEN flush
     ELSE LET n == Head(nodes)
          IN IF n.t = "t" THEN IF n.name \in Block THEN Group(Tail(nodes), <<>>, Append(flush, [run |-> <<n>>, block |-> TRUE]))
                               ELSE Group(Tail(nodes), Append(run, n), out)
             ELSE LET p == Pieces(n.v)
                  IN IF Len(p) = 1 THEN Group(Tail(nodes), run \o Strings(p[1]), out)
                     ELSE LET r == run \o Strings(p[1])
                          IN Group(<<S(p[2])>> \o Map(SubSeq(p, 3, Len(p)), LAMBDA x : S(<<NL, NL>> \o x)) \o Tail(nodes), <<>>,
                                   IF \A i \in 1..Len(r) : r[i].t = "s" /\ Blank(r[i].v) THEN out ELSE Append(out, [run |-> r, block |-> FALSE]))
Roles(run) ==
  LET tags == {i \in 1..Len(run) : run[i].t = "t"}
      texts == {i \in 1..Len(run) : run[i].t = "s" /\ ~Blank(run[i].v)}
      role == IF Cardinality(tags) = 1 /\ texts = {} THEN "block" ELSE "inline"
  IN [i \in 1..Len(run) |-> IF i \in tags THEN [run[i] EXCEPT !.role = role] ELSE run[i]]
\* contents that are one tag alone are left as they are
Paragraphs(nodes) == IF Len(nodes) = 1 /\ nodes[1].t = "t" THEN nodes ELSE
                     LET g == Group(nodes, <<>>, <<>>)
                     IN [i \in 1..Len(g) |-> IF g[i].block THEN g[i].run[1] ELSE T(<<"p">>, <<>>, Roles(g[i].run))]

(* The tree of a text *)
RECURSIVE Tree(_, _), Nodes(_, _)
Tree(name, s) == LET r == Nodes(s, 1)
                     k == [i \in 1..Len(r.nodes) |-> IF r.nodes[i].t = "s" THEN S(Typo(r.nodes[i].v)) ELSE r.nodes[i]]
                     \* strings that came out empty are no content
                     q == SelectSeq(k, LAMBDA x : x.t = "t" \/ x.v # <<>>)
                 IN [r EXCEPT !.nodes = IF name \in Paragraphed THEN Paragraphs(q) ELSE q]
Nodes(s, i) ==
  LET k == NextTag(s, i)
  IN IF k = 0 THEN [err |-> FALSE, deep |-> 0, nest |-> 0, nodes |-> Strings(From(s, i))]
     ELSE LET t == TagOf(s, k)
              rest == Nodes(s, t.next)
              sub == IF ~t.open THEN [err |-> FALSE, deep |-> 0, nest |-> 0, nodes |-> <<>>]
                     ELSE IF t.name \in Verbatim THEN [err |-> FALSE, deep |-> 0, nest |-> 0, nodes |-> Strings(t.content)]
                     ELSE Tree(t.name, t.content)
              max(a, b) == IF a > b THEN a ELSE b
          IN IF t.open /\ ~t.closed THEN [err |-> TRUE, deep |-> t.deep, nest |-> 0, nodes |-> <<>>]
             ELSE [err |-> rest.err \/ sub.err, deep |-> max(t.deep, max(rest.deep, sub.deep)), nest |-> max(rest.nest, sub.nest + 1),
                   nodes |-> Strings(SubSeq(s, i, k - 1)) \o <<T(t.name, Attrs(t.attrs), sub.nodes)>> \o rest.nodes]

-----------------------------------------------------------------------------
(* Macros: m is a sequence of definitions [name, value]; the text of verbatim tags is not changed *)
RECURSIVE Expand(_, _, _)
MacroLen(s, i) == Run(s, i + 1, KeyChars)
Find(m, name) == {i \in 1..Len(m) : m[i].name = name}
\* {} with nothing but white space in between
EmptyBraces(s, i) == IF i <= Len(s) /\ s[i] = "{" THEN LET k == i + 1 + Run(s, i + 1, White) IN IF k <= Len(s) /\ s[k] = "}" THEN k ELSE i - 1 ELSE i - 1
Expand(s, i, m) ==
  LET k == IndexFrom(s, <<"@">>, i)
  IN IF k = 0 THEN From(s, i)
     ELSE LET n == MacroLen(s, k)
              full == SubSeq(s, k + 1, k + n)
              dot == Index(full, <<".">>)
              name == IF dot = 0 THEN full ELSE SubSeq(full, 1, dot - 1)
              d == Find(m, name)
              t == TagOf(s, k)
              before == SubSeq(s, i, k - 1)
          IN IF d # {} THEN before \o Expand(m[CHOOSE x \in d : \A y \in d : x <= y].value, 1, m) \o SubSeq(full, Len(name) + 1, Len(full))
                            \o Expand(s, EmptyBraces(s, k + n + 1) + 1, m)
             ELSE IF TagAt(s, k) /\ t.name \in Verbatim /\ t.open /\ t.closed THEN before \o SubSeq(s, k, t.next - 1) \o Expand(s, t.next, m)
             ELSE before \o SubSeq(s, k, k + n) \o Expand(s, k + n + 1, m)
\* the names a value mentions, directly or not
RECURSIVE Mentions(_, _, _)
Names(s) == {LET n == MacroLen(s, k) f == SubSeq(s, k + 1, k + n) dot == Index(f, <<".">>) IN IF dot = 0 THEN f ELSE SubSeq(f, 1, dot - 1)
             : k \in {x \in 1..Len(s) : s[x] = "@"}}
Mentions(seen, new, m) == IF new = {} THEN seen
                          ELSE Mentions(seen \cup new, UNION {UNION {Names(m[i].value) : i \in Find(m, x)} : x \in new} \ (seen \cup new), m)
\* definitions that refer to themselves, reachable from a text
Circular(s, m) == \E x \in Mentions({}, Names(s), m) : Find(m, x) # {} /\ x \in Mentions({}, UNION {Names(m[i].value) : i \in Find(m, x)}, m)
=============================================================================
