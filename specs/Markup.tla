------------------------------- MODULE Markup -------------------------------
(* Body texts become trees of tags and texts. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Text, AttrText, MarkupText

CONSTANTS MaxTokens        \* bounds of the generator

-----------------------------------------------------------------------------
(* Generators: all sequences of a few tokens *)
TagTokens == {<<"@", "a">>, <<"@", "v">>, <<"{">>, <<"}">>, <<"[", "x", "]">>, <<".">>, <<" ">>, <<"@">>}
ParTokens == {<<"t">>, <<NL>>, <<NL, NL>>, <<" ">>, <<"@", "b", "{", "x", "}">>, <<"@", "v", "{", "y", "}">>, <<"@", "f", "e", "a", "t", "u", "r", "e", "b", "o", "x", "{">>, <<"}">>, <<"-", "-">>}
VARIABLES text, n, case, step, verdict
Rest == UNCHANGED <<case, step, verdict>>
GInit == text = <<>> /\ n = 0 /\ case = 0 /\ step = 0 /\ verdict = "ok"
NextTagToken == n < MaxTokens /\ n' = n + 1 /\ \E t \in TagTokens : text' = text \o t /\ Rest
NextParToken == n < MaxTokens /\ n' = n + 1 /\ \E t \in ParTokens : text' = text \o t /\ Rest
MacTokens == {<<"@", "a">>, <<"@", "a", "b">>, <<"{">>, <<"}">>, <<".">>, <<" ">>, <<"@">>, <<"@", "v">>, <<"c">>}
NextMacToken == n < MaxTokens /\ n' = n + 1 /\ \E t \in MacTokens : text' = text \o t /\ Rest
\* values without mentions are replaced once and for all, and without definitions nothing changes
ExpandOnce == LET m == <<[name |-> <<"a">>, value |-> <<"X">>], [name |-> <<"a", "b">>, value |-> <<>>]>>
                  x == Expand(text, 1, m)
              IN /\ Expand(text, 1, <<>>) = text
                 /\ (\A i \in 1..Len(text) : ~(TagAt(text, i) /\ TagOf(text, i).name = <<"v">>)) => SelectSeq(x, LAMBDA c : c = "c") = SelectSeq(text, LAMBDA c : c = "c")

Body == <<"b", "o", "d", "y">>
Root == <<"r", "o", "o", "t">>
\* all characters of a tree, in order
RECURSIVE Chars(_)
Chars(nodes) == IF nodes = <<>> THEN <<>> ELSE (IF Head(nodes).t = "s" THEN Head(nodes).v ELSE Chars(Head(nodes).kids)) \o Chars(Tail(nodes))
RECURSIVE Tags(_)
Tags(nodes) == IF nodes = <<>> THEN <<>> ELSE (IF Head(nodes).t = "t" THEN <<Head(nodes)>> \o Tags(Head(nodes).kids) ELSE <<>>) \o Tags(Tail(nodes))
\* no text is invented or reordered: the characters of the tree are a subsequence of the text
Sub(a, b) == \* greedy
  LET RECURSIVE G(_, _)
      G(i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE ELSE IF a[i] = b[j] THEN G(i + 1, j + 1) ELSE G(i, j + 1)
  IN G(1, 1)
NoInvention == LET r == Tree(Root, text) IN ~r.err => Sub(SelectSeq(Chars(r.nodes), LAMBDA c : c \notin {EN, EM}), text)
\* nothing but markup is lost
NoLoss == LET r == Tree(Root, text)
          IN ~r.err => SelectSeq(Chars(r.nodes), LAMBDA c : c = ".") = SelectSeq(text, LAMBDA c : c = ".")
\* text without tags is itself
Plain == ~(\E i \in 1..Len(text) : TagAt(text, i)) => Chars(Tree(Root, text).nodes) = Typo(text)
\* paragraphs are not nested, have some content, and hold no block
ParagraphRules ==
  LET r == Tree(Body, text)
  IN ~r.err => \A x \in ToSet(Tags(r.nodes)) : x.name = <<"p">> => /\ ~\A i \in 1..Len(x.kids) : x.kids[i].t = "s" /\ Blank(x.kids[i].v)
                                                                  /\ \A i \in 1..Len(x.kids) : x.kids[i].t = "t" => x.kids[i].name \notin Block
\* paragraphs keep all text but white space
ParagraphText == LET r == Tree(Body, text) o == Tree(Root, text) b(c) == c \notin White
                 IN ~r.err => SelectSeq(Chars(r.nodes), b) = SelectSeq(Chars(o.nodes), b)
Emit == n = 0 \/ PrintT(ToJson(text))

-----------------------------------------------------------------------------
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ text = <<>> /\ n = 0
\* white space at the borders of paragraphs may be kept or not
RECURSIVE Trim(_)
Trim(nodes) == LET q == [i \in 1..Len(nodes) |->
                     IF nodes[i].t = "s" THEN nodes[i]
                     ELSE LET k == Trim(nodes[i].kids)
                              l == Len(k)
                              a == IF nodes[i].name = <<"p">> /\ l > 0 /\ k[1].t = "s" THEN [k EXCEPT ![1].v = LStrip(@, White)] ELSE k
                              b == IF nodes[i].name = <<"p">> /\ l > 0 /\ a[l].t = "s" THEN [a EXCEPT ![l].v = RStrip(@, White)] ELSE a
                          IN [nodes[i] EXCEPT !.kids = SelectSeq(b, LAMBDA x : x.t = "t" \/ x.v # <<>>)]]
               IN q
Expected(e) == Tree(e.name, Expand(e.text, 1, e.macros))
\* definitions of the innermost document first
Effective(e) == FlattenSeq([i \in 1..Len(e.chain) |-> e.chain[Len(e.chain) + 1 - i]]) \o e.macros
MaxDepth == 9
TooDeep == 30
Judge(e0) ==
  LET e == IF e0.op = "document" THEN [e0 EXCEPT !.macros = Effective(e0)] ELSE e0
  IN IF Circular(e.text, e.macros) THEN "ok"      \* ends, one way or another
     ELSE LET x == Expected(e)
          IN CASE x.err /\ ~e.err -> "a tag that is not closed is no error"
               [] e.err /\ ~x.err /\ x.deep <= MaxDepth -> "a correct text is refused"
               [] ~e.err /\ ~x.err /\ x.nest >= TooDeep -> "too deep nesting is no error"
               [] ~e.err /\ ~x.err /\ Trim(e.nodes) # Trim(x.nodes) -> "the tree of the text is not the one written"
               [] OTHER -> "ok"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ verdict' = Judge(Cases[case].steps[step + 1]) /\ step' = step + 1 /\ UNCHANGED <<case, text, n>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict,
              expect |-> LET e == Cases[case].steps[step] IN Tree(e.name, Expand(e.text, 1, IF e.op = "document" THEN Effective(e) ELSE e.macros))]))
=============================================================================
