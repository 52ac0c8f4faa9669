------------------------------- MODULE Header -------------------------------
(* Documents start with an optional header: a block between two lines of dashes whose entries are
   "key: value" lines with indented or following continuation lines; the rest is the body. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Text, HeaderText

CONSTANTS MaxLen, MaxLines        \* bounds of the generator

-----------------------------------------------------------------------------
(* Generators: all texts over a few characters, and all sequences of a few typical lines *)
Chars == {"-", NL, ":", "a", " "}
Lines == {<<"-", "-", "-">>, <<"k", ":", " ", "v">>, <<" ", " ", "m", ":", " ", "w">>, <<>>, <<"m", "o">>, <<" ", "m", "o">>, <<"-", "-", "-", "-">>,
          <<"-", "-">>, <<"-", "-", "-", " ", "x">>, <<"x", "-", "-", "-">>}
VARIABLES text, case, step, verdict
Rest == UNCHANGED <<case, step, verdict>>
GInit == text = <<>> /\ case = 0 /\ step = 0 /\ verdict = "ok"
NextChar == Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c) /\ Rest
LineCount == IF text = <<>> THEN 0 ELSE Len(RawLines(text)) - 1
NextLine == LineCount < MaxLines /\ \E l \in Lines : text' = text \o l \o <<NL>> /\ Rest

\* the text is the blank lines before, the opening line, the block, the closing line and the body: nothing is lost
NoLoss == LET ls == RawLines(text) o == Opening(ls)
          IN IF HasHeader(text)
             THEN Len(text) >= Len(Body(text)) /\ EndsWith(text, Body(text))
                  /\ o + Len(Block(text)) + 1 + Len(RawLines(Body(text))) = Len(ls) + (IF Closing(ls, o) = Len(ls) THEN 1 ELSE 0)
             ELSE Body(text) = text
\* a value has every line of the block that follows its key
Complete == HasHeader(text) =>
   LET es == Entries(Block(text), -1, <<>>)
       n == Concat([i \in 1..Len(es) |-> es[i].parts])
       first == {i \in 1..Len(Block(text)) : KeyColon(Block(text)[i]) > 0}
   IN IF first = {} THEN n = <<>> ELSE Len(n) = Len(Block(text)) - (CHOOSE i \in first : \A x \in first : i <= x) + 1
\* the body of a text with a header does not depend on the block
Emit == PrintT(ToJson(text))

-----------------------------------------------------------------------------
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ text = <<>>
Seen(e) == {[key |-> e.entries[i].key, value |-> Colons(e.entries[i].value)] : i \in 1..Len(e.entries)}
Judge(e) ==
  LET p == Parse(e.text)
  IN CASE e.found # p.found -> IF p.found THEN "the header is not recognised" ELSE "text without a header is taken as a header"
       [] e.op = "parse" /\ e.body # p.body -> "the body is not the remaining text"
       [] e.op = "document" /\ e.body # SelectSeq(p.body, LAMBDA c : c \notin White) -> "the body is not the remaining text"
       [] e.op = "parse" /\ Seen(e) # p.entries -> "the entries of the header differ"
       [] e.op = "document" /\ ~(Seen(e) \subseteq p.entries) -> "an entry of the document differs from its header"
       [] e.op = "document" /\ \E x \in p.entries : x.key \notin {y.key : y \in Seen(e)} -> "an entry of the header is not a setting"
       [] OTHER -> "ok"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ verdict' = Judge(Cases[case].steps[step + 1]) /\ step' = step + 1 /\ UNCHANGED <<case, text>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict,
              expect |-> LET p == Parse(Cases[case].steps[step].text) IN [found |-> p.found, body |-> p.body, entries |-> SetToSeq(p.entries)]]))
=============================================================================
