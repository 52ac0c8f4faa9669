----------------------------- MODULE HeaderText -----------------------------
(* The header of a text and its entries, as functions of the text. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Text

Dashes(l) == LET m == Strip(l) IN IF Len(m) >= 3 /\ \A i \in 1..Len(m) : m[i] = "-" THEN Len(m) ELSE 0

\* the header is between the first line of the text that is not blank, if it is a line of dashes, and the next line
\* with at least as many dashes
RawLines(t) == SplitAt(t, NL)
Opening(ls) == LET p == {i \in 1..Len(ls) : ~Blank(ls[i])}
               IN IF p = {} THEN 0
                  ELSE LET f == CHOOSE i \in p : \A x \in p : i <= x IN IF Dashes(ls[f]) > 0 THEN f ELSE 0
Closing(ls, o) == LET p == {i \in o+1..Len(ls) : Dashes(ls[i]) >= Dashes(ls[o])}
                  IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A x \in p : i <= x
HasHeader(t) == LET ls == RawLines(t) o == Opening(ls) IN o > 0 /\ Closing(ls, o) > 0
Body(t) == LET ls == RawLines(t) o == Opening(ls)
           IN IF ~HasHeader(t) THEN t ELSE Join(From(ls, Closing(ls, o) + 1), <<NL>>)
Block(t) == LET ls == RawLines(t) o == Opening(ls) IN SubSeq(ls, o + 1, Closing(ls, o) - 1)

\* position of the colon that ends the key of a line, 0 if the line starts no entry
RECURSIVE Colon(_, _)
Colon(l, i) == LET k == IndexFrom(l, <<":">>, i)
               IN IF k = 0 THEN 0
                  ELSE IF l[k - 1] = "\\" THEN Colon(l, k + 1) ELSE k
KeyColon(l) == IF Blank(l) THEN 0 ELSE LET a == Lead(l, Blanks) IN IF a + 2 > Len(l) THEN 0 ELSE Colon(l, a + 2)
Dedent(l, n) == From(l, (IF Lead(l, Blanks) < n THEN Lead(l, Blanks) ELSE n) + 1)

\* the entries of the lines: [key, parts] in order; ind = indentation of the last entry line, -1 before the first
RECURSIVE Entries(_, _, _)
Entries(ls, ind, acc) ==
  IF ls = <<>> THEN acc
  ELSE LET l == Head(ls)
           k == KeyColon(l)
           isnew == k > 0 /\ (ind < 0 \/ Lead(l, Blanks) <= ind)
       IN IF isnew
          THEN Entries(Tail(ls), Lead(l, Blanks), Append(acc, [key |-> Strip(SubSeq(l, 1, k - 1)), parts |-> <<LStrip(From(l, k + 1), Blanks)>>]))
          ELSE IF acc = <<>> THEN Entries(Tail(ls), ind, acc)
          ELSE Entries(Tail(ls), ind, [acc EXCEPT ![Len(acc)].parts = Append(@, Dedent(l, ind))])

\* matched quotes at the ends of a line are removed
Unquote(s) ==
  LET q(c) == Count(s, c) > 0 /\ Count(s, c) % 2 = 0
              /\ LET m == Strip(s) IN Len(m) > 1 /\ m[1] = c /\ m[Len(m)] = c
      cut(c) == LET a == Index(s, <<c>>) m == RStrip(s, White)
                IN SubSeq(s, 1, a - 1) \o SubSeq(s, a + 1, Len(m) - 1) \o From(s, Len(m) + 1)
  IN IF q("'") THEN cut("'") ELSE IF q("\"") THEN cut("\"") ELSE s
Value(parts) ==
  LET v == StripSet(Join(parts, <<NL>>), {NL})
  IN Join(Map(SplitAt(v, NL), Unquote), <<NL>>)
\* a backslash before a colon may be kept or removed in values
Colons(v) == Subst(v, <<"\\", ":">>, <<":">>)
\* an entry that occurs several times has its values line by line
Names(es) == {es[i].key : i \in 1..Len(es)}
All(es, k) == Concat([i \in 1..Len(es) |-> IF es[i].key = k THEN es[i].parts ELSE <<>>])
Dict(ls) == LET es == Entries(ls, -1, <<>>) IN {[key |-> k, value |-> Colons(Value(All(es, k)))] : k \in Names(es)}

Parse(t) == IF HasHeader(t) THEN [found |-> TRUE, body |-> Body(t), entries |-> Dict(Block(t))]
            ELSE [found |-> FALSE, body |-> t, entries |-> {}]

=============================================================================
