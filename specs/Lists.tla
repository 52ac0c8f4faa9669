------------------------------- MODULE Lists -------------------------------
(* Lists written with bullets: the items of a text, and the level of each.

   A line whose first character after blanks is a bullet starts an item; the
   lines up to the next bullet belong to it.  The text before the first bullet
   is not an item.  The indentation of an item (in steps of two, rounded up,
   from the least indented item) places it: an item goes below the nearest item
   before it that is indented less, as in any outline.  LaTeX names the level
   of each item by its indentation; html nests lists.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxItems, MaxIndent
T == INSTANCE Text

Bullets == {"-", "*"}
Indent(l) == T!Lead(l, T!Blanks)
IsBullet(l) == Indent(l) < Len(l) /\ l[Indent(l) + 1] \in Bullets

\* the words of a text, one blank between them; tags like "@b{...}" stand for their contents
RECURSIVE Bare(_), Squeeze(_)
Bare(s) == LET i == T!Index(s, <<"@">>)
               o == T!IndexFrom(s, <<"{">>, i)
               c == T!IndexFrom(s, <<"}">>, o)
           IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o SubSeq(s, o + 1, c - 1) \o Bare(T!From(s, c + 1))
Squeeze(s) == IF s = <<>> THEN <<>>
              ELSE IF s[1] \in T!White
                   THEN LET r == T!LStrip(s, T!White) IN IF r = <<>> THEN <<>> ELSE <<" ">> \o Squeeze(r)
                   ELSE <<s[1]>> \o Squeeze(Tail(s))
Words(s) == Bare(Squeeze(T!Strip(s)))

\* the items of a text: their indentation and words
Items(text) ==
  LET ls == T!SplitAt(text, "\n")
      starts == {i \in DOMAIN ls : IsBullet(ls[i])}
      last(i) == IF \E j \in starts : j > i THEN (CHOOSE j \in starts : j > i /\ \A k \in starts : k > i => j <= k) - 1 ELSE Len(ls)
      body(i) == T!Join(<<T!From(ls[i], Indent(ls[i]) + 2)>> \o SubSeq(ls, i + 1, last(i)), <<"\n">>)
      nth(n) == CHOOSE i \in starts : Cardinality({j \in starts : j <= i}) = n
  IN [n \in 1..Cardinality(starts) |-> [in |-> Indent(ls[nth(n)]), words |-> Words(body(nth(n)))]]

Least(q) == CHOOSE x \in {q[i].in : i \in DOMAIN q} : \A i \in DOMAIN q : x <= q[i].in
Level(q, i) == (q[i].in - Least(q) + 1) \div 2
Levels(q) == [i \in DOMAIN q |-> Level(q, i)]

\* the outline: a stack of the levels of the item and the items it is below
RECURSIVE Pop(_, _)
Pop(stack, l) == IF stack # <<>> /\ stack[Len(stack)] >= l THEN Pop(SubSeq(stack, 1, Len(stack) - 1), l) ELSE stack
RECURSIVE Outline(_, _)
Outline(ls, stack) == IF ls = <<>> THEN <<>>
                      ELSE LET s == Pop(stack, Head(ls)) IN <<Len(s)>> \o Outline(Tail(ls), Append(s, Head(ls)))
Depths(ls) == Outline(ls, <<>>)

-----------------------------------------------------------------------------
(* The exhaustive model: items placed one by one *)
VARIABLES levels, stack, depths, case, step, verdict
vars == <<levels, stack, depths, case, step, verdict>>
Init == levels = <<>> /\ stack = <<>> /\ depths = <<>> /\ case = 0 /\ step = 0 /\ verdict = "ok"
Next == /\ Len(levels) < MaxItems
        /\ \E l \in 0..MaxIndent :
             LET s == Pop(stack, l)
             IN levels' = Append(levels, l) /\ stack' = Append(s, l) /\ depths' = Append(depths, Len(s))
        /\ UNCHANGED <<case, step, verdict>>
N == Len(levels)
AsOutline == depths = Depths(levels)
EachOnce == Len(depths) = N
\* the item an item is below: the nearest before it with a lower level
Parent(i) == LET p == {j \in 1..i - 1 : levels[j] < levels[i]} IN IF p = {} THEN 0 ELSE CHOOSE j \in p : \A k \in p : k <= j
Below == \A i \in 1..N : depths[i] = IF Parent(i) = 0 THEN 0 ELSE depths[Parent(i)] + 1
NoSkip == \A i \in 1..N - 1 : depths[i + 1] <= depths[i] + 1
Deeper == \A i \in 1..N - 1 : (levels[i + 1] > levels[i]) <=> (depths[i + 1] = depths[i] + 1)
Alike == \A i, j \in 1..N : i < j /\ levels[i] = levels[j] /\ (\A k \in i..j : levels[k] >= levels[i]) => depths[i] = depths[j]
\* nesting by groups (as the html is built) gives the same outline
RECURSIVE Grouped(_, _)
Grouped(ls, d) ==
  IF ls = <<>> THEN <<>>
  ELSE LET ends == {k \in 2..Len(ls) : ls[k] <= ls[1]}
           e == IF ends = {} THEN Len(ls) + 1 ELSE CHOOSE k \in ends : \A x \in ends : k <= x
       IN <<d>> \o Grouped(SubSeq(ls, 2, e - 1), d + 1) \o Grouped(SubSeq(ls, e, Len(ls)), d)
AsGroups == Grouped(levels, 0) = depths

-----------------------------------------------------------------------------
(* Validation of rendered lists *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ levels = <<>> /\ stack = <<>> /\ depths = <<>>
Want(e) == LET q == Items(e.text) IN IF e.target = "tex" THEN [at |-> Levels(q), q |-> q] ELSE [at |-> Depths(Levels(q)), q |-> q]
Judge(e) ==
  LET w == Want(e)
  IN IF e.e = "parse" THEN IF Len(w.q) # Len(e.items) \/ \E i \in DOMAIN w.q : w.q[i].in # e.items[i].at \/ w.q[i].words # Bare(e.items[i].words)
                           THEN "the items of a text" ELSE "ok"
     ELSE IF Len(w.q) # Len(e.items) THEN "each item once"
     ELSE IF \E i \in DOMAIN w.q : w.q[i].words # e.items[i].words THEN "the items in order, with their text"
     ELSE IF \E i \in DOMAIN w.q : w.at[i] # e.items[i].at THEN "the level of each item"
     ELSE IF \E i \in DOMAIN e.kinds : e.kinds[i] # e.kind THEN "the kind of the list"
     ELSE "ok"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET e == Cases[case].steps[step + 1]
            IN levels' = (IF e.e = "parse" THEN levels ELSE Want(e).at) /\ verdict' = Judge(e)
         /\ step' = step + 1 /\ UNCHANGED <<case, stack, depths>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> levels]))
=============================================================================
