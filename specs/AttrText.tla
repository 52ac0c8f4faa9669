------------------------------ MODULE AttrText ------------------------------
(* The text of attributes: names with values, and positional entries. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE Text

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alnum == Lower \cup Upper \cup {"0","1","2","3","4","5","6","7","8","9"}
Word == Alnum \cup {"_", "é", "ü", "ß"}
KeyChars == Word \cup {"."}
Run(s, i, set) == Lead(From(s, i), set)          \* length of the run of characters of a set at i
RunOut(s, i, set) == LET p == {k \in i..Len(s) : s[k] \in set} IN IF p = {} THEN Len(s) + 1 - i ELSE (CHOOSE k \in p : \A x \in p : k <= x) - i

Pair(k, v) == [k |-> k, v |-> v, pos |-> FALSE]
Posn(k) == [k |-> k, v |-> <<>>, pos |-> TRUE]
Quotes == {"\"", "'"}
\* the end of a quoted text starting at i, 0 if it is not one
QuoteEnd(s, i) == IF i <= Len(s) /\ s[i] \in Quotes THEN IndexFrom(s, <<s[i]>>, i + 1) ELSE 0
RECURSIVE Items(_, _)
Items(s, i) ==
  LET sep == White \cup {",", "[", "]"}
  IN IF i > Len(s) THEN <<>>
     ELSE IF s[i] \in sep THEN Items(s, i + 1)
     ELSE LET k == Run(s, i, KeyChars)
              e == i + k + Run(s, i + k, White)
              v == e + 1 + Run(s, e + 1, White)
              q == QuoteEnd(s, v)
              n == RunOut(s, v, White \cup {"]"})
              q0 == QuoteEnd(s, i)
              n0 == RunOut(s, i, sep)
          IN IF k > 0 /\ e <= Len(s) /\ s[e] = "=" /\ v <= Len(s) /\ (q > 0 \/ n > 0)
             THEN IF q > 0 THEN <<Pair(SubSeq(s, i, i + k - 1), SubSeq(s, v + 1, q - 1))>> \o Items(s, q + 1)
                  ELSE LET w == SubSeq(s, v, v + n - 1)      \* a comma after a value separates entries
                           x == RStrip(w, {","})
                       IN <<Pair(SubSeq(s, i, i + k - 1), IF x = <<>> THEN w ELSE x)>> \o Items(s, v + n)
             ELSE IF q0 > 0 THEN <<Posn(SubSeq(s, i + 1, q0 - 1))>> \o Items(s, q0 + 1)
             ELSE <<Posn(SubSeq(s, i, i + n0 - 1))>> \o Items(s, i + n0)
\* a later entry of the same name replaces the value of an earlier one
RECURSIVE Merge(_, _)
Merge(q, acc) ==
  IF q = <<>> THEN acc
  ELSE LET h == Head(q)
           p == {i \in 1..Len(acc) : acc[i].k = h.k}
       IN Merge(Tail(q), IF p = {} THEN Append(acc, h) ELSE [acc EXCEPT ![CHOOSE i \in p : TRUE] = h])
Attrs(s) == Merge(Items(s, 1), <<>>)
=============================================================================
