-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of characters (one-character strings). *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

NL == "\n"
Blanks == {" ", "\t"}
White == {" ", "\t", "\n"}
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1

From(s, i) == SubSeq(s, i, Len(s))
StartsAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : s[i + k - 1] = w[k]
StartsWith(s, w) == StartsAt(s, 1, w)
EndsWith(s, w) == Len(w) <= Len(s) /\ StartsAt(s, Len(s) - Len(w) + 1, w)
\* the first position >= i where w occurs, 0 if none
IndexFrom(s, w, i) == LET p == {k \in i..Len(s) : StartsAt(s, k, w)}
                      IN IF p = {} THEN 0 ELSE CHOOSE k \in p : \A x \in p : k <= x
Index(s, w) == IndexFrom(s, w, 1)
\* number of leading characters in a set
Lead(s, set) == LET p == {k \in 1..Len(s) : s[k] \notin set}
                IN IF p = {} THEN Len(s) ELSE (CHOOSE k \in p : \A x \in p : k <= x) - 1
Trail(s, set) == LET p == {k \in 1..Len(s) : s[k] \notin set}
                 IN IF p = {} THEN Len(s) ELSE Len(s) - (CHOOSE k \in p : \A x \in p : k >= x)
LStrip(s, set) == From(s, Lead(s, set) + 1)
RStrip(s, set) == SubSeq(s, 1, Len(s) - Trail(s, set))
StripSet(s, set) == LStrip(RStrip(s, set), set)
Strip(s) == StripSet(s, White)
Blank(s) == \A i \in 1..Len(s) : s[i] \in White
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET i == Index(s, <<c>>)
                 IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitAt(From(s, i + 1), c)
\* lines without their line ends; a final line end does not start another line
SplitLines(s) == LET p == SplitAt(s, NL)
                 IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Subst(_, _, _)
Subst(s, old, new) == LET i == Index(s, old)
                           IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o new \o Subst(From(s, i + Len(old)), old, new)
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
=============================================================================
