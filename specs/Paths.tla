------------------------------- MODULE Paths -------------------------------
(* Where rendered files are placed, and the URLs between them.

   A project has documents and other files, named by their paths from the
   project root (which may lead above it).  For a target each gets an output,
   a path from the target root.  An output lies in the directory of its target
   (or in the cache), is the same whenever it is asked for, and is the output
   of one source only.  A URL in a rendered file leads, from that file or from
   the target root, to the output of what it refers to.

   Paths are sequences of names, names and URLs sequences of characters.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth
T == INSTANCE Text

Up == <<".", ".">>
Here == <<".">>
Slash == "/"
Split(s) == SelectSeq(T!SplitAt(s, Slash), LAMBDA n : n # <<>>)
RECURSIVE NormFrom(_, _)
NormFrom(p, done) ==
  IF p = <<>> THEN done
  ELSE IF Head(p) = Here THEN NormFrom(Tail(p), done)
  ELSE IF Head(p) = Up /\ done # <<>> /\ done[Len(done)] # Up THEN NormFrom(Tail(p), SubSeq(done, 1, Len(done) - 1))
  ELSE NormFrom(Tail(p), Append(done, Head(p)))
Norm(p) == NormFrom(p, <<>>)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Within(p, dir) == LET q == Norm(p) IN Len(q) > Len(dir) /\ SubSeq(q, 1, Len(dir)) = dir

\* the path from a directory to a file
Common(p, q) == LET k == {n \in 0..Len(p) : n <= Len(q) /\ SubSeq(p, 1, n) = SubSeq(q, 1, n)} IN CHOOSE n \in k : \A x \in k : x <= n
Rel(dir, p) == LET c == Common(dir, p) IN [i \in 1..Len(dir) - c |-> Up] \o SubSeq(p, c + 1, Len(p))

\* URLs: characters with a meaning of their own are written as %XX
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
HexVal(c) == LET p == {i \in 1..16 : Hex[i] = c \/ <<Hex[i], c>> \in {<<"A", "a">>, <<"B", "b">>, <<"C", "c">>, <<"D", "d">>, <<"E", "e">>, <<"F", "f">>}}
             IN IF p = {} THEN -1 ELSE (CHOOSE i \in p : TRUE) - 1
\* the printable ASCII characters in order, and some others by the bytes of their UTF-8 codes
Ascii == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
           "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`",
           "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>
Code(c) == LET p == {i \in DOMAIN Ascii : Ascii[i] = c} IN IF p = {} THEN -1 ELSE (CHOOSE i \in p : TRUE) + 31
Digit2(n) == <<Hex[(n \div 16) + 1], Hex[(n % 16) + 1]>>
Plain == {Ascii[i] : i \in {14, 15, 64} \cup (17..26) \cup (34..59) \cup (66..91) \cup {95}}
\* bytes are numbers, other characters stay as they are in the trace (the driver gives them as pairs of bytes)
RECURSIVE Unquote(_), Quote(_)
Unquote(s) == IF s = <<>> THEN <<>>
              ELSE IF s[1] = "%" /\ Len(s) >= 3 /\ HexVal(s[2]) >= 0 /\ HexVal(s[3]) >= 0
                   THEN LET n == 16 * HexVal(s[2]) + HexVal(s[3])
                        IN <<IF n >= 32 /\ n < 127 THEN Ascii[n - 31] ELSE "x" \o ToString(n)>> \o Unquote(T!From(s, 4))
                   ELSE <<s[1]>> \o Unquote(Tail(s))
Quote(s) == IF s = <<>> THEN <<>>
            ELSE (IF s[1] \in Plain THEN <<s[1]>> ELSE <<"%">> \o Digit2(Code(s[1]))) \o Quote(Tail(s))

\* the path a URL leads to from a file, without query and anchor; <<>> for a URL that leads elsewhere
Cut(s, c) == LET i == T!Index(s, <<c>>) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
HasScheme(s) == LET i == T!Index(s, <<":">>) IN i > 0 /\ \A k \in 1..i - 1 : s[k] \notin {"/", "?", "#", "%"}
Resolve(from, url) ==
  LET u == Cut(Cut(url, "#"), "?")
      names == [i \in DOMAIN Split(u) |-> Unquote(Split(u)[i])]
  IN IF HasScheme(url) THEN <<>>
     ELSE IF u = <<>> THEN from
     ELSE IF u[1] = Slash THEN Norm(names)
     ELSE Norm(Parent(from) \o names)
Url(from, to) == LET r == Rel(Parent(from), to)
                 IN T!Join([i \in DOMAIN r |-> Quote(r[i])], <<Slash>>)

-----------------------------------------------------------------------------
(* The places of files, as designed: media files below "media", the converted
   ones with another ending, those above the root with __ for each step up.
   Files already below media stay there.                                     *)
Media == <<"m">>
Down(p) == [i \in DOMAIN p |-> IF p[i] = Up THEN <<"_", "_">> ELSE p[i]]
Place(kind, p, t) == LET d == Down(Norm(p))
                     IN <<t>> \o (IF kind = "doc" \/ d[1] = Media THEN d ELSE <<Media>> \o d)

VARIABLES placed, case, step, verdict
vars == <<placed, case, step, verdict>>
Init == placed = {} /\ case = 0 /\ step = 0 /\ verdict = "ok"
Names == {<<"a">>, <<"b">>, Media, Up}
Sources == UNION {[1..n -> Names] : n \in 1..Depth}
IsFile(p) == LET q == Norm(p) IN q # <<>> /\ q[Len(q)] # Up
Targets == {<<"h">>, <<"t">>}
Next == \E p \in Sources, t \in Targets, k \in {"doc", "file"} :
          IsFile(p) /\ Cardinality(placed) < 2 /\ placed' = placed \cup {[kind |-> k, src |-> Norm(p), t |-> t, way |-> <<>>, out |-> Place(k, p, t)]} /\ UNCHANGED <<case, step, verdict>>
Contained == \A x \in placed : Within(x.out, <<x.t>>)
\* two files meet only as m/p and p (a known limit of the names; documents have other endings than the files they include)
SameByDesign(x, y) == x.kind # y.kind \/ x.src = <<Media>> \o y.src \/ y.src = <<Media>> \o x.src
Distinct == \A x, y \in placed : x # y /\ x.out = y.out => SameByDesign(x, y)
Above(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
RoundTrip == \A x, y \in placed : ~Above(x.out, y.out) /\ ~Above(y.out, x.out) => Resolve(x.out, Url(x.out, y.out)) = y.out
\* every text can be a name in a URL
Chars == {"a", "%", " ", "#", "?", ":", "~", "4"}
Words == UNION {[1..n -> Chars] : n \in 1..2}
ASSUME \A w \in Words : Unquote(Quote(w)) = w /\ Resolve(<<<<"h">>, <<"x">>>>, Quote(w)) = Norm(<<<<"h">>, w>>)

-----------------------------------------------------------------------------
(* Validation of recorded projects.  `placed` holds the outputs seen so far. *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ placed = {}
Same(x, e) == x.kind = e.kind /\ x.src = e.src /\ x.t = e.target
\* documents above the root may have a copy of their own
SameWay(x, e) == Same(x, e) /\ x.way = e.way
Outs(e) == {x.out : x \in {y \in placed : y.kind = e.kind /\ y.src = e.src /\ y.t = e.target}}
Judge(e) ==
  LET o == Norm(Split(e.out))
      to == Resolve(Norm(Split(e.from)), e.url)
  IN CASE e.e = "out" ->
            IF ~Within(o, <<e.target>>) THEN "outputs lie in the directory of their target"
            ELSE IF \E x \in placed : SameWay(x, e) /\ x.out # o THEN "the output of a source is always the same"
            ELSE IF \E x \in placed : ~Same(x, e) /\ x.out = o THEN "different sources have different outputs"
            ELSE "ok"
       [] e.e = "link" -> IF to \in Outs(e) THEN "ok" ELSE "the URL leads to the output of what it refers to"
       [] e.e = "source" -> IF to = Norm(Split(e.out)) THEN "ok" ELSE "the URL leads to the source of the page"
       [] e.e = "asset" -> IF \E i \in DOMAIN e.files : Split(e.files[i]) = to THEN "ok" ELSE "the URL leads to a file that exists"
       [] e.e = "files" ->       \* the files of the target root after a build, and whose contents they have
            IF \E i \in DOMAIN e.files : ~\E t \in 1..Len(e.dirs) : Within(Split(e.files[i].path), <<e.dirs[t]>>)
            THEN "nothing is written elsewhere"
            ELSE IF \E x \in placed : x.kind = "file" /\ ~\E i \in DOMAIN e.files : Split(e.files[i].path) = x.out /\ e.files[i].src = x.src
            THEN "every output has the contents of its source"
            ELSE IF \E x \in placed : x.kind = "doc" /\ ~\E i \in DOMAIN e.files : Split(e.files[i].path) = x.out
            THEN "every document is written at its place"
            ELSE "ok"
       [] OTHER -> "unknown event"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET e == Cases[case].steps[step + 1]
            IN /\ verdict' = Judge(e)
               /\ placed' = IF e.e = "out" THEN placed \cup {[kind |-> e.kind, src |-> e.src, t |-> e.target, way |-> e.way, out |-> Norm(Split(e.out))]} ELSE placed
         /\ step' = step + 1 /\ UNCHANGED case
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> {x.out : x \in placed}]))
=============================================================================
