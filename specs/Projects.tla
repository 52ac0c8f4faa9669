------------------------------ MODULE Projects ------------------------------
(* The projects found below a folder, and where they are built.

   A folder is a base if it has documents and no folder above it (up to the
   one that is searched) has.  The projects of a base are its root documents,
   of which none is included by another.  The search starts with every
   document of the base and drops one after another those that another
   remaining one includes: this ends in a set of roots whose trees cover the
   base, which is unique unless documents include each other in a circle.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N
VARIABLES incl, roots, seen, case, step, verdict
vars == <<incl, roots, seen, case, step, verdict>>
D == 1..N
RECURSIVE Reach(_, _, _)
Reach(I, todo, done) == IF todo = {} THEN done
                        ELSE LET n == (UNION {I[d] : d \in todo}) \ done IN Reach(I, n, done \cup n)
TreeOf(I, d) == Reach(I, {d}, {d})
AreRoots(I, S, R) == /\ R \subseteq S
                     /\ \A r \in R, q \in R : r # q => r \notin TreeOf(I, q)
                     /\ \A d \in S : \E r \in R : d \in TreeOf(I, r)
Init == /\ incl \in [D -> SUBSET D] /\ roots = D /\ seen = {}
        /\ case = 0 /\ step = 0 /\ verdict = "ok"
Look(d) == /\ d \notin seen /\ seen' = seen \cup {d}
           /\ roots' = IF \E q \in roots \ {d} : d \in TreeOf(incl, q) THEN roots \ {d} ELSE roots
           /\ UNCHANGED <<incl, case, step, verdict>>
Next == \E d \in D : Look(d)
Found == seen = D => AreRoots(incl, D, roots)
Circular == \E d \in D : d \in UNION {TreeOf(incl, x) : x \in incl[d] \ {d}}
Unique == (seen = D /\ ~Circular) => roots = {d \in D : \A q \in D \ {d} : d \notin incl[q]}

-----------------------------------------------------------------------------
(* Validation of recorded runs of the command. *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ incl = 0 /\ roots = 0 /\ seen = 0
Range(s) == {s[i] : i \in DOMAIN s}
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Folders(e) == {Front(d.path) : d \in {x \in Range(e.docs) : IsPrefix(e.from, Front(x.path))}}
Bases(e) == {f \in Folders(e) : \A g \in Folders(e) \ {f} : ~IsPrefix(g, f)}
Of(e, p) == CHOOSE d \in Range(e.docs) : d.path = p
Paths(e) == {d.path : d \in Range(e.docs)}
Graph(e, b) == [p \in {x \in Paths(e) : IsPrefix(b, x)} |-> {b \o q : q \in Range(Of(e, p).incl)}]
BaseDocs(e, b) == {p \in Paths(e) : Front(p) = b}
RootSets(e, b) == IF e.file # "" THEN {{Append(b, e.file)}}
                  ELSE {R \in SUBSET BaseDocs(e, b) : AreRoots(Graph(e, b), BaseDocs(e, b), R)}
Where(e, b) == IF e.out # <<>> THEN e.out ELSE IF b # <<>> /\ Last(b) = "src" THEN Front(b) ELSE b
Searched(e) == IF e.file # "" THEN {e.from} ELSE Bases(e)
\* the pages of a project with the given root: their folder and name, and what they show
PagesOf(e, b, r) == {[path |-> Where(e, b) \o <<t>> \o SubSeq(Front(p), Len(b) + 1, Len(p) - 1),
                      name |-> Of(e, p).stem, ext |-> t, toks |-> <<Of(e, p).tok, Of(e, r).entry>>]
                     : p \in TreeOf(Graph(e, b), r), t \in Range(Of(e, r).targets)}
\* all choices of roots, one set for each base
RECURSIVE Choices(_, _)
Choices(e, bs) == IF bs = {} THEN {{}}
                  ELSE LET b == CHOOSE x \in bs : TRUE
                       IN {c \cup {<<b, r>> : r \in R} : c \in Choices(e, bs \ {b}), R \in RootSets(e, b)}
Made(e, c) == UNION {PagesOf(e, x[1], x[2]) : x \in c}
Before(c, k) == IF k = 1 THEN {} ELSE Range(c.steps[k - 1].pages)
Place(p) == <<p.path, p.name, p.ext>>
Fits(e, old, c) ==
  LET now == Range(e.pages)
      made == Made(e, c)
  IN IF e.out # <<>> /\ Cardinality(c) > 1 THEN e.code # 0 /\ now = old /\ e.done = 0
     ELSE /\ e.code = 0 /\ e.done = Cardinality(c)
          /\ made \subseteq now
          /\ \A p \in now \ made : p \in old /\ \A q \in made : Place(q) # Place(p)
Expect(e) == LET c == CHOOSE x \in Choices(e, Searched(e)) : TRUE
             IN [roots |-> c, pages |-> Made(e, c)]
Check(c, k) == IF \E x \in Choices(c.steps[k], Searched(c.steps[k])) : Fits(c.steps[k], Before(c, k), x) THEN "ok" ELSE "projects"
TNext == /\ case > 0 /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ step' = step + 1 /\ verdict' = Check(Cases[case], step + 1)
         /\ UNCHANGED <<case, incl, roots, seen>>
TReport == IF verdict = "ok" THEN TRUE
           ELSE PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> Expect(Cases[case].steps[step])]))
=============================================================================
