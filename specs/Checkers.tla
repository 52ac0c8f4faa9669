------------------------------ MODULE Checkers ------------------------------
(* Requirements on programs and packages: groups of which any, all or none are needed, nested;
   checking looks up each program and package by name. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxKids        \* bounds of the generator

\* the value of a node: "yes", "no" or "unknown" (programs only)
RECURSIVE Value(_)
Value(n) ==
  LET v == [i \in 1..Len(n.kids) |-> Value(n.kids[i])]
  IN CASE n.k = "dep" -> n.av
       [] n.k = "all" -> IF \A i \in DOMAIN v : v[i] = "yes" THEN "yes" ELSE "no"
       [] n.k = "any" -> IF \E i \in DOMAIN v : v[i] = "yes" THEN "yes" ELSE "no"
       [] n.k = "opt" -> "yes"
Available(n) == Value(n) = "yes"
\* all nodes, each before its members, with its depth
RECURSIVE Flat(_, _)
Flat(n, d) == <<[d |-> d, n |-> n]>> \o FlattenSeq([i \in 1..Len(n.kids) |-> Flat(n.kids[i], d + 1)])

-----------------------------------------------------------------------------
(* Versions *)
Num(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
Cmp(a, b) == LET n == 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
                 d == {i \in n : Num(a, i) # Num(b, i)}
             IN IF d = {} THEN 0 ELSE LET i == CHOOSE i \in d : \A x \in d : i <= x IN IF Num(a, i) < Num(b, i) THEN -1 ELSE 1
Satisfies(have, op, want) ==
  LET c == Cmp(have, want)
  IN CASE op = "" -> TRUE [] op = "==" -> c = 0 [] op = "!=" -> c # 0 [] op = "<" -> c < 0 [] op = "<=" -> c <= 0 [] op = ">" -> c > 0 [] op = ">=" -> c >= 0

(* A world: the executables on the path, the files TeX finds, the installed packages *)
Ext(cat) == CASE cat = "packages" -> ".sty" [] cat = "fonts" -> ".tfm" [] cat = "classes" -> ".cls" [] OTHER -> ""
Present(w, kind, cat, n) ==
  IF cat = "executables" THEN n.name \in ToSet(w.exes)
  ELSE IF kind = "pdf" THEN (n.name \o Ext(cat)) \in ToSet(w.tex)
  ELSE \E i \in 1..Len(w.pips) : w.pips[i].name = n.low /\ Satisfies(w.pips[i].ver, n.op, n.ver)
\* packages stay undetermined without the program that finds them
Lookup(w, kind, cat) == cat = "executables" \/ kind = "python" \/ "kpsewhich" \in ToSet(w.exes)

-----------------------------------------------------------------------------
(* Generator: every group of at most MaxKids members over groups of programs *)
VARIABLES tree, case, step, verdict
Rest == UNCHANGED <<case, step, verdict>>
Dep(a) == [k |-> "dep", av |-> a, kids |-> <<>>]
Leaves == {Dep("yes"), Dep("no"), Dep("unknown")}
Groups(S) == {[k |-> k, av |-> "", kids |-> q] : k \in {"any", "all", "opt"}, q \in UNION {[1..n -> S] : n \in 0..MaxKids}}
T1 == Groups(Leaves)
T2 == Groups(Leaves \cup T1)
GInit == tree \in T2 /\ case = 0 /\ step = 0 /\ verdict = "ok"
\* one program is installed
RECURSIVE Better(_)
Better(n) == IF n.k = "dep" THEN IF n.av = "yes" THEN {} ELSE {[n EXCEPT !.av = "yes"]}
             ELSE UNION {{[n EXCEPT !.kids[i] = b] : b \in Better(n.kids[i])} : i \in 1..Len(n.kids)}
GNext == FALSE /\ UNCHANGED tree /\ Rest
Monotone == \A b \in Better(tree) : Available(tree) => Available(b)
Settled == \* an undetermined program counts as an absent one
  LET RECURSIVE No(_)
      No(n) == IF n.k = "dep" THEN IF n.av = "unknown" THEN Dep("no") ELSE n ELSE [n EXCEPT !.kids = [i \in 1..Len(n.kids) |-> No(n.kids[i])]]
  IN Available(No(tree)) = Available(tree)
Emit == PrintT(ToJson(tree))

-----------------------------------------------------------------------------
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ tree = 0
Truth(x) == IF x THEN "yes" ELSE "no"
\* the tree after a check: the members of each category of the top level are looked up
RECURSIVE Check(_, _, _, _)
Check(n, w, kind, cat) ==
  IF n.k = "dep" THEN IF Lookup(w, kind, cat) THEN [n EXCEPT !.av = Truth(Present(w, kind, cat, n))] ELSE [n EXCEPT !.av = "unknown"]
  ELSE [n EXCEPT !.kids = [i \in 1..Len(n.kids) |-> Check(n.kids[i], w, kind, cat)]]
Checked(e) == [e.tree EXCEPT !.kids = [i \in 1..Len(e.tree.kids) |-> Check(e.tree.kids[i], e.world, e.kind, e.tree.kids[i].name)]]
Avails(t) == LET f == Flat(t, 0) IN [i \in 1..Len(f) |-> Available(f[i].n)]
Depths(t) == LET f == Flat(t, 0) IN [i \in 1..Len(f) |-> f[i].d]
Names(t) == LET f == Flat(t, 0) IN [i \in 1..Len(f) |-> f[i].n.name]
Judge(e) ==
  LET t == IF e.op = "check" THEN Checked(e) ELSE e.tree
      a == Avails(t)
  IN CASE e.names # Tail(Names(t)) \/ e.depths # Tail(Depths(t)) -> "a member is lost or out of place"
       [] \E i \in 1..Len(a) : e.avail[i] /\ ~a[i] -> "an absent requirement is reported as available"
       [] \E i \in 1..Len(a) : ~e.avail[i] /\ a[i] -> "an available requirement is reported as absent"
       [] e.printed # [i \in 1..Len(a) |-> [name |-> Names(t)[i], ok |-> a[i]]] -> "the report differs from what is available"
       [] OTHER -> "ok"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ verdict' = Judge(Cases[case].steps[step + 1]) /\ step' = step + 1 /\ UNCHANGED <<case, tree>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict,
              expect |-> LET e == Cases[case].steps[step] IN Avails(IF e.op = "check" THEN Checked(e) ELSE e.tree)]))
=============================================================================
