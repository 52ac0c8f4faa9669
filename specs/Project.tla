------------------------------ MODULE Project ------------------------------
(* A disseminate project: source files on disk, and what loading the root document must give.
   The project state is the map of existing files; `write`, `remove` and `load` are its transitions.
   Fresh(files, root) is the meaning of the files: document tree, inherited header values, targets, labels with their
   numbers and enclosing headings, navigation, references, tables of contents.  A load must show Fresh of the current
   files whatever happened before (refinement of the incremental reload to a stateless one).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

RECURSIVE Join(_, _)
Join(q, sep) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Last1(q) == q[Len(q)]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f

(* ---------------------------------------------------------------- paths *)
RECURSIVE Norm(_, _)
Norm(acc, q) == IF q = <<>> THEN acc
                ELSE IF Head(q) \in {".", ""} THEN Norm(acc, Tail(q))
                ELSE IF Head(q) = ".." /\ acc # <<>> /\ Last1(acc) # ".." THEN Norm(SubSeq(acc, 1, Len(acc) - 1), Tail(q))
                ELSE Norm(Append(acc, Head(q)), Tail(q))
PathOf(q) == Join(q, "/")
Target(f, rel) == Norm(<<>>, f.dir \o rel)     \* an include path is relative to the including document

(* relative url from the file a (in its directory) to the file b, both as segments *)
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN 0 ELSE 1 + Common(Tail(a), Tail(b))
RelUrl(adir, b) == LET c == Common(adir, b)
                   IN PathOf([i \in 1..(Len(adir) - c) |-> ".."] \o SubSeq(b, c + 1, Len(b)))

(* ------------------------------------------------- contexts (header values) *)
DefaultResets == ("part" :> {"chapter", "section", "subsection", "subsubsection"})
              @@ ("chapter" :> {"section", "subsection", "subsubsection", "figure", "table"})
              @@ ("section" :> {"subsection", "subsubsection"}) @@ ("subsection" :> {"subsubsection"})
RootCtx == [title |-> "", hastitle |-> FALSE, target |-> <<>>, hastarget |-> FALSE, targets |-> {"html"}, vals |-> <<>>,
            resets |-> DefaultResets, inact |-> {"sidenote"}, level |-> 0, toc |-> "all headings expanded"]

RECURSIVE AddVals(_, _)
AddVals(f, kv) == IF kv = <<>> THEN f ELSE AddVals(Put(f, kv[1].k, kv[1].v), Tail(kv))
\* a set among the settings is extended; an entry that the settings do not have is plain text, and replaced
RECURSIVE AddResets(_, _)
AddResets(f, kv) == IF kv = <<>> THEN f ELSE AddResets(Put(f, kv[1].k, (IF kv[1].k \in DOMAIN DefaultResets THEN Get(f, kv[1].k, {}) ELSE {}) \cup Range(kv[1].add)), Tail(kv))

\* the values a document sees: those of its parent, overridden or extended by its own header
Inherit(pc, f) ==
  [pc EXCEPT !.title = IF f.hastitle THEN f.title ELSE @, !.hastitle = @ \/ f.hastitle,
             !.target = IF f.tkey = "target" THEN f.tg ELSE IF f.tkey = "targets" THEN <<>> ELSE @,
             !.hastarget = IF f.tkey = "target" THEN TRUE ELSE IF f.tkey = "targets" THEN FALSE ELSE @,
             !.targets = IF f.tkey = "targets" THEN Range(f.tg) ELSE @,
             !.vals = AddVals(@, f.vals), !.resets = AddResets(@, f.resets),
             !.inact = IF f.hasinact THEN Range(f.inact) ELSE @,
             !.toc = IF f.toc # "" THEN f.toc ELSE @,
             !.level = @ + 1]
\* target names are given without or with the leading dot; the generator gives [n |-> name, dot |-> BOOLEAN]
Enabled(c) == LET s == IF c.hastarget THEN Range(c.target) ELSE c.targets
              IN IF "none" \in s THEN {} ELSE s \ {""}

(* ------------------------------------------------------------- document tree *)
\* first problem in project order, or the documents
RECURSIVE LoadDoc(_, _, _, _)
RECURSIVE LoadSubs(_, _, _, _, _)
FirstDup(its) == \E i, j \in 1..Len(its) : i < j /\ its[i] = its[j]

HeadPrefix == ("title" :> "title") @@ ("part" :> "part") @@ ("chapter" :> "ch") @@ ("section" :> "sec")
           @@ ("subsection" :> "subsec") @@ ("subsubsection" :> "subsubsec")
IsHead(it) == it.t = "head"
Labelled(c, it) == \/ (IsHead(it) /\ ~it.nolabel /\ it.lv \notin c.inact)
                   \/ it.t = "cap"
LabelId(f, it) == IF it.id # "" THEN it.id ELSE HeadPrefix[it.lv] \o ":" \o f.slug \o "-" \o it.slug
LabelItems(c, f) == SelectSeq(f.items, LAMBDA it : Labelled(c, it))
LabelIds(c, f) == LET q == LabelItems(c, f) IN [i \in 1..Len(q) |-> LabelId(f, q[i])]

LoadDoc(files, path, pc, acc) ==
  LET p == PathOf(path) IN
  IF acc.err # "" THEN acc
  ELSE IF p \notin DOMAIN files THEN [acc EXCEPT !.err = "missing", !.at = p]
  ELSE LET f == files[p]
           c == Inherit(pc, f)
       IN IF f.fault = "big" THEN [acc EXCEPT !.err = "big", !.at = p]
          ELSE IF f.fault = "markup" THEN [acc EXCEPT !.err = "markup", !.at = p]
          ELSE IF FirstDup(<<"doc:" \o f.slug>> \o LabelIds(c, f)) THEN [acc EXCEPT !.err = "duplicate", !.at = p]
          ELSE LoadSubs(files, f, f.incl, c, [acc EXCEPT !.held = @ \cup {p}, !.docs = Append(@, [p |-> p, f |-> f, c |-> c])])
LoadSubs(files, f, incl, c, acc) ==
  IF incl = <<>> \/ acc.err # "" THEN acc
  ELSE LET t == Target(f, incl[1])
       IN LoadSubs(files, f, Tail(incl), c, IF PathOf(t) \in acc.held THEN acc ELSE LoadDoc(files, t, c, acc))

Fresh(files, root) == LoadDoc(files, root, RootCtx, [err |-> "", at |-> "", held |-> {}, docs |-> <<>>])

(* ------------------------------------------------------------------- labels *)
Title(d) == IF d.c.hastitle THEN d.c.title ELSE d.f.stem
Short(d) == IF d.f.short # "" THEN d.f.short ELSE Title(d)
Levels == <<"part", "chapter", "section", "subsection", "subsubsection">>
DocLabel(d) == [doc |-> d.p, id |-> "doc:" \o d.f.slug, kind |-> <<"document", "document-level-" \o ToString(d.c.level)>>,
                title |-> Short(d), isdoc |-> TRUE]
ItemLabel(d, it) == [doc |-> d.p, id |-> LabelId(d.f, it), isdoc |-> FALSE,
                     kind |-> IF IsHead(it) THEN <<"heading", it.lv>> ELSE <<"caption", it.kind>>,
                     title |-> IF it.short # "" THEN it.short ELSE it.text]
DocLabels(d) == <<DocLabel(d)>> \o LET q == LabelItems(d.c, d.f) IN [i \in 1..Len(q) |-> ItemLabel(d, q[i])]
RECURSIVE AllLabels(_)
AllLabels(docs) == IF docs = <<>> THEN <<>> ELSE DocLabels(docs[1]) \o AllLabels(Tail(docs))

\* one pass over the labels in project order
RECURSIVE Count(_, _, _, _)
Count(resets, kinds, cnt, ord) ==
  IF kinds = <<>> THEN [cnt |-> cnt, ord |-> ord]
  ELSE LET k == kinds[1]
           c1 == Put(cnt, k, Get(cnt, k, 0) + 1)
           c2 == [x \in Get(resets, k, {}) |-> 0] @@ c1
       IN Count(resets, Tail(kinds), c2, Append(ord, c2[k]))
NoHead == [key |-> "", n |-> 0, title |-> ""]
NoHeads == [i \in 1..5 |-> NoHead]
Update(h, l) == IF l.isdoc \/ ~(\E i \in 1..5 : Levels[i] = Last1(l.kind)) THEN h
                ELSE LET n == CHOOSE i \in 1..5 : Levels[i] = Last1(l.kind)
                     IN [i \in 1..5 |-> IF i < n THEN h[i] ELSE IF i = n THEN [key |-> l.doc \o "::" \o l.id, n |-> Last1(l.order), title |-> l.title] ELSE NoHead]
\* a document label is no content: it has no enclosing headings
RECURSIVE Register(_, _, _, _)
Register(resets, ls, cnt, h) ==
  IF ls = <<>> THEN <<>>
  ELSE LET r == Count(resets, ls[1].kind, cnt, <<>>)
           l == ls[1] @@ [order |-> r.ord]
           h2 == Update(h, l)
       IN <<l @@ [anc |-> IF l.isdoc THEN NoHeads ELSE h2]>> \o Register(resets, Tail(ls), r.cnt, h2)
Labels(docs) == IF docs = <<>> THEN <<>> ELSE Register(docs[1].c.resets, AllLabels(docs), <<>>, NoHeads)

Numbers(l) == LET q == SelectSeq(l.anc, LAMBDA a : a.key # "") IN [i \in 1..Len(q) |-> ToString(q[i].n)]
TreeNumber(l) == Join(Numbers(l), ".")

(* ---------------------------------------------------------------- the views *)
Ext(t) == "." \o t
DocView(d) == [path |-> d.p, title |-> Title(d), short |-> Short(d), targets |-> Enabled(d.c), level |-> d.c.level,
               vals |-> d.c.vals, resets |-> d.c.resets, inact |-> d.c.inact]
LabelView(l) == [doc |-> l.doc, id |-> l.id, kind |-> l.kind, order |-> l.order, title |-> l.title]
AncView(l) == [key |-> l.doc \o "::" \o l.id, anc |-> [i \in 1..5 |-> l.anc[i].key], num |-> TreeNumber(l)]

\* navigation: the neighbours among the documents of a target, by their first heading
NavDocs(docs, t) == SelectSeq(docs, LAMBDA d : t \in Enabled(d.c))
FirstHead(ls, p) == LET q == SelectSeq(ls, LAMBDA l : l.doc = p /\ l.kind[1] = "heading")
                    IN IF q = <<>> THEN "" ELSE q[1].doc \o "::" \o q[1].id
PosIn(q, p) == CHOOSE i \in 1..Len(q) : q[i].p = p
NavView(docs, ls, d) ==
  {LET q == NavDocs(docs, t)  i == PosIn(q, d.p)
   IN [t |-> t, prev |-> IF i = 1 THEN "" ELSE FirstHead(ls, q[i-1].p), next |-> IF i = Len(q) THEN "" ELSE FirstHead(ls, q[i+1].p)]
   : t \in Enabled(d.c)}

\* the text of a reference to a label, and of a heading or caption itself
RefText(l) == IF l.isdoc THEN l.title
              ELSE IF l.kind[1] = "caption" THEN (IF l.kind[2] = "figure" THEN "Fig. " ELSE "Table ") \o ToString(Last1(l.order))
              ELSE IF l.kind[2] = "part" THEN "Part " \o ToString(l.anc[1].n) \o ". " \o l.title
              ELSE IF l.kind[2] = "chapter" THEN "Chapter " \o ToString(l.anc[2].n) \o ". " \o l.title
              ELSE l.title
HeadText(l) == IF l.kind[2] \in {"title", "part", "chapter"} THEN RefText(l) ELSE TreeNumber(l) \o ". " \o l.title
CapText(l, it) == RefText(l) \o ". " \o it.text

DocAt(docs, p) == docs[CHOOSE i \in 1..Len(docs) : docs[i].p = p]
OutSegs(d, t) == d.f.dir \o <<d.f.base \o "." \o t>>
\* the link from document d to label l in target t ("" when l's document is not rendered to t)
Href(docs, d, l, t) ==
  IF l.doc = d.p THEN (IF l.isdoc THEN "" ELSE "#" \o l.id)
  ELSE LET o == DocAt(docs, l.doc)
       IN IF t \notin Enabled(o.c) THEN "none"
          ELSE RelUrl(d.f.dir, OutSegs(o, t)) \o (IF l.isdoc THEN "" ELSE "#" \o l.id)
Resolve(ls, it) == SelectSeq(ls, LAMBDA l : l.id = it.id /\ (it.doc = "" \/ l.doc = it.doc))
RefItems(d) == SelectSeq(d.f.items, LAMBDA it : it.t = "ref")
RefsKnown(ls, d) == \A i \in 1..Len(d.f.items) : d.f.items[i].t = "ref" => Resolve(ls, d.f.items[i]) # <<>>
Link(docs, ls, d, it, t) == LET l == Resolve(ls, it)[1] IN [href |-> Href(docs, d, l, t), text |-> RefText(l)]
RefView(docs, ls, d, t) ==
  IF ~RefsKnown(ls, d) THEN [err |-> TRUE]
  ELSE [err |-> FALSE, refs |-> LET q == RefItems(d) IN [i \in 1..Len(q) |-> Link(docs, ls, d, q[i], t)]]

\* headings and captions as shown in the rendered body
ShownView(ls, d) ==
  LET q == LabelItems(d.c, d.f)
      At(i) == LET id == LabelId(d.f, q[i]) IN SelectSeq(ls, LAMBDA l : l.doc = d.p /\ l.id = id)[1]
  IN [i \in 1..Len(q) |-> [id |-> LabelId(d.f, q[i]), text |-> IF IsHead(q[i]) THEN HeadText(At(i)) ELSE CapText(At(i), q[i])]]

\* table of contents: selection by words, then nesting by level
TocWords == ("all headings expanded" :> [all |-> TRUE, kind |-> "heading", abb |-> FALSE])
         @@ ("all headings" :> [all |-> TRUE, kind |-> "heading", abb |-> FALSE])
         @@ ("headings" :> [all |-> FALSE, kind |-> "heading", abb |-> FALSE])
         @@ ("heading" :> [all |-> FALSE, kind |-> "heading", abb |-> FALSE])
         @@ ("all headings abbreviated" :> [all |-> TRUE, kind |-> "heading", abb |-> TRUE])
         @@ ("all documents" :> [all |-> TRUE, kind |-> "document", abb |-> FALSE])
         @@ ("documents" :> [all |-> FALSE, kind |-> "document", abb |-> FALSE])
         @@ ("all documents abbreviated" :> [all |-> TRUE, kind |-> "document", abb |-> TRUE])
TocLabels(ls, d, w) ==
  LET s == TocWords[w]
      q == SelectSeq(ls, LAMBDA l : l.kind[1] = s.kind /\ (s.all \/ l.doc = d.p))
      keep == {i \in 1..Len(q) : ~s.abb \/ q[i].doc = d.p \/ i = 1 \/ q[i-1].doc # q[i].doc}
      idx == SetToSortSeq(keep, <)
  IN [i \in 1..Len(idx) |-> q[idx[i]]]
LevelOf(l) == IF l.kind[2] = "title" THEN 0
              ELSE IF \E i \in 1..5 : Levels[i] = l.kind[2] THEN CHOOSE i \in 1..5 : Levels[i] = l.kind[2] ELSE 1
\* depth of each item of a list: below the last item before it of a higher level that is not closed by one of the same or a higher level
RECURSIVE PopLevels(_, _)
PopLevels(stack, l) == IF stack # <<>> /\ stack[Len(stack)] >= l THEN PopLevels(SubSeq(stack, 1, Len(stack) - 1), l) ELSE stack
RECURSIVE OutlineOf(_, _)
OutlineOf(lv, stack) == IF lv = <<>> THEN <<>>
                        ELSE LET s == PopLevels(stack, lv[1]) IN <<Len(s)>> \o OutlineOf(Tail(lv), Append(s, lv[1]))
Depths(lv, d) == LET o == OutlineOf(lv, <<>>) IN [i \in DOMAIN o |-> o[i] + d]
TocView(docs, ls, d, w, t) ==
  LET q == TocLabels(ls, d, w)
      dep == Depths([i \in 1..Len(q) |-> LevelOf(q[i])], 1)
  IN [i \in 1..Len(q) |-> [depth |-> dep[i], href |-> Href(docs, d, q[i], t), text |-> RefText(q[i])]]
TocItems(d) == SelectSeq(d.f.items, LAMBDA it : it.t = "toc")
BodyTocs(docs, ls, d, t) == LET q == TocItems(d) IN [i \in 1..Len(q) |-> TocView(docs, ls, d, q[i].words, t)]

(* files written by a build: one for each document and enabled target, below the directory of that target *)
Outputs(docs) == {<<t>> \o OutSegs(docs[i], t) : <<i, t>> \in {<<i, t>> \in (1..Len(docs)) \X {"html", "tex", "txt", "xhtml"} : t \in Enabled(docs[i].c)}}

(* ----------------------------------------------------------------- verdicts *)
RECURSIVE KV(_)
KV(q) == IF q = <<>> THEN <<>> ELSE Put(KV(Tail(q)), q[1].k, q[1].v)
SeenDoc(o) == [path |-> o.path, title |-> o.title, short |-> o.short, targets |-> Range(o.targets), level |-> o.level,
               vals |-> KV(o.vals), resets |-> [k \in {o.resets[i].k : i \in 1..Len(o.resets)} |->
                  Range((CHOOSE r \in Range(o.resets) : r.k = k).v)], inact |-> Range(o.inact)]
\* the first component of an observation that differs from the expected one ("ok" when none does)
Has(o, k) == k \in DOMAIN o
Judge(files, root, o, built) ==
  LET r == Fresh(files, root)
      docs == r.docs
      ls == Labels(docs)
      n == Len(docs)
      Html(i) == "html" \in Enabled(docs[i].c)
  IN
  IF r.err # "" THEN (IF o.err = r.err /\ (o.err \in {"markup", "duplicate"} \/ o.at = r.at) THEN "ok" ELSE "a load that must fail was not reported as such (error kind and document)")
  ELSE IF \E i \in 1..n : Enabled(docs[i].c) # {} /\ ~RefsKnown(ls, docs[i])
       THEN (IF o.err = "unref" THEN "ok" ELSE "a reference to an unknown label was not reported")
  ELSE IF o.err # "" THEN "the load failed although the project is sound"
  ELSE IF Has(o, "tree") /\ o.tree # [i \in 1..n |-> docs[i].p] THEN "documents of the project or their order"
  ELSE IF Has(o, "byid") /\ o.byid # [i \in 1..n |-> docs[i].p] THEN "documents found by id differ from the documents of the project"
  ELSE IF Has(o, "docs") /\ [i \in 1..Len(o.docs) |-> SeenDoc(o.docs[i])] # [i \in 1..n |-> DocView(docs[i])] THEN "header values, title or targets of a document"
  ELSE IF Has(o, "labels") /\ o.labels # [i \in 1..Len(ls) |-> LabelView(ls[i])] THEN "labels, their order, numbers or titles"
  ELSE IF Has(o, "anc") /\ o.anc # LET q == SelectSeq(ls, LAMBDA l : ~l.isdoc) IN [i \in 1..Len(q) |-> AncView(q[i])] THEN "enclosing headings of a label"
  ELSE IF Has(o, "nav") /\ (Len(o.nav) # n \/ \E i \in 1..n : Range(o.nav[i]) # NavView(docs, ls, docs[i])) THEN "previous/next links"
  ELSE IF Has(o, "refs") /\ \E i \in 1..n : Html(i) /\ o.refs[i] # RefView(docs, ls, docs[i], "html") THEN "reference link or text"
  ELSE IF Has(o, "shown") /\ \E i \in 1..n : Html(i) /\ RefsKnown(ls, docs[i]) /\ o.shown[i] # ShownView(ls, docs[i]) THEN "heading or caption as rendered"
  ELSE IF Has(o, "tocs") /\ \E i \in 1..n : Html(i) /\ RefsKnown(ls, docs[i]) /\ o.tocs[i] # BodyTocs(docs, ls, docs[i], "html") THEN "table of contents in the body"
  ELSE IF Has(o, "toc") /\ \E i \in 1..n : Html(i) /\ o.toc[i] # TocView(docs, ls, docs[i], docs[i].c.toc, "html") THEN "table of contents of a document"
  ELSE IF Has(o, "outputs") /\ (Range(o.outputs) # built \cup Outputs(docs) \/ Len(o.outputs) # Cardinality(built \cup Outputs(docs))) THEN "rendered target files"
  ELSE IF Has(o, "outpaths") /\ \E i \in 1..n : Range(o.outpaths[i]) # {<<t>> \o OutSegs(docs[i], t) : t \in Enabled(docs[i].c)} THEN "target file paths of a document"
  ELSE "ok"

-----------------------------------------------------------------------------
(* the state machine: edits of the files and loads *)
Write(files, p, f) == Put(files, p, f)
Delete(files, p) == [q \in DOMAIN files \ {p} |-> files[q]]

Cases == JsonDeserialize(IOEnv.CASES)
CONSTANTS NF, MaxIncl      \* bounds of the generator
VARIABLES case, step, files, verdict, graph,
  built   \* target files written by builds so far (files of removed documents stay)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ files = <<>> /\ verdict = "ok" /\ graph = <<>> /\ built = {}
TNext ==
  /\ verdict = "ok" /\ step < Len(Cases[case].steps)
  /\ LET e == Cases[case].steps[step + 1]
     IN CASE e.op = "write" -> files' = Write(files, e.p, e.f) /\ verdict' = "ok" /\ UNCHANGED built
          [] e.op = "remove" -> files' = Delete(files, e.p) /\ verdict' = "ok" /\ UNCHANGED built
          [] e.op = "load" -> files' = files /\ verdict' = Judge(files, Cases[case].root, e.obs, built)
                                  /\ built' = IF Has(e.obs, "outputs") THEN built \cup Outputs(Fresh(files, Cases[case].root).docs) ELSE built
  /\ step' = step + 1 /\ UNCHANGED <<case, graph>>
Expected == LET r == Fresh(files, Cases[case].root)  ls == Labels(r.docs)
            IN [err |-> r.err, at |-> r.at, tree |-> [i \in 1..Len(r.docs) |-> r.docs[i].p],
                docs |-> [i \in 1..Len(r.docs) |-> DocView(r.docs[i])],
                labels |-> [i \in 1..Len(ls) |-> LabelView(ls[i])],
                anc |-> LET q == SelectSeq(ls, LAMBDA l : ~l.isdoc) IN [i \in 1..Len(q) |-> AncView(q[i])],
                nav |-> [i \in 1..Len(r.docs) |-> NavView(r.docs, ls, r.docs[i])],
                shown |-> [i \in 1..Len(r.docs) |-> ShownView(ls, r.docs[i])], outputs |-> SetToSeq(built),
                refs |-> [i \in 1..Len(r.docs) |-> RefView(r.docs, ls, r.docs[i], "html")],
                toc |-> [i \in 1..Len(r.docs) |-> TocView(r.docs, ls, r.docs[i], r.docs[i].c.toc, "html")],
                tocs |-> [i \in 1..Len(r.docs) |-> BodyTocs(r.docs, ls, r.docs[i], "html")]]
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> Expected]))

-----------------------------------------------------------------------------
(* Generator and design check: all include graphs over NF files with include lists of at most MaxIncl entries *)
Names == <<"a", "b", "c", "d">>
Blank(n) == [dir |-> <<>>, base |-> n, slug |-> n \o "-dm", stem |-> n, incl |-> <<>>, title |-> "", hastitle |-> FALSE, short |-> "",
             tkey |-> "", tg |-> <<>>, vals |-> <<>>, resets |-> <<>>, hasinact |-> FALSE, inact |-> <<>>, toc |-> "", items |-> <<>>, fault |-> ""]
InclLists == UNION {[1..k -> 1..NF] : k \in 0..MaxIncl}
GInit == graph \in [1..NF -> InclLists] /\ case = 0 /\ step = 0 /\ files = <<>> /\ verdict = "ok" /\ built = {}
GNext == FALSE /\ UNCHANGED <<graph, case, step, files, verdict, built>>
GFiles == [p \in {Names[i] \o ".dm" : i \in 1..NF} |->
            LET i == CHOOSE i \in 1..NF : Names[i] \o ".dm" = p
            IN [Blank(Names[i]) EXCEPT !.incl = [j \in 1..Len(graph[i]) |-> <<Names[graph[i][j]] \o ".dm">>]]]
GFresh == Fresh(GFiles, <<"a.dm">>)
\* the tree is finite, every reachable file occurs once, parents before children
Edges(p) == {PathOf(r) : r \in Range(GFiles[p].incl)}
RECURSIVE ReachFrom(_)
ReachFrom(s) == LET n == s \cup UNION {Edges(p) : p \in s} IN IF n = s THEN s ELSE ReachFrom(n)
OnceEach == LET q == GFresh.docs IN /\ Cardinality({q[i].p : i \in 1..Len(q)}) = Len(q)
                                    /\ {q[i].p : i \in 1..Len(q)} = ReachFrom({"a.dm"})
GEmit == PrintT(ToJson([incl |-> [i \in 1..NF |-> graph[i]], tree |-> [i \in 1..Len(GFresh.docs) |-> GFresh.docs[i].p]]))
=============================================================================
