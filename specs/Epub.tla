-------------------------------- MODULE Epub --------------------------------
(* The electronic book (epub) of a project.

   A book is an archive made of the rendered pages of all documents, a
   navigation page, the files these use, and a package file with the title,
   the list of files and the reading order.  A build makes the book anew if
   the recorded inputs are not those of now, and leaves it otherwise.  It is
   the book of the present sources if the record covers the pages, the
   navigation page, the order of the pages, the entries of the header that
   are in the package file, and the files used.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Covers, MaxOps
P == INSTANCE Paths WITH Depth <- 0, placed <- {}, case <- 0, step <- 0, verdict <- ""

VARIABLES text, swapped, title, image, page, nav, book, record, ran, ops, case, step, verdict
vars == <<text, swapped, title, image, page, nav, book, record, ran, ops, case, step, verdict>>
Docs == {"a", "b"}
Reading == IF swapped THEN <<"b", "a">> ELSE <<"a", "b">>
\* pages show their own text (references to others are left out here, they are part of specs/Site.tla), the navigation
\* page the headings in order
PageOf(d) == [doc |-> d, text |-> text[d]]
\* only documents with text 1 have a heading
NavOf == SelectSeq(Reading, LAMBDA d : text[d] = 1)
BookOf == [pages |-> [d \in Docs |-> PageOf(d)], nav |-> NavOf, order |-> Reading, entries |-> title, files |-> image]
None == [p \in {"none"} |-> 0]
\* what the book is made of when its step is decided
Parts == [pages |-> page, nav |-> nav, order |-> Reading, entries |-> title, files |-> image]
Recorded == [p \in Covers |-> Parts[p]]
Init == /\ text = [d \in Docs |-> 0] /\ swapped = FALSE /\ title = 0 /\ image = 0
        /\ page = [d \in Docs |-> None] /\ nav = <<>> /\ book = None /\ record = None /\ ran = FALSE /\ ops = 0
        /\ case = 0 /\ step = 0 /\ verdict = "edited"
Same == UNCHANGED <<page, nav, book, record, ran, case, step>>
Edit == /\ \/ \E d \in Docs, v \in 0..2 : text' = [text EXCEPT ![d] = v] /\ UNCHANGED <<swapped, title, image>>
           \/ swapped' = ~swapped /\ UNCHANGED <<text, title, image>>
           \/ title' = 1 - title /\ UNCHANGED <<text, swapped, image>>
           \/ image' = 1 - image /\ UNCHANGED <<text, swapped, title>>
        /\ ops < MaxOps /\ ops' = ops + 1 /\ verdict' = "edited" /\ Same
Damage == book' = None /\ verdict' = "edited" /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<text, swapped, title, image, page, nav, record, ran, case, step>>
Pages == /\ verdict = "edited" /\ verdict' = "pages" /\ page' = [d \in Docs |-> PageOf(d)] /\ nav' = NavOf
         /\ UNCHANGED <<text, swapped, title, image, book, record, ran, ops, case, step>>
Bind == /\ verdict = "pages" \/ (verdict = "built" /\ ops < MaxOps)
        /\ ran' = (record # Recorded \/ book = None)
        /\ book' = IF ran' THEN Parts ELSE book
        /\ record' = IF ran' THEN Recorded ELSE record
        /\ verdict' = IF verdict = "built" THEN "idle" ELSE "built"
        /\ ops' = IF verdict = "built" THEN ops + 1 ELSE ops
        /\ UNCHANGED <<text, swapped, title, image, page, nav, case, step>>
Next == Edit \/ Damage \/ Pages \/ Bind
AsNow == verdict \in {"built", "idle"} => book = BookOf
NothingToDo == verdict = "idle" => ~ran

-----------------------------------------------------------------------------
(* Validation of recorded sessions. *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ text = 0 /\ swapped = 0 /\ title = 0 /\ image = 0 /\ page = 0 /\ nav = 0
         /\ book = 0 /\ record = 0 /\ ran = 0 /\ ops = 0
Range(s) == {s[i] : i \in DOMAIN s}
Uniq(s) == Cardinality(Range(s)) = Len(s)
\* the documents in reading order: each before those it includes
DocOf(s, n) == CHOOSE d \in Range(s.docs) : d.name = n
RECURSIVE Order(_, _), OrderAll(_, _)
Order(s, n) == <<n>> \o OrderAll(s, DocOf(s, n).incl)
OrderAll(s, ns) == IF ns = <<>> THEN <<>> ELSE Order(s, Head(ns)) \o OrderAll(s, Tail(ns))
FileOf(s, n) == CHOOSE f \in Range(s.files) : f.name = n
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Heads(s, n) == LET i == SelectSeq(DocOf(s, n).items, LAMBDA x : x.k = "head") IN [k \in DOMAIN i |-> [doc |-> n, tok |-> i[k].tok]]
Owner(s, id) == CHOOSE d \in Range(s.docs) : \E k \in DOMAIN d.items : d.items[k].k = "head" /\ d.items[k].id = id

Mime == <<P!T!SplitAt(<<"m", "i", "m", "e", "t", "y", "p", "e">>, "/")[1]>>
Container == <<<<"M", "E", "T", "A", "-", "I", "N", "F">>, <<"c", "o", "n", "t", "a", "i", "n", "e", "r", ".", "x", "m", "l">>>>
MediaType(p) == LET n == p[Len(p)]
                    E(w) == P!T!EndsWith(n, w)
                IN CASE E(<<".", "x", "h", "t", "m", "l">>) -> "application/xhtml+xml" [] E(<<".", "c", "s", "s">>) -> "text/css"
                     [] E(<<".", "s", "v", "g">>) -> "image/svg+xml" [] E(<<".", "p", "n", "g">>) -> "image/png" [] OTHER -> "none"
Fragment(u) == LET i == P!T!Index(u, <<"#">>) IN IF i = 0 THEN <<>> ELSE P!T!From(u, i + 1)
At(e, p) == CHOOSE i \in DOMAIN e.entries : e.entries[i].path = p
Has(e, p) == \E i \in DOMAIN e.entries : e.entries[i].path = p
\* a link leads to a file of the book, and to a place in it
Leads(e, from, u) == LET p == P!Resolve(from, u) IN
  Has(e, p) /\ (Fragment(u) = <<>> \/ P!Unquote(Fragment(u)) \in Range(e.entries[At(e, p)].ids))
JudgeBook(e) ==
  LET s == e.state
      order == Order(s, s.root)
      paths == [i \in DOMAIN e.entries |-> e.entries[i].path]
      opf == P!Resolve(<<>>, e.package)
      Item(i) == P!Resolve(opf, e.manifest[i].href)
      items == [i \in DOMAIN e.manifest |-> Item(i)]
      ids == [i \in DOMAIN e.manifest |-> e.manifest[i].id]
      navs == {i \in DOMAIN e.manifest : e.manifest[i].nav}
      navi == CHOOSE i \in navs : TRUE
      SpineItem(k) == CHOOSE i \in DOMAIN ids : ids[i] = e.spine[k]
      reading == SelectSeq([k \in DOMAIN e.spine |-> SpineItem(k)], LAMBDA i : i # navi)
      Entry(k) == e.entries[At(e, items[reading[k]])]
      PageOfDoc(n) == items[reading[CHOOSE k \in DOMAIN order : order[k] = n]]
      shown == e.entries[At(e, items[navi])]
      heads == Flat([k \in DOMAIN order |-> Heads(s, order[k])])
      NavDoc(m) == PageOfDoc(IF heads = <<>> THEN order[m] ELSE heads[m].doc)
      Good(k) == LET x == Entry(k).shown
                     w == DocOf(s, order[k]).items
                 IN Len(x) = Len(w) /\ \A j \in DOMAIN w :
                      CASE w[j].k \in {"mark", "head"} -> x[j].k = "w" /\ x[j].tok = w[j].tok
                        [] w[j].k = "img" -> x[j].k = "img" /\ LET q == P!Resolve(Entry(k).path, x[j].url)
                                                               IN Has(e, q) /\ e.entries[At(e, q)].tok = FileOf(s, w[j].tok).tok
                        [] OTHER -> x[j].k = "a" /\ P!Resolve(Entry(k).path, x[j].url) = PageOfDoc(Owner(s, w[j].id).name)
  IN IF e.entries = <<>> THEN "there is no book"
     ELSE IF paths[1] # Mime \/ ~e.stored THEN "the archive starts with its type"
     ELSE IF ~Uniq(paths) THEN "each file is in the archive once"
     ELSE IF \E i \in DOMAIN e.entries : ~e.entries[i].ok THEN "the files are well-formed"
     ELSE IF ~Has(e, Container) \/ ~Has(e, opf) THEN "the container names the package file"
     ELSE IF ~Uniq(items) \/ Range(items) # Range(paths) \ {Mime, Container, opf} THEN "the package lists the files of the archive"
     ELSE IF ~Uniq(ids) \/ ~Uniq(e.spine) \/ ~(Range(e.spine) \subseteq Range(ids)) THEN "identifiers name one file"
     ELSE IF \E i \in DOMAIN e.manifest : e.manifest[i].type # MediaType(items[i]) THEN "the package has the types of the files"
     ELSE IF Cardinality(navs) # 1 THEN "there is one navigation page"
     ELSE IF e.title # s.title THEN "the book has the title of the project"
     ELSE IF Len(reading) # Len(order) THEN "each document is read once"
     ELSE IF \E k \in DOMAIN order : ~Good(k) THEN "the pages are those of the documents, in their order"
     ELSE IF Len(shown.links) # (IF heads = <<>> THEN Len(order) ELSE Len(heads))
          \/ (\E k \in DOMAIN shown.links : P!Resolve(shown.path, shown.links[k].url) # NavDoc(k))
          \/ (heads # <<>> /\ \E k \in DOMAIN heads : shown.links[k].tok # heads[k].tok)
          THEN "the navigation page lists the headings (or the documents without any) in order"
     ELSE IF \E i \in DOMAIN e.entries : \E k \in DOMAIN e.entries[i].urls : ~P!HasScheme(e.entries[i].urls[k]) /\ ~Leads(e, e.entries[i].path, e.entries[i].urls[k])
          THEN "links lead to places in the book"
     ELSE "ok"
Judge(e) == CASE e.e = "book" -> IF e.result # "done" THEN "the build ends well" ELSE JudgeBook(e)
              [] e.e = "idle" -> IF e.changed # <<>> THEN "building again without a change writes nothing" ELSE "ok"
              [] OTHER -> "unknown event"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ verdict' = Judge(Cases[case].steps[step + 1])
         /\ step' = step + 1 /\ UNCHANGED <<text, swapped, title, image, page, nav, book, record, ran, ops, case>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict,
             expect |-> LET e == Cases[case].steps[step] IN IF e.e = "book" THEN Order(e.state, e.state.root) ELSE <<>>]))
=============================================================================
