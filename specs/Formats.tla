------------------------------- MODULE Formats --------------------------------
(* Elements of HTML and commands of LaTeX written from names, attributes and
   contents.

   Only known names are written, with the attributes allowed for them; an
   unknown element is written as a span of that class, an unknown command or
   one without its required arguments is refused.  Attributes may be marked for
   a target; the others are not seen by it.  Contents come out once, in order.

   Elements are lists of tokens: the start of an element with the set of its
   attributes, texts, and ends.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxEntries
Range(s) == {s[i] : i \in 1..Len(s)}

\* the names that are known
HtmlArgs == [a |-> <<"href">>, img |-> <<"src">>, link |-> <<"rel">>]
HtmlOpts == [a |-> {"class", "role"}, aside |-> {"class", "id"}, blockquote |-> {}, br |-> {}, code |-> {}, caption |-> {"class", "id"}, dd |-> {}, div |-> {"class", "id"},
  dl |-> {}, dt |-> {}, em |-> {}, figure |-> {"id", "class"}, figcaption |-> {"id", "class"}, h1 |-> {"id", "class"}, h2 |-> {"id", "class"}, h3 |-> {"id", "class"},
  h4 |-> {"id", "class"}, h5 |-> {"id", "class"}, hr |-> {}, li |-> {"class"}, link |-> {"href", "media"}, i |-> {}, img |-> {"alt", "class", "style"}, ol |-> {"class"},
  p |-> {"class"}, pre |-> {"class"}, span |-> {"class", "id", "style"}, strong |-> {}, sub |-> {}, sup |-> {}, table |-> {"id", "class"}, tbody |-> {"class"},
  td |-> {"class"}, th |-> {"class"}, thead |-> {"class"}, tr |-> {"class"}, ul |-> {"class"}]
Known(name) == name \in DOMAIN HtmlOpts
Needs(name) == IF name \in DOMAIN HtmlArgs THEN HtmlArgs[name] ELSE <<>>
Allows(name) == IF Known(name) THEN HtmlOpts[name] ELSE HtmlOpts["span"]
S == "string"
I == "int"
PlainEnvs == {"align", "align*", "center", "examplebox", "featurebox", "problembox", "itemize", "table", "table*", "margintable", "toclist", "verbatim"}
Envs == PlainEnvs \cup {"alignat", "alignat*", "panel", "tabular", "enumerate", "easylist", "figure", "figure*", "marginfigure"}
EnvArgs(env) == CASE env \in {"alignat", "alignat*"} -> <<I>> [] env \in {"panel", "tabular"} -> <<S>> [] OTHER -> <<>>
EnvOpts(env) == CASE env = "enumerate" -> <<S, "=label">> [] env \in {"easylist", "figure", "figure*", "marginfigure"} -> <<S>> [] OTHER -> <<>>
PlainCmds == {"textbf", "textit", "part", "chapter", "section", "subsection", "subsubsection", "paragraph", "subparagraph", "part*", "chapter*", "section*", "subsection*",
  "subsubsection*", "maketitle", "title", "author", "today", "caption", "ensuremath", "marginnote", "marginpar", "item", "label", "boldsymbol", "toprule", "midrule",
  "bottomrule", "hfill", "detokenize"}
Cmds == PlainCmds \cup {"setcounter", "includegraphics", "textcolor", "pageref", "href"}
CmdArgs(cmd) == CASE cmd = "setcounter" -> <<S, I>> [] cmd \in {"textcolor", "pageref", "href"} -> <<S>> [] OTHER -> <<>>
CmdOpts(cmd) == IF cmd = "includegraphics" THEN <<"=width", "=height">> ELSE <<>>

\* ------------------------------------------------------------------ entries
(* an entry: name n, mark t for a target or "", and a value v; entries without
   a value (pos) are of a kind.  One asks for a name ("=name") or for a kind.  *)
First(es, P(_)) == LET p == {i \in 1..Len(es) : P(es[i])} IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A j \in p : i <= j
Asked(e, what, t) == e.t = t /\ IF e.pos THEN e.kind = what ELSE "=" \o e.n = what
Find(es, what, t) == LET own == First(es, LAMBDA e : Asked(e, what, t)) IN IF t # "" /\ own > 0 THEN own ELSE First(es, LAMBDA e : Asked(e, what, ""))
Found(es, asked, t) == {i \in 1..Len(asked) : Find(es, asked[i], t) > 0}
\* the entries found, in the order asked for
RECURSIVE Pick(_, _, _)
Pick(es, asked, t) == IF asked = <<>> THEN <<>>
  ELSE LET i == Find(es, Head(asked), t) IN (IF i > 0 THEN <<es[i]>> ELSE <<>>) \o Pick(es, Tail(asked), t)
Val(es, name, t) == LET i == Find(es, "=" \o name, t) IN es[i].v
Has(es, name, t) == Find(es, "=" \o name, t) > 0

\* ------------------------------------------------------------------ elements
Failed == "refused"
Text(s) == IF s = "" THEN <<>> ELSE <<[e |-> "text", n |-> s, a |-> {}]>>
Open(n, a) == [e |-> "open", n |-> n, a |-> a]
Close(n) == [e |-> "close", n |-> n, a |-> {}]
Attrs(name, es, t) ==
  LET ns == {n \in Range(Needs(name)) \cup Allows(name) : Has(es, n, t)}
  IN {<<n, Val(es, n, t)>> : n \in ns} \cup (IF Known(name) \/ "class" \in ns THEN {} ELSE {<<"class", name>>})
Refused(name, es, t) == \E n \in Range(Needs(name)) : ~Has(es, n, t)
RECURSIVE Element(_), Parts(_), Bad(_)
\* a node is a text or an element: name, entries, target, contents
Bad(x) == IF x.text THEN FALSE ELSE Refused(x.name, x.attrs, x.target) \/ \E i \in 1..Len(x.parts) : Bad(x.parts[i])
Element(x) == IF x.text THEN Text(x.name)
              ELSE LET n == IF Known(x.name) THEN x.name ELSE "span"
                   IN <<Open(n, Attrs(x.name, x.attrs, x.target))>> \o Parts(x.parts) \o <<Close(n)>>
Parts(q) == IF q = <<>> THEN <<>> ELSE Element(Head(q)) \o Parts(Tail(q))
\* texts next to each other are one
RECURSIVE Merge(_)
Merge(q) == IF Len(q) < 2 THEN q
            ELSE IF q[1].e = "text" /\ q[2].e = "text" THEN Merge(<<[q[1] EXCEPT !.n = @ \o q[2].n]>> \o SubSeq(q, 3, Len(q)))
            ELSE <<q[1]>> \o Merge(Tail(q))

\* ------------------------------------------------------------------ commands
RECURSIVE Cat(_, _)
Cat(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Cat(Tail(q), sep)
Args(q) == Cat([i \in 1..Len(q) |-> "{" \o (IF q[i].pos THEN q[i].n ELSE q[i].v) \o "}"], "")
Opt(e) == IF e.pos THEN e.n ELSE e.n \o "=" \o e.v
Opts(q) == IF q = <<>> THEN "" ELSE "[" \o Cat([i \in 1..Len(q) |-> Opt(q[i])], ", ") \o "]"
Back(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* the order of options is free
OptTexts(q) == {Opts(q), Opts(Back(q))}
Short(es, asked) == Found(es, asked, "tex") # 1..Len(asked)
CmdTexts(cmd, es, text, with) ==
  {"\\" \o cmd \o Args(Pick(es, CmdArgs(cmd), "tex")) \o o \o (IF with THEN "{" \o text \o "}" ELSE "") : o \in OptTexts(Pick(es, CmdOpts(cmd), "tex"))}
EnvBegins(env, es, short) == {"\\begin{" \o env \o "}" \o Args(Pick(es, EnvArgs(env), "tex")) \o o \o (IF short THEN " %" ELSE "") : o \in OptTexts(Pick(es, EnvOpts(env), "tex"))}

\* widths in tenths of percents: the smallest step that holds it
Steps == <<25, 33, 50, 67, 75, 100>>
Step(w) == LET p == {i \in 1..6 : w <= 10 * Steps[i]} IN CHOOSE i \in p : \A j \in p : i <= j
WidthClass == <<"w25", "w33", "w50", "w66", "w75", "w100">>
WidthTex == <<"0.24\\textwidth", "0.32\\textwidth", "0.49\\textwidth", "0.65\\textwidth", "0.74\\textwidth", "0.99\\textwidth">>

\* ------------------------------------------------------------------ documents
(* bodies of simple tags: each is a text or a tag with parts                   *)
Bolds == {"b", "bold", "textbf", "strong"}
Italics == {"i", "italics", "textit"}
Boxes == {"featurebox", "examplebox", "problembox"}
Heads == {"chapter", "section", "subsection", "subsubsection"}
HeadName(n) == CASE n = "chapter" -> "h2" [] n = "section" -> "h3" [] n = "subsection" -> "h4" [] OTHER -> "h5"
Verbs == {"verb", "v", "pre"}
BoxClass(n) == IF n = "featurebox" THEN n ELSE "featurebox " \o n
Symbols == [alpha |-> "\\ensuremath{\\alpha}", beta |-> "\\ensuremath{\\beta}", Omega |-> "\\ensuremath{\\Omega}"]
Figs == {"marginfig", "figure", "fig", "fullfigure", "fullfig", "ffig"}
FigClass(n) == CASE n = "marginfig" -> n [] n \in {"figure", "fig"} -> "figure" [] OTHER -> "fullfigure"
FigEnv(n) == CASE n = "marginfig" -> "marginfigure" [] n \in {"figure", "fig"} -> "figure" [] OTHER -> "figure*"
\* attributes with a class added to the given ones
Plus(a, cls) == LET own == {p \in a : p[1] = "class"}
                IN {p \in a : p[1] # "class"} \cup {<<"class", IF own = {} THEN cls ELSE (CHOOSE p \in own : TRUE)[2] \o " " \o cls>>}
RECURSIVE Html(_, _), Htmls(_, _), Tex(_), Texs(_)
Htmls(q, t) == IF q = <<>> THEN <<>> ELSE Html(Head(q), t) \o Htmls(Tail(q), t)
Wrapped(n, a, c) == <<Open(n, a)>> \o c \o <<Close(n)>>
Html(x, t) ==
  LET c == Htmls(x.parts, t)
      as(n) == Wrapped(n, Attrs(n, x.attrs, t), c)
  IN CASE x.text -> Text(x.name)
       [] x.name \in Bolds -> as("strong")
       [] x.name \in Italics -> as("i")
       [] x.name \in {"sup", "sub"} -> as(x.name)
       [] x.name = "supsub" -> Wrapped("span", {p \in Attrs("span", x.attrs, t) : p[1] # "class"} \cup {<<"class", "supsub">>},
                                       Text(x.parts[1].name) \o <<Open("br", {}), Close("br")>> \o Text(x.parts[2].name))
       [] x.name = "symbol" -> Text("(" \o x.parts[1].name \o ")")
       [] x.name \in Verbs -> as("code")
       [] x.name = "para" -> Wrapped("p", {}, c)
       [] x.name \in Boxes -> Wrapped("div", Plus(Attrs("div", x.attrs, t), BoxClass(x.name)), Wrapped("p", {}, c))
       [] x.name \in Figs -> Wrapped("figure", Plus(Attrs("figure", x.attrs, t), FigClass(x.name)), c)
       [] x.name = "panel" -> Wrapped("span", {<<"class", "panel " \o WidthClass[Step(x.tenths)]>>}, c)
       [] x.name \in Heads -> as(HeadName(x.name))
       [] OTHER -> LET n == IF Known(x.name) THEN x.name ELSE "span" IN Wrapped(n, Attrs(x.name, x.attrs, t), c)
Body(q, t) == Wrapped("div", {<<"class", "body">>}, Htmls(q, t))
Texs(q) == IF q = <<>> THEN "" ELSE Tex(Head(q)) \o Texs(Tail(q))
Tex(x) ==
  LET c == Texs(x.parts) IN
  CASE x.text -> x.name
    [] x.name \in Bolds -> "\\textbf{" \o c \o "}"
    [] x.name \in Italics -> "\\textit{" \o c \o "}"
    [] x.name = "sup" -> "\\ensuremath{^{" \o c \o "}}"
    [] x.name = "sub" -> "\\ensuremath{_{" \o c \o "}}"
    [] x.name = "supsub" -> "\\ensuremath{^{" \o x.parts[1].name \o "}_{" \o x.parts[2].name \o "}}"
    [] x.name = "symbol" -> Symbols[x.parts[1].name]
    [] x.name \in Verbs -> "\\verb?" \o c \o "?"
    [] OTHER -> c
\* the lines of blocks
RECURSIVE Lines(_), Panels(_)
Panels(q) == IF q = <<>> THEN <<>>
             ELSE IF Head(q).text THEN Panels(Tail(q))
             ELSE <<"\\begin{panel}{" \o WidthTex[Step(Head(q).tenths)] \o "}", Texs(Head(q).parts), "\\end{panel}">> \o Panels(Tail(q))
Block(x) == LET c == Texs(x.parts)
            IN IF x.name \in Boxes THEN <<"\\begin{" \o x.name \o "}", c, "\\end{" \o x.name \o "}">>
               ELSE IF x.name \in Figs
                    THEN <<"\\begin{" \o FigEnv(x.name) \o "}" \o Opts(Pick(x.attrs, <<S>>, "tex"))>> \o Panels(x.parts) \o <<"\\end{" \o FigEnv(x.name) \o "}">>
               ELSE IF x.name \in Heads THEN <<"\\" \o x.name \o "{" \o c \o "}">> ELSE <<c>>
Lines(q) == IF q = <<>> THEN <<>> ELSE Block(Head(q)) \o Lines(Tail(q))
\* paragraphs need a blank line between them
RECURSIVE Needed(_, _)
Needed(q, was) == IF q = <<>> THEN <<>>
                  ELSE [i \in 1..Len(Block(Head(q))) |-> i = 1 /\ was /\ Head(q).name = "para"] \o Needed(Tail(q), Head(q).name = "para")
Apart(q, got) == LET n == Needed(q, FALSE) IN \A i \in 1..Len(n) : n[i] => got[i] = TRUE

-----------------------------------------------------------------------------
(* the design: whatever the entries, only what is known is written             *)
VARIABLES es, name, case, step, verdict, want
vars == <<es, name, case, step, verdict, want>>
Pool == {[n |-> n, t |-> t, v |-> v, pos |-> FALSE, kind |-> ""] : n \in {"href", "class", "onclick"}, t \in {"", "html", "tex"}, v \in {"1", "2"}}
        \cup {[n |-> "x", t |-> t, v |-> "", pos |-> TRUE, kind |-> "string"] : t \in {"", "tex"}} \cup {[n |-> "3", t |-> "", v |-> "", pos |-> TRUE, kind |-> "int"]}
Init == es = <<>> /\ name \in DOMAIN HtmlOpts \cup {"foo"} /\ case = 0 /\ step = 0 /\ verdict = "ok" /\ want = {}
Next == /\ Len(es) < MaxEntries
        /\ \E e \in Pool : (\A i \in 1..Len(es) : es[i].n # e.n \/ es[i].t # e.t) /\ es' = Append(es, e)
        /\ UNCHANGED <<name, case, step, verdict, want>>
OnlyKnown == \A t \in {"html", "xhtml"} : LET a == Attrs(name, es, t) IN
   /\ \A p \in a : p[1] \in Range(Needs(name)) \cup Allows(name)
   /\ \A p, q \in a : p[1] = q[1] => p = q
   /\ ~Refused(name, es, t) => \A n \in Range(Needs(name)) : \E p \in a : p[1] = n
   /\ ~Known(name) => \E p \in a : p[1] = "class"
OwnWins == \A i \in 1..Len(es) : (es[i].t = "html" /\ ~es[i].pos) => Val(es, es[i].n, "html") = es[i].v
NotOthers == \A t \in {"html", "tex"}, what \in {"=href", "=class", "string", "int"} :
   LET i == Find(es, what, t) IN i > 0 => es[i].t \in {"", t}
\* a picture's classes of width grow with the width
Monotone == \A w \in 1..999 : Step(w) <= Step(w + 1)

-----------------------------------------------------------------------------
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ es = <<>> /\ name = "" /\ want = {}
Tokens(q) == [i \in 1..Len(q) |-> [e |-> q[i].e, n |-> q[i].n, a |-> {<<p[1], p[2]>> : p \in Range(q[i].a)}]]
Res(ok, w) == [ok |-> ok, w |-> w]
Written(e, w, got(_)) == Res(IF e.got = "ok" THEN got(w) ELSE FALSE, w)
V(e) ==
  CASE e.e = "element" -> IF Bad(e.node) THEN Res(e.got = "refused", Failed)
                          ELSE Written(e, Merge(Element(e.node)), LAMBDA w : w = Tokens(e.tokens))
    [] e.e = "command" -> IF e.name \notin Cmds \/ Short(e.attrs, CmdArgs(e.name)) THEN Res(e.got = "refused", Failed)
                          ELSE Written(e, {<<x>> : x \in CmdTexts(e.name, e.attrs, e.text, e.with)}, LAMBDA w : e.lines \in w)
    \* the lines of an environment, without blank ones
    [] e.e = "environment" -> IF e.name \notin Envs \/ Short(e.attrs, EnvArgs(e.name)) THEN Res(e.got = "refused", Failed)
                          ELSE Written(e, {<<x, e.text, "\\end{" \o e.name \o "}">> : x \in EnvBegins(e.name, e.attrs, e.short)}, LAMBDA w : e.lines \in w)
    [] e.e = "verb" -> Res(e.closed /\ e.inside = e.text, e.text)
    [] e.e = "width" -> IF e.tenths = 0 \/ e.tenths > 1000 THEN Res(TRUE, 0)
                        ELSE LET w == <<WidthClass[Step(e.tenths)], WidthTex[Step(e.tenths)]>> IN Res(w = <<e.html, e.tex>>, w)
    [] e.e = "html" -> Written(e, Merge(Body(e.body, e.target)), LAMBDA w : w = Tokens(e.tokens))
    [] e.e = "tex" -> Written(e, Lines(e.body), LAMBDA w : w = e.lines /\ Apart(e.body, e.apart))
    [] OTHER -> Res(FALSE, "unknown event")
What(e) == CASE e.e = "element" -> "an element" [] e.e = "command" -> "a command" [] e.e = "environment" -> "an environment" [] e.e = "verb" -> "verbatim text"
             [] e.e = "width" -> "a width" [] e.e = "html" -> "a page" [] e.e = "tex" -> "a LaTeX text" [] OTHER -> "?"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET e == Cases[case].steps[step + 1]
                r == V(e)
            IN /\ verdict' = IF r.ok THEN "ok" ELSE What(e)
               /\ want' = IF r.ok THEN {} ELSE {r.w}
         /\ step' = step + 1 /\ UNCHANGED <<case, es, name>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> want]))
=============================================================================
