------------------------------- MODULE Images -------------------------------
(* Images converted for the targets that show them.

   A converted image goes through stages, each of which reads the file made by
   the one before and writes one of its own.  A stage is up to date if its
   input and its output are as they were when it last ran.  Images of one
   source with different options share the first stages, and a build ends only
   if no stage writes a file that another one made.

   In the model the images of a page come from sources that may change; some of
   them are scaled.  With Apart the file before scaling and the result have
   places of their own (otherwise the result is put where the unscaled file
   was).                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Sources, Scales, MaxEdits, Apart
VARIABLES images, files, rec, runs, edits, case, step, verdict
vars == <<images, files, rec, runs, edits, case, step, verdict>>

AllImages == [src : Sources, scale : Scales]
Final(i) == IF Apart THEN <<"final", i.src, i.scale>> ELSE <<"final", i.src, 0>>
Middle(i) == IF Apart THEN <<"middle", i.src>> ELSE Final(i)
Stages(i) == IF i.scale = 0
             THEN << [op |-> 1, from |-> <<"source", i.src>>, to |-> Final(i)] >>
             ELSE << [op |-> 1, from |-> <<"source", i.src>>, to |-> Middle(i)],
                     [op |-> i.scale, from |-> Middle(i), to |-> <<"scaled", i.src, i.scale>>],
                     [op |-> 0, from |-> <<"scaled", i.src, i.scale>>, to |-> Final(i)] >>
Range(s) == {s[i] : i \in DOMAIN s}
AllStages == UNION {Range(Stages(i)) : i \in images}
Content(p) == IF p \in DOMAIN files THEN files[p] ELSE <<>>
Made(s) == IF s.op = 0 THEN Content(s.from) ELSE <<s.op>> \o Content(s.from)
Current(s) == s \in DOMAIN rec /\ Content(s.to) # <<>> /\ rec[s] = <<Content(s.from), Content(s.to)>>
\* the first stage of an image that isn't up to date
Pending(i) == LET q == Stages(i)
                  bad == {k \in DOMAIN q : ~Current(q[k])}
              IN IF bad = {} THEN <<>> ELSE <<q[CHOOSE k \in bad : \A l \in bad : k <= l]>>
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == /\ images \in (SUBSET AllImages) \ {{}} /\ files = [p \in {<<"source", s>> : s \in Sources} |-> <<100>>]
        /\ rec = <<>> /\ runs = 0 /\ edits = 0 /\ case = 0 /\ step = 0 /\ verdict = "ok"
Enough == 3 * Cardinality(AllImages)
Run(i) == /\ Pending(i) # <<>> /\ runs <= Enough
          /\ LET s == Pending(i)[1]
             IN /\ files' = Set(files, s.to, Made(s))
                /\ rec' = Set(rec, s, <<Content(s.from), Made(s)>>)
          /\ runs' = runs + 1
          /\ UNCHANGED <<images, edits, case, step, verdict>>
Edit == \E s \in Sources : /\ edits < MaxEdits /\ edits' = edits + 1 /\ runs' = 0
                           /\ files' = [files EXCEPT ![<<"source", s>>] = <<100 + edits + 1>>]
                           /\ UNCHANGED <<images, rec, case, step, verdict>>
Lose == \E p \in DOMAIN files : /\ p[1] # "source" /\ edits < MaxEdits /\ edits' = edits + 1 /\ runs' = 0
                                /\ files' = [q \in DOMAIN files \ {p} |-> files[q]]
                                /\ UNCHANGED <<images, rec, case, step, verdict>>
Next == (\E i \in images : Run(i)) \/ Edit \/ Lose
Expected(i) == IF i.scale = 0 THEN <<1>> \o files[<<"source", i.src>>] ELSE <<i.scale, 1>> \o files[<<"source", i.src>>]
Shows == (\A i \in images : Pending(i) = <<>>) => \A i \in images : Content(Final(i)) = Expected(i)
Ends == runs <= Cardinality(AllStages)
\* what was made stays as it is
Needed == \A s \in AllStages : Current(s) => Content(s.to) = (IF s.op = 0 THEN rec[s][1] ELSE <<s.op>> \o rec[s][1])

-----------------------------------------------------------------------------
(* Validation of recorded builds.  An image is a record of its tag, the
   extension and the present text of its file ("" and the text of the tag when
   it has none), and the options for each target.                            *)
Cases == JsonDeserialize(IOEnv.CASES)
TInit == case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ images = 0 /\ files = 0 /\ rec = 0 /\ runs = 0 /\ edits = 0
Web(t) == t \in {"html", "xhtml"}
If(c, s) == IF c THEN s ELSE <<>>
Scaled(i, t) == If(i.scale[t] # "", <<"scale" \o i.scale[t]>>)
Math(i) == <<"tex", IF i.env # "" THEN "env:" \o i.env ELSE IF i.block THEN "env:align*" ELSE "inline">>
           \o If(i.bold, <<"bold">>) \o If(i.color # "", <<"color:" \o i.color>>) \o <<i.text>>
Svg(i, t) == Scaled(i, t) \o <<"svg" \o i.page[t]>>
\* the steps that lead to the image shown, the last one first
Shown(i, t) ==
  IF i.tag = "eq" THEN Scaled(i, t) \o <<"svg", "crop">> \o Math(i)
  ELSE IF i.ext \in {"tif", "tiff"} THEN <<"png", i.text>>
  ELSE IF i.ext = "png" THEN <<i.text>>
  ELSE IF i.ext = "svg" THEN <<i.text>>
  ELSE IF i.ext = "pdf" THEN If(Web(t), Svg(i, t)) \o <<i.text>>
  ELSE If(Web(t), Svg(i, t)) \o <<"asy", i.text>>
Image(i, t) == ~(i.tag = "eq" /\ t = "tex")          \* set by LaTeX itself
ToolsOf(i, t) ==
  IF i.tag = "eq" THEN {"pdflatex", "pdf-crop-margins", "pdf2svg"} \cup (IF i.scale[t] # "" THEN {"rsvg-convert"} ELSE {})
  ELSE IF i.ext \in {"tif", "tiff"} THEN {"convert"}
  ELSE IF i.ext \in {"png", "svg"} THEN {}
  ELSE (IF i.ext = "pdf" THEN {} ELSE {"asy"}) \cup (IF Web(t) THEN {"pdf2svg"} \cup (IF i.scale[t] # "" THEN {"rsvg-convert"} ELSE {}) ELSE {})
Possible(i, t, tools) == IF ~Image(i, t) THEN TRUE ELSE ToolsOf(i, t) \subseteq tools /\ ~(i.ext = "svg" /\ t = "tex")
ImagesIn(d, t) == SelectSeq(d.images, LAMBDA i : Image(i, t))
ShownIn(d, t) == LET q == ImagesIn(d, t) IN [k \in DOMAIN q |-> Shown(q[k], t)]
Pages(e) == {[doc |-> d.doc, target |-> t, shown |-> ShownIn(d, t)] : d \in Range(e.docs), t \in Range(e.targets)}
AllShown(e) == UNION {{<<t, d.doc, i>> : i \in Range(ImagesIn(d, t))} : d \in Range(e.docs), t \in Range(e.targets)}
Works(e) == \A d \in Range(e.docs), t \in Range(e.targets), k \in 1..6 :
              k \in DOMAIN d.images => Possible(d.images[k], t, Range(e.tools))
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Cardinality(ToolsOf(x[3], x[1])) + Sum(S \ {x})
\* the images that weren't there, as they are, after the build before
New(c, k) == LET e == Cases[c].steps[k] IN AllShown(e) \ (IF k = 1 THEN {} ELSE AllShown(Cases[c].steps[k - 1]))
Judge(c, k) ==
  LET e == Cases[c].steps[k]
  IN IF ~Works(e) THEN (IF e.status = "done" THEN "an image that can't be converted is refused" ELSE "ok")
     ELSE IF e.error # "" THEN "the images are converted"
     ELSE IF e.status # "done" THEN "the build is done"
     ELSE IF Range(e.pages) # Pages(e) THEN "the pages show their images"
     ELSE IF e.ran > Sum(New(c, k)) THEN "only new images are converted, once"
     ELSE "ok"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ verdict' = Judge(case, step + 1) /\ step' = step + 1
         /\ UNCHANGED <<case, images, files, rec, runs, edits>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict,
             expect |-> LET e == Cases[case].steps[step] IN [pages |-> Pages(e) \ Range(e.pages), runs |-> Sum(New(case, step))]]))
=============================================================================
