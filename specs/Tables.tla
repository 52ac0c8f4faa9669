------------------------------- MODULE Tables --------------------------------
(* Tables of data with delimiters.

   The data of a table is read character by character: cells are separated by
   the delimiter and records by line ends; blanks before a cell are skipped; a
   cell in quotes may hold delimiters, line ends and doubled quotes.  Records
   that are blank lines are not rows.  The first record names the columns
   unless the tag has no header.  Every record is shown in full: a table has as
   many columns as its longest record.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxRows, MaxCols, Kinds
Q == "\""
NL == "\n"
Range(s) == {s[i] : i \in 1..Len(s)}

\* the reader
Begin == [rows |-> <<>>, row |-> <<>>, cell |-> <<>>, at |-> "record"]
CloseCell(p, at) == [p EXCEPT !.row = Append(@, p.cell), !.cell = <<>>, !.at = at]
CloseRow(p) == LET q == CloseCell(p, "record") IN [q EXCEPT !.rows = Append(@, q.row), !.row = <<>>]
Read(p, c, delim) ==
  CASE p.at = "record" /\ c = NL -> [p EXCEPT !.rows = Append(@, <<>>)]
    [] p.at \in {"record", "cell"} /\ c = " " -> [p EXCEPT !.at = "cell"]
    [] p.at \in {"record", "cell"} /\ c = Q -> [p EXCEPT !.at = "quoted"]
    [] p.at = "quoted" /\ c = Q -> [p EXCEPT !.at = "quote"]
    [] p.at = "quoted" -> [p EXCEPT !.cell = Append(@, c)]
    [] p.at = "quote" /\ c = Q -> [p EXCEPT !.cell = Append(@, c), !.at = "quoted"]
    [] c = delim -> CloseCell(p, "cell")
    [] c = NL -> CloseRow(p)
    [] OTHER -> [p EXCEPT !.cell = Append(@, c), !.at = "text"]
Finish(p) == (IF p.at = "record" THEN p ELSE CloseRow(p)).rows
RECURSIVE ReadAll(_, _, _)
ReadAll(p, s, delim) == IF s = <<>> THEN Finish(p) ELSE ReadAll(Read(p, Head(s), delim), Tail(s), delim)
Blank(row) == Len(row) = 0 \/ (Len(row) = 1 /\ Range(row[1]) \subseteq {" ", "\t"})
Records(s, delim) == SelectSeq(ReadAll(Begin, s, delim), LAMBDA r : ~Blank(r))

\* the table
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Width(rows) == Max({Len(rows[i]) : i \in 1..Len(rows)})
Pad(row, w) == [i \in 1..w |-> IF i <= Len(row) THEN row[i] ELSE <<>>]
Padded(rows) == [i \in 1..Len(rows) |-> Pad(rows[i], Width(rows))]
Table(rows, header) == [head |-> IF header THEN SubSeq(Padded(rows), 1, 1) ELSE <<>>,
                        body |-> IF header THEN Tail(Padded(rows)) ELSE Padded(rows)]

-----------------------------------------------------------------------------
(* The exhaustive model: every small table written in every way is read back *)
VARIABLES table, text, p, case, step, verdict, want
vars == <<table, text, p, case, step, verdict, want>>
Cells == LET c == << <<>>, <<"a">>, <<" ", "a">>, <<",">>, <<"\"">>, <<"a", "\n">>, <<"a", "\"">>, <<"b", " ", "a">> >> IN {c[k] : k \in Kinds}
RECURSIVE Double(_), JoinBy(_, _), Line(_, _, _)
Double(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = Q THEN <<Q, Q>> ELSE <<Head(s)>>) \o Double(Tail(s))
JoinBy(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinBy(Tail(q), sep)
Quoted(cell) == <<Q>> \o Double(cell) \o <<Q>>
\* a cell has to be quoted if its characters have a meaning, and may be otherwise
Must(cell) == Range(cell) \cap {Q, NL, ","} # {} \/ (cell # <<>> /\ cell[1] = " ")
Line(row, quote, gap) == JoinBy([i \in 1..Len(row) |-> IF quote \/ Must(row[i]) THEN Quoted(row[i]) ELSE row[i]], <<",">> \o gap)
Written(rows, quote, gap, sep, ends) == ends \o JoinBy([i \in 1..Len(rows) |-> Line(rows[i], quote, gap)], sep) \o ends
Rows == UNION {[1..n -> Cells] : n \in 2..MaxCols}
Init == /\ \E n \in 1..MaxRows : table \in [1..n -> Rows]
        /\ \E quote \in BOOLEAN, gap \in {<<>>, <<" ">>}, sep \in {<<NL>>, <<NL, NL>>, <<NL, " ", NL>>, <<NL, " ">>}, ends \in {<<>>, <<NL>>, <<NL, " ">>} :
              text = Written(table, quote, gap, sep, ends)
        /\ p = Begin /\ case = 0 /\ step = 0 /\ verdict = "reading" /\ want = 0
Next == IF text # <<>>
        THEN p' = Read(p, Head(text), ",") /\ text' = Tail(text) /\ UNCHANGED <<table, case, step, verdict, want>>
        ELSE verdict = "reading" /\ verdict' = "read" /\ UNCHANGED <<table, text, p, case, step, want>>
SameTable == verdict = "read" => SelectSeq(Finish(p), LAMBDA r : ~Blank(r)) = table
AllShown == verdict = "read" =>
  \A h \in BOOLEAN : LET t == Table(table, h) IN
     /\ Len(t.head) + Len(t.body) = Len(table)
     /\ \A i \in 1..Len(table) : LET r == (t.head \o t.body)[i] IN Len(r) = Width(table) /\ SubSeq(r, 1, Len(table[i])) = table[i]

-----------------------------------------------------------------------------
(* Cells as they are shown: white space at their ends is free, and line ends are blanks *)
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in {" ", "\t"} THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in {" ", "\t"} THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Shown(cell) == LTrim(RTrim([i \in 1..Len(cell) |-> IF cell[i] \in {NL, "\t"} THEN " " ELSE cell[i]]))
ShownRows(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> Shown(rows[i][j])]]

Cases == JsonDeserialize(IOEnv.CASES)
TInit == /\ case \in 1..Len(Cases) /\ step = 0 /\ verdict = "ok" /\ want = <<>>
         /\ table = 0 /\ text = 0 /\ p = 0
Want(e) == LET t == Table(Records(e.text, e.delim), e.header) IN [head |-> ShownRows(t.head), body |-> ShownRows(t.body)]
Judge(e, w) ==
  CASE e.e = "shown" -> IF e.error # "" THEN "a table with data fails"
                        ELSE IF e.head # w.head THEN "the names of the columns differ"
                        ELSE IF e.body # w.body THEN "the rows of a table differ from its data"
                        ELSE IF e.columns # 0 /\ e.columns # Width(w.head \o w.body) THEN "the number of columns differs" ELSE "ok"
    [] e.e = "size" -> IF e.error # "" THEN "a table with data fails"
                       ELSE IF e.cols # Width(w.head \o w.body) \/ e.rows # Len(w.body) THEN "the size of the data differs" ELSE "ok"
    [] OTHER -> "unknown event"
TNext == /\ verdict = "ok" /\ step < Len(Cases[case].steps)
         /\ LET e == Cases[case].steps[step + 1]
                w == Want(e)
            IN verdict' = Judge(e, w) /\ want' = IF verdict' = "ok" THEN <<>> ELSE <<w>>
         /\ step' = step + 1 /\ UNCHANGED <<case, table, text, p>>
TReport == verdict = "ok" \/ PrintT(ToJson([case |-> case, step |-> step, clause |-> verdict, expect |-> want]))
=============================================================================
