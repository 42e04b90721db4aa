------------------------------ MODULE Extract ------------------------------
(* C21 and C23, what the two commands make of their input.

   A cell is a sequence of symbols (IDr: text that names the file, the sheet and
   the r-th row).  grate2tsv: every sheet with a value in it gives one output of
   the rows that survive the options, and every sheet one line with its number
   of rows written and the last column in use; a file that cannot be opened gives
   one line.  -r turns every run of blanks, tabs and line breaks into one blank,
   -w removes them at both ends, -b drops rows whose cells are then all empty,
   -p writes no outputs; each on its own.
   grater: every record of every sheet, in order, fields separated by tabs;
   what cannot be had is passed over.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, MaxFiles, MaxSheets, MaxRows, MaxCols, Palette, Copies, Times, Cpus, Cmds

VARIABLES files,  \* [kind, sheets: seq of [w, rows] | Bad]
          opt,    \* copies of the whole list, times that each table is repeated
          phase
vars == <<files, opt, phase>>

Space == {"SP", "TAB", "LF", "CR"}
Cells == [ nil |-> <<>>, x |-> <<"x">>, sp |-> <<"SP">>, xssy |-> <<"x", "SP", "SP", "y">>, sx |-> <<"SP", "x">>, xs |-> <<"x", "SP">>,
           xny |-> <<"x", "LF", "y">>, rn |-> <<"CR", "LF">>, xty |-> <<"x", "TAB", "y">>, t |-> <<"TAB">>, ssnx |-> <<"SP", "SP", "LF", "x">>,
           xnst |-> <<"x", "LF", "SP", "TAB">>, n |-> <<"LF">>, xrny |-> <<"x", "CR", "LF", "y">>, ee |-> <<"E9", "SP">> ]
\* what a kind of file can hold
Holds(kind, c) == CASE kind = "tsv" -> \A k \in 1..Len(c) : c[k] \notin {"TAB", "LF", "CR"}
                    [] kind = "csv" -> \A k \in 1..Len(c) : c[k] \notin {"TAB", "CR"}
                    [] OTHER -> TRUE
Broken == {"missing", "garbage", "cut"}
Books == {"xls", "xlsx"}
Bad == [w |-> 0, rows |-> <<>>, bad |-> TRUE]

Init == files = <<>> /\ opt = [cmd |-> ""] /\ phase = "opts"
Options == /\ phase = "opts" /\ phase' = "file"
           /\ opt' \in [cmd : Cmds, r : BOOLEAN, w : BOOLEAN, b : BOOLEAN, p : BOOLEAN, cpus : Cpus, copies : Copies, times : Times, again : BOOLEAN]
           /\ (opt'.cmd = "grater" => opt'.r /\ opt'.w /\ opt'.b /\ ~opt'.p /\ ~opt'.again /\ opt'.copies <= 3)
           /\ (opt'.copies > 9 => opt'.times = 1 /\ ~opt'.p /\ ~opt'.again)
           /\ UNCHANGED files
AddFile == /\ phase = "file" /\ Len(files) < MaxFiles
           /\ \E k \in Kinds : files' = Append(files, [kind |-> k, sheets |-> <<>>]) /\ phase' = IF k \in Broken THEN "file" ELSE "sheet"
           /\ UNCHANGED opt
N == Len(files)
F == files[N]
M == Len(F.sheets)
AddSheet == /\ phase = "sheet" /\ M < (IF F.kind \in Books THEN MaxSheets ELSE 1)
            /\ \/ /\ F.kind \in Books /\ files' = [files EXCEPT ![N].sheets = Append(@, Bad)] /\ UNCHANGED phase
               \/ \E c \in 1..MaxCols :
                     /\ (F.kind = "tsv" => c > 1)
                     /\ files' = [files EXCEPT ![N].sheets = Append(@, [w |-> c, rows |-> <<>>, bad |-> FALSE])]
                     /\ phase' = "row"
            /\ UNCHANGED opt
S == F.sheets[M]
AddRow == /\ phase = "row" /\ Len(S.rows) < MaxRows
          /\ files' = [files EXCEPT ![N].sheets[M].rows = Append(@, <<>>)] /\ phase' = "cell"
          /\ UNCHANGED opt
Row == S.rows[Len(S.rows)]
AddCell == /\ phase = "cell" /\ Len(Row) < S.w
           /\ \E c \in Palette \cup {"id"} :
                LET v == IF c = "id" THEN <<"ID" \o ToString(Len(S.rows))>> ELSE Cells[c] IN
                /\ Holds(F.kind, v)
                /\ files' = [files EXCEPT ![N].sheets[M].rows[Len(S.rows)] = Append(@, v)]
           /\ UNCHANGED <<opt, phase>>
EndRow == phase = "cell" /\ Len(Row) = S.w /\ phase' = "row" /\ UNCHANGED <<files, opt>>
EndSheet == /\ phase = "row" /\ (F.kind = "tsv" => S.rows # <<>>)
            /\ phase' = "sheet" /\ UNCHANGED <<files, opt>>
EndFile == phase = "sheet" /\ M > 0 /\ phase' = "file" /\ UNCHANGED <<files, opt>>

\* ---- the cleaning, cell by cell ----
RECURSIVE Squeeze(_, _)
Squeeze(c, gap) == IF c = <<>> THEN IF gap THEN <<"SP">> ELSE <<>>
                   ELSE IF Head(c) \in Space THEN Squeeze(Tail(c), TRUE)
                   ELSE (IF gap THEN <<"SP">> ELSE <<>>) \o <<Head(c)>> \o Squeeze(Tail(c), FALSE)
Trim(c) == LET ink == {k \in 1..Len(c) : c[k] \notin Space}
           IN IF ink = {} THEN <<>>
              ELSE LET lo == CHOOSE k \in ink : \A j \in ink : k <= j
                       hi == CHOOSE k \in ink : \A j \in ink : k >= j
                   IN SubSeq(c, lo, hi)
Clean(c) == LET a == IF opt.r THEN Squeeze(c, FALSE) ELSE c IN IF opt.w THEN Trim(a) ELSE a
Used(row) == {k \in 1..Len(row) : row[k] # <<>>}
Value(s) == \E r \in 1..Len(s.rows) : Used(s.rows[r]) # {}
Written(s) == LET rs == [r \in 1..Len(s.rows) |-> [k \in 1..s.w |-> Clean(s.rows[r][k])]]
              IN IF ~Value(s) THEN <<>> ELSE SelectSeq(rs, LAMBDA r : ~opt.b \/ Used(r) # {})
Width(s) == LET u == UNION {Used(Written(s)[r]) : r \in 1..Len(Written(s))}
            IN IF u = {} THEN 0 ELSE CHOOSE k \in u : \A j \in u : k >= j

Result(f) == [k \in 1..Len(f.sheets) |-> [bad |-> f.sheets[k].bad, out |-> ~f.sheets[k].bad /\ Value(f.sheets[k]),
                                          rows |-> Written(f.sheets[k]), cols |-> Width(f.sheets[k])]]
Emit == /\ phase = "file" /\ N > 0 /\ phase' = "emitted"
        /\ PrintT(ToJson([opt |-> opt, files |-> [k \in 1..N |-> [kind |-> files[k].kind, sheets |-> files[k].sheets, want |-> Result(files[k])]]]))
        /\ UNCHANGED <<files, opt>>
Next == Options \/ AddFile \/ AddSheet \/ AddRow \/ AddCell \/ EndRow \/ EndSheet \/ EndFile \/ Emit
Spec == Init /\ [][Next]_vars

\* cleaning twice is cleaning once; nothing but white space goes; without -r the
\* inside of a cell stays, without -w its ends keep their white space
Ink(c) == SelectSeq(c, LAMBDA s : s \notin Space)
CleanLaws == phase = "emitted" => \A c \in DOMAIN Cells :
   LET v == Cells[c] IN
   /\ Clean(Clean(v)) = Clean(v) /\ Ink(Clean(v)) = Ink(v)
   /\ (~opt.r /\ ~opt.w => Clean(v) = v)
   /\ (opt.w => Clean(v) = <<>> \/ (Head(Clean(v)) \notin Space /\ Clean(v)[Len(Clean(v))] \notin Space))
   /\ (opt.r => \A k \in 1..Len(Clean(v)) : Clean(v)[k] \notin Space \ {"SP"} /\ (k > 1 => ~(Clean(v)[k] = "SP" /\ Clean(v)[k-1] = "SP")))
\* rows are only dropped by -b, and only those with nothing left
Kept == phase = "emitted" => \A f \in 1..N : \A k \in 1..Len(files[f].sheets) :
   LET s == files[f].sheets[k] IN Value(s) => (Len(Written(s)) = Len(s.rows) - (IF opt.b THEN Cardinality({r \in 1..Len(s.rows) : \A c \in 1..s.w : Ink(s.rows[r][c]) = <<>> /\ Clean(s.rows[r][c]) = <<>>}) ELSE 0))
=============================================================================
