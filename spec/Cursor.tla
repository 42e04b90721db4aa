---------------------------- MODULE Cursor ----------------------------
(* C02.  A collection as a cursor over a table: advance, read the record's
   texts, types and formats, scan it, ask whether the table is empty, in any
   order and any number of times; a caller may also overwrite what it was given.

   seen is the sequence of records delivered so far.  InOrder: they are the
   table's records from the first on, each once.  Only advancing moves.       *)
EXTENDS Calendar, Json

CONSTANTS Kinds, MinRecs, MaxRecs, MaxCols, SheetCells, TextCells, Dests, MaxOps, Pads, ScanFull

VARIABLES kind,    \* "xls", "xlsx", "sheet", "tsv", "csv"
          tab,     \* records, each a sequence of cell names
          width, pad, pos, seen, hist, args, phase
vars == <<kind, tab, width, pad, pos, seen, hist, args, phase>>

IsText == kind \in {"tsv", "csv"}
Noon == [y |-> 2001, m |-> 2, d |-> 3, ms |-> 21600000, serial |-> Day(2001, 2, 3) - Epoch(1900)]
\* what a cell reads as: type, text, format, the destination that takes it and what it then holds
Cells == [ num   |-> [t |-> "float", s |-> "7.5", f |-> "General", to |-> "float64", v |-> "7.5"],
           int   |-> [t |-> "integer", s |-> "12", f |-> BuiltIn[1].code, to |-> "int64", v |-> "12"],
           pct   |-> [t |-> "float", s |-> "50%", f |-> BuiltIn[9].code, to |-> "float64", v |-> "0.5"],
           yes   |-> [t |-> "boolean", s |-> "TRUE", f |-> "General", to |-> "bool", v |-> "true"],
           no    |-> [t |-> "boolean", s |-> "FALSE", f |-> "General", to |-> "bool", v |-> "false"],
           text  |-> [t |-> "string", s |-> "abc", f |-> "General", to |-> "string", v |-> "abc"],
           digits |-> [t |-> "string", s |-> "12", f |-> "General", to |-> "string", v |-> "12"],
           when  |-> [t |-> "date", s |-> ShowAt(22, Noon), f |-> BuiltIn[22].code, to |-> "time", v |-> "2001-02-03T06:00:00Z"],
           deep  |-> [t |-> "float", s |-> "0.1", f |-> "General", to |-> "float64", v |-> "0.1"],
           neg   |-> [t |-> "float", s |-> "-16777217", f |-> "General", to |-> "float64", v |-> "-1.6777217e+07"],
           vast  |-> [t |-> "integer", s |-> "4294967297", f |-> BuiltIn[1].code, to |-> "int64", v |-> "4294967297"],
           words |-> [t |-> "string", s |-> " a  \t z", f |-> "General", to |-> "string", v |-> " a  \t z"],
           blank |-> [t |-> "blank", s |-> "", f |-> "General", to |-> "string", v |-> ""] ]
\* texts of a plain file, and what typed destinations make of them
Texts == [ word |-> [s |-> "abc", int |-> "", float64 |-> "", bool |-> "*"],
           ten  |-> [s |-> "10", int |-> "10", float64 |-> "10", bool |-> "*"],
           one  |-> [s |-> "1", int |-> "1", float64 |-> "1", bool |-> "true"],
           half |-> [s |-> "-2.5", int |-> "", float64 |-> "-2.5", bool |-> "*"],
           true |-> [s |-> "TRUE", int |-> "", float64 |-> "", bool |-> "true"],
           n    |-> [s |-> "no", int |-> "", float64 |-> "", bool |-> "false"],
           gap  |-> [s |-> "", int |-> "", float64 |-> "", bool |-> "false"],
           deep |-> [s |-> "16777217", int |-> "16777217", float64 |-> "1.6777217e+07", bool |-> "*"],
           tenth |-> [s |-> "0.1", int |-> "", float64 |-> "0.1", bool |-> "*"],
           vast |-> [s |-> "-9007199254740993", int |-> "-9007199254740993", float64 |-> "-9.007199254740992e+15", bool |-> "*"],
           exp |-> [s |-> "2e3", int |-> "", float64 |-> "2000", bool |-> "*"],
           yes |-> [s |-> "Yes", int |-> "", float64 |-> "", bool |-> "true"],
           y |-> [s |-> "y", int |-> "", float64 |-> "", bool |-> "true"],
           t |-> [s |-> "T", int |-> "", float64 |-> "", bool |-> "true"],
           zero |-> [s |-> "0", int |-> "0", float64 |-> "0", bool |-> "false"],
           wide |-> [s |-> "a b", int |-> "", float64 |-> "", bool |-> "*"] ]

Init == /\ kind \in Kinds /\ width \in 1..MaxCols /\ pad \in Pads
        /\ (kind \in {"tsv", "csv"} => pad = 0)
        /\ tab = <<>> /\ pos = 0 /\ seen = <<>> /\ hist = <<>> /\ args = <<>> /\ phase = "table"
AddRec == /\ phase = "table" /\ Len(tab) < MaxRecs /\ (IF tab = <<>> \/ IsText THEN TRUE ELSE Len(Last(tab)) = width)
          /\ tab' = Append(tab, <<>>) /\ UNCHANGED <<kind, width, pad, pos, seen, hist, args, phase>>
AddCell == /\ phase = "table" /\ tab # <<>>
           /\ Len(Last(tab)) < width
           /\ \E c \in (IF IsText THEN TextCells ELSE SheetCells) : tab' = [tab EXCEPT ![Len(tab)] = Append(@, c)]
           /\ UNCHANGED <<kind, width, pad, pos, seen, hist, args, phase>>
Full == /\ Len(tab) >= MinRecs
        /\ IF IsText THEN /\ \A k \in 1..Len(tab) : tab[k] # <<>>
                          /\ (kind = "tsv" => \E k \in 1..Len(tab) : Len(tab[k]) > 1)
           ELSE (IF tab = <<>> THEN TRUE ELSE Len(tab[Len(tab)]) = width)
Start == /\ phase = "table" /\ Full
         \* (a sheet's used area ends with its last value)
         /\ (IF IsText \/ tab = <<>> THEN TRUE
             ELSE /\ \E c \in 1..width : Last(tab)[c] # "blank"
                  /\ \E k \in 1..Len(tab) : tab[k][width] # "blank")
         /\ (tab = <<>> => width = 1)
         /\ phase' = "use" /\ UNCHANGED <<kind, tab, width, pad, pos, seen, hist, args>>

\* a reader of spreadsheets may add blank records after the last (pad)
Recs == tab \o [k \in 1..pad |-> [c \in 1..width |-> "blank"]]
Log(op, ok, xs, as) == hist' = Append(hist, [op |-> op, ok |-> ok, s |-> xs, a |-> as])
Use == phase = "use" /\ Len(hist) < MaxOps /\ args = <<>>
On == pos >= 1 /\ pos <= Len(Recs)
Rec == Recs[pos]
Txt(c) == IF IsText THEN Texts[c].s ELSE Cells[c].s
Typ(c) == IF IsText THEN (IF Texts[c].s = "" THEN "blank" ELSE "string") ELSE Cells[c].t
Fmt(c) == IF IsText THEN "General" ELSE Cells[c].f

Next_ == /\ Use /\ pos' = IF pos <= Len(Recs) THEN pos + 1 ELSE pos
         /\ seen' = IF pos < Len(Recs) THEN Append(seen, Recs[pos + 1]) ELSE seen
         /\ Log("next", pos < Len(Recs), <<>>, <<>>) /\ UNCHANGED <<kind, tab, width, pad, args, phase>>
Read == /\ Use /\ On
        /\ \E op \in {"strings", "types", "formats"} :
             Log(op, TRUE, [k \in 1..Len(Rec) |-> CASE op = "strings" -> Txt(Rec[k]) [] op = "types" -> Typ(Rec[k]) [] OTHER -> Fmt(Rec[k])], <<>>)
        /\ UNCHANGED <<kind, tab, width, pad, pos, seen, args, phase>>
\* the caller overwrites every list it has been given
Spoil == /\ Use /\ hist # <<>> /\ Log("spoil", TRUE, <<>>, <<>>) /\ UNCHANGED <<kind, tab, width, pad, pos, seen, args, phase>>
Empty == /\ Use /\ Log("empty", \A k \in 1..Len(tab) : \A c \in 1..Len(tab[k]) : Txt(tab[k][c]) = "", <<>>, <<>>)
         /\ UNCHANGED <<kind, tab, width, pad, pos, seen, args, phase>>

\* scanning: destinations one at a time, in column order
Takes(c, d) == IF IsText THEN CASE d = "string" -> Texts[c].s [] d = "time" -> "!" [] OTHER -> (IF Texts[c][d] = "" THEN "!" ELSE Texts[c][d])
               ELSE IF Cells[c].to = d THEN Cells[c].v ELSE "!"
Known == IF IsText THEN {"string", "int", "float64", "bool", "time"} ELSE {"string", "int64", "float64", "bool", "time"}
\* "?" starts a scan, so that the next step picks the first destination
ScanStart == /\ Use /\ On /\ ScanFull /\ args' = <<"?">> /\ UNCHANGED <<kind, tab, width, pad, pos, seen, hist, phase>>
Right(c) == IF IsText THEN "string" ELSE Cells[c].to
Dest == /\ args # <<>> /\ Len(args) - 1 < Len(Rec) + 1
        /\ \E d \in Dests \cup {"right"} :
             IF d = "right" THEN Len(args) - 1 < Len(Rec) /\ args' = Append(args, IF Len(args) - 1 < Len(Rec) THEN Right(Rec[Len(args)]) ELSE "")
             ELSE d \in Known \cup {"uint8", "value"} /\ args' = Append(args, d)
        /\ UNCHANGED <<kind, tab, width, pad, pos, seen, hist, phase>>
Scan == /\ args # <<>> /\ Len(args) - 1 >= Len(Rec)
        /\ LET as == Tail(args)
               n == Len(Rec)
               more == Len(as) > n
               fits == \A k \in 1..n : as[k] \in Known /\ Takes(Rec[k], as[k]) # "!"
               \* nothing but unsupported destinations is wrong
               inv == ~more /\ (\E k \in 1..n : as[k] \notin Known) /\ (\A k \in 1..n : as[k] \in Known => Takes(Rec[k], as[k]) # "!")
           IN Log(IF inv THEN "scaninv" ELSE "scan", fits /\ ~more,
                  IF fits /\ ~more THEN [k \in 1..n |-> Takes(Rec[k], as[k])] ELSE <<>>, as)
        /\ args' = <<>> /\ UNCHANGED <<kind, tab, width, pad, pos, seen, phase>>
Emit == /\ phase = "use" /\ (IF Len(hist) = MaxOps THEN TRUE ELSE MaxOps > 10 /\ pos > Len(Recs) /\ Len(hist) % 6 = 5) /\ args = <<>> /\ phase' = "emitted"
        /\ PrintT(ToJson([kind |-> kind, pad |-> pad, n |-> Len(tab), w |-> width,
                          tab |-> [k \in 1..Len(tab) |-> [c \in 1..Len(tab[k]) |-> [k |-> tab[k][c], s |-> Txt(tab[k][c])]]], ops |-> hist]))
        /\ UNCHANGED <<kind, tab, width, pad, pos, seen, hist, args>>
Next == AddRec \/ AddCell \/ Start \/ Next_ \/ Read \/ Spoil \/ Empty \/ ScanStart \/ Dest \/ Scan \/ Emit
Spec == Init /\ [][Next]_vars

InOrder == /\ seen = SubSeq(Recs, 1, Len(seen))
           /\ (phase = "use" => Len(seen) = (IF pos <= Len(Recs) THEN pos ELSE Len(Recs)))
Moves == [][pos' = pos \/ (pos' = pos + 1 /\ Last(hist').op = "next")]_vars
Same == [][phase = "use" => tab' = tab]_vars
=============================================================================
