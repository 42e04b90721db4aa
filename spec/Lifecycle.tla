---------------------------- MODULE Lifecycle ----------------------------
(* C18.  Any number of workbooks opened, read and closed in any order, in one
   thread.  A source belongs to a file and is open or closed; a collection
   belongs to a sheet and has its own position.

   Abstract machine: every operation names one source or collection and touches
   nothing else (Untouched); a collection delivers its own sheet's records from
   the first (OwnRecords), whether its source is closed meanwhile or not.

   Below it runs the representation the library uses: the raw records of an
   open source live in cells recycled through a pool shared by all sources; a
   collection holds a copy.  OwnCells says no two open sources share a cell,
   whatever is closed, and closed again, in whatever order; so a collection
   made at any time copies its own file's records.                           *)
EXTENDS Calendar, Json

CONSTANTS Files, MaxSrc, MaxCol, MaxOps, BadKinds

VARIABLES srcs,   \* [f, open]
          cols,   \* [src, f, s, pos, seen]
          pool, heap, held,   \* free cells; cell -> [f, s]; source -> its cells, one per sheet
          hist, aim, phase
vars == <<srcs, cols, pool, heap, held, hist, aim, phase>>

\* name -> kind and contents; the second of a kind uses the 1904 system and
\* defines the same custom format differently
Book(k, second) == [kind |-> k, sheets |-> IF k \in {"xls", "xlsx"} THEN <<3, 2>> ELSE <<3>>, second |-> second]
Lib == [xls1 |-> Book("xls", FALSE), xls2 |-> Book("xls", TRUE), xlsx1 |-> Book("xlsx", FALSE), xlsx2 |-> Book("xlsx", TRUE),
        csv1 |-> Book("csv", FALSE), tsv1 |-> Book("tsv", FALSE), tsv2 |-> Book("tsv", TRUE)]
NSheets(f) == Len(Lib[f].sheets)
NRecs(f, s) == Lib[f].sheets[s]

MergedRight == "{right}"
MergedEnd == "{end}"
D1900 == [y |-> 1998, m |-> 7, d |-> 24, ms |-> 0, serial |-> Day(1998, 7, 24) - Epoch(1900)]
D1904 == [y |-> 2002, m |-> 7, d |-> 25, ms |-> 0, serial |-> Day(2002, 7, 25) - Epoch(1904)]
ASSUME D1900.serial = D1904.serial
\* a record's texts: its own name, 7.2 in the custom format, the day in format 14, the link,
\* a formula's text, and a cell merged with the next two, and 9
Name(f, s, r) == f \o "." \o D(s) \o "." \o D(r)
Want(f, s, r) == IF Lib[f].kind \in {"xls", "xlsx"}
                 THEN <<Name(f, s, r), IF Lib[f].second THEN "7.200" ELSE "7.2", ShowAt(14, IF Lib[f].second THEN D1904 ELSE D1900),
                        IF Lib[f].kind = "xls" THEN f \o " <http://" \o f \o ">" ELSE "http://" \o f,
                        "=" \o Name(f, s, r) \o "=" \o f, "m", MergedRight, MergedEnd, "9">>
                 ELSE <<Name(f, s, r), "7.2">>

Init == /\ srcs = <<>> /\ cols = <<>> /\ pool = <<>> /\ heap = <<>> /\ held = <<>>
        /\ hist = <<>> /\ aim = "" /\ phase = "run"

Log(op, a, b, ok, w) == /\ hist' = Append(hist, [op |-> op, a |-> a, b |-> b, ok |-> ok, w |-> w]) /\ aim' = ""
\* an operation is chosen first, then what it is done to
Aim == /\ phase = "run" /\ aim = "" /\ Len(hist) < MaxOps
       /\ aim' \in {"open", "bad", "list", "get", "next", "read", "close"}
       /\ (aim' = "open" => Len(srcs) < MaxSrc)
       /\ (aim' = "bad" => BadKinds # {})
       /\ (aim' \in {"list", "get", "close"} => srcs # <<>>)
       /\ (aim' = "get" => Len(cols) < MaxCol)
       /\ (aim' = "next" => cols # <<>>)
       /\ (aim' = "read" => \E k \in 1..Len(cols) : cols[k].pos \in 1..NRecs(cols[k].f, cols[k].s))
       /\ UNCHANGED <<srcs, cols, pool, heap, held, hist, phase>>

\* opening takes a cell for every sheet, from the pool first
RECURSIVE Take(_, _, _, _)
Take(k, f, p, h) == IF k > NSheets(f) THEN [ids |-> <<>>, p |-> p, h |-> h]
                    ELSE LET reuse == p # <<>>
                             id == IF reuse THEN Last(p) ELSE Len(h) + 1
                             h2 == IF reuse THEN [h EXCEPT ![id] = [f |-> f, s |-> k]] ELSE Append(h, [f |-> f, s |-> k])
                             t == Take(k + 1, f, IF reuse THEN Front(p) ELSE p, h2)
                         IN [t EXCEPT !.ids = <<id>> \o @]
Open == /\ aim = "open"
        /\ \E f \in Files :
             /\ srcs' = Append(srcs, [f |-> f, open |-> TRUE])
             /\ LET t == Take(1, f, pool, heap) IN pool' = t.p /\ heap' = t.h /\ held' = Append(held, t.ids)
             /\ Log("open", f, 0, TRUE, <<>>)
        /\ UNCHANGED <<cols, phase>>
\* a file that is refused: nothing changes (cells it used go back)
Bad == /\ aim = "bad" /\ \E k \in BadKinds : Log("bad", k, 0, FALSE, <<>>)
       /\ UNCHANGED <<srcs, cols, pool, heap, held, phase>>
List == /\ aim = "list"
        /\ \E k \in 1..Len(srcs) : srcs[k].open /\ Log("list", "", k, TRUE, [s \in 1..NSheets(srcs[k].f) |-> "S" \o D(s)])
        /\ UNCHANGED <<srcs, cols, pool, heap, held, phase>>
Get == /\ aim = "get"
       /\ \E k \in 1..Len(srcs) : \E s \in 1..NSheets(srcs[k].f) :
            /\ cols' = IF srcs[k].open THEN Append(cols, [src |-> k, f |-> heap[held[k][s]].f, s |-> heap[held[k][s]].s, pos |-> 0, seen |-> <<>>]) ELSE cols
            /\ Log("get", D(s), k, srcs[k].open, <<>>)
       /\ UNCHANGED <<srcs, pool, heap, held, phase>>
Next_ == /\ aim = "next"
         /\ \E c \in 1..Len(cols) :
              LET more == cols[c].pos < NRecs(cols[c].f, cols[c].s) IN
              /\ cols[c].pos <= NRecs(cols[c].f, cols[c].s)
              /\ cols' = [cols EXCEPT ![c].pos = @ + 1, ![c].seen = IF more THEN Append(@, cols[c].pos + 1) ELSE @]
              /\ Log("next", "", c, more, <<>>)
         /\ UNCHANGED <<srcs, pool, heap, held, phase>>
Read == /\ aim = "read"
        /\ \E c \in 1..Len(cols) :
             /\ cols[c].pos \in 1..NRecs(cols[c].f, cols[c].s)
             /\ Log("read", "", c, TRUE, Want(cols[c].f, cols[c].s, cols[c].pos))
        /\ UNCHANGED <<srcs, cols, pool, heap, held, phase>>
\* closing gives the cells back; a second time there are none
Close == /\ aim = "close"
         /\ \E k \in 1..Len(srcs) :
              /\ srcs' = [srcs EXCEPT ![k].open = FALSE]
              /\ pool' = pool \o held[k] /\ held' = [held EXCEPT ![k] = <<>>]
              /\ Log("close", "", k, srcs[k].open, <<>>)
         /\ UNCHANGED <<cols, heap, phase>>
Emit == /\ phase = "run" /\ aim = "" /\ Len(hist) = MaxOps /\ cols # <<>> /\ phase' = "emitted"
        /\ PrintT(ToJson([ops |-> hist, files |-> [f \in Files |-> [kind |-> Lib[f].kind, second |-> Lib[f].second, sheets |-> Lib[f].sheets]]]))
        /\ UNCHANGED <<srcs, cols, pool, heap, held, hist, aim>>
Next == Aim \/ Open \/ Bad \/ List \/ Get \/ Next_ \/ Read \/ Close \/ Emit
Spec == Init /\ [][Next]_vars

OwnRecords == \A c \in 1..Len(cols) : /\ cols[c].f = srcs[cols[c].src].f
                                      /\ \A k \in 1..Len(cols[c].seen) : cols[c].seen[k] = k
OwnCells == /\ \A k \in 1..Len(srcs) : srcs[k].open => \A s \in 1..NSheets(srcs[k].f) : heap[held[k][s]] = [f |-> srcs[k].f, s |-> s]
            /\ \A j, k \in 1..Len(srcs) : j # k => {held[j][x] : x \in 1..Len(held[j])} \cap {held[k][x] : x \in 1..Len(held[k])} = {}
            /\ \A a, b \in 1..Len(pool) : a # b => pool[a] # pool[b]
Untouched == [][ /\ Cardinality({k \in 1..Len(srcs) : srcs'[k] # srcs[k]}) + Cardinality({c \in 1..Len(cols) : cols'[c] # cols[c]}) <= 1
                 /\ \A c \in 1..Len(cols) : cols'[c] # cols[c] => Last(hist').op = "next" /\ Last(hist').b = c ]_vars
=============================================================================
