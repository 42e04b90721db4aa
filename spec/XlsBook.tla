---------------------------- MODULE XlsBook ----------------------------
(* C08.  A workbook stream is the globals part followed by the other parts, in
   any order; every bound sheet designates its part by stream position.  A part
   is a sequence of records between its own begin and end records, and may
   embed further parts (charts and the like) to any depth.

   The writer builds sheets, places parts and fills them record by record,
   remembering which cells belong to each sheet itself.  The reader is the
   machine the library must implement: split the stream into top-level parts by
   counting begin and end records, find a sheet's part by its position, and
   take only what is not embedded.  TLC checks that the reader finds exactly
   the writer's cells (ReaderFindsOwn) for every placement and nesting.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxSheets, MaxRecs, MaxDepth, MaxOrphans, Faults, HidBytes

VARIABLES sheets,   \* what the globals list: [hid, own (cells), dialog]
          parts,    \* file order: [of (sheet or 0), recs]
          todo,     \* sheets whose part is not placed yet
          cur,      \* the part being written: [of, recs, depth, n] or NoPart
          orphans, fault, phase
vars == <<sheets, parts, todo, cur, orphans, fault, phase>>

NoPart == [of |-> -1, recs |-> <<>>, depth |-> 0, n |-> 0]
Rec(t, id) == [t |-> t, id |-> id]

Init == /\ \E n \in 1..MaxSheets : sheets = [k \in 1..n |-> [hid |-> 0, own |-> <<>>, dialog |-> FALSE]]
        /\ parts = <<>> /\ todo = {} /\ cur = NoPart /\ orphans = 0
        /\ fault \in Faults /\ phase = "hide"

\* visibility bytes (two bits of state, the others mean nothing), one sheet at a time (todo is reused as the set decided)
Hide == /\ phase = "hide"
        /\ LET k == Cardinality(todo) + 1
           IN IF k > Len(sheets) THEN phase' = "place" /\ UNCHANGED <<sheets, todo>>
              ELSE \E h \in HidBytes : sheets' = [sheets EXCEPT ![k].hid = h] /\ todo' = todo \cup {k} /\ UNCHANGED phase
        /\ UNCHANGED <<parts, cur, orphans, fault>>

Place == /\ phase = "place" /\ cur = NoPart /\ todo # {}
         /\ \/ \E k \in todo : cur' = [NoPart EXCEPT !.of = k] /\ todo' = todo \ {k} /\ UNCHANGED orphans
            \/ orphans < MaxOrphans /\ cur' = [NoPart EXCEPT !.of = 0] /\ orphans' = orphans + 1 /\ UNCHANGED todo
         /\ UNCHANGED <<sheets, parts, fault, phase>>

Open == cur # NoPart /\ phase = "place"
\* a record of the current part; at depth 0 it is the sheet's own
Cell == /\ Open /\ cur.n < MaxRecs
        /\ cur' = [cur EXCEPT !.n = @ + 1, !.recs = Append(@, Rec("cell", cur.n + 1))]
        /\ IF cur.depth = 0 /\ cur.of > 0
           THEN sheets' = [sheets EXCEPT ![cur.of].own = Append(@, cur.n + 1)]
           ELSE UNCHANGED sheets
Begin == /\ Open /\ cur.n < MaxRecs /\ cur.depth < MaxDepth
         /\ cur' = [cur EXCEPT !.n = @ + 1, !.depth = @ + 1, !.recs = Append(@, Rec("begin", 0))]
         /\ UNCHANGED sheets
End == /\ Open /\ cur.depth > 0
       /\ cur' = [cur EXCEPT !.depth = @ - 1, !.recs = Append(@, Rec("end", 0))]
       /\ UNCHANGED sheets
\* used-area and options records; embedded ones are not the sheet's
Misc == /\ Open /\ cur.n < MaxRecs
        /\ \E t \in {"dims", "options", "text"} :
             /\ (t = "dims" => cur.depth > 0)
             /\ cur' = [cur EXCEPT !.n = @ + 1, !.recs = Append(@, Rec(t, cur.n + 1))]
        /\ UNCHANGED sheets
Dialog == /\ Open /\ cur.n < MaxRecs
          /\ \A i \in 1..Len(cur.recs) : cur.recs[i].t # "dialog"
          /\ cur' = [cur EXCEPT !.n = @ + 1, !.recs = Append(@, Rec("dialog", 0))]
          /\ IF cur.depth = 0 /\ cur.of > 0 THEN sheets' = [sheets EXCEPT ![cur.of].dialog = TRUE]
             ELSE UNCHANGED sheets
Finish == /\ Open /\ cur.depth = 0
          /\ parts' = Append(parts, [of |-> cur.of, recs |-> cur.recs])
          /\ cur' = NoPart /\ UNCHANGED sheets
Write == /\ (Cell \/ Begin \/ End \/ Misc \/ Dialog) /\ UNCHANGED parts /\ UNCHANGED <<todo, orphans, fault, phase>>
Close == Finish /\ UNCHANGED <<todo, orphans, fault, phase>>
Seal == /\ phase = "place" /\ cur = NoPart /\ todo = {} /\ phase' = "built"
        /\ UNCHANGED <<sheets, parts, todo, cur, orphans, fault>>

(* ---- the reader ---- *)
\* the whole stream as begin/end/records, with each record's position
PartRecs(p) == <<Rec("begin", 0)>> \o p.recs \o <<Rec("end", 0)>>
Stream == FoldLeft(LAMBDA acc, p : acc \o PartRecs(p), <<>>, parts)
RECURSIVE SizeBefore(_)
SizeBefore(i) == IF i <= 1 THEN 0 ELSE SizeBefore(i - 1) + Len(parts[i - 1].recs) + 2
PosOf(k) == 1 + SizeBefore(CHOOSE i \in 1..Len(parts) : parts[i].of = k)
\* depth of nesting before record i of a sequence
Depth(s, i) == Cardinality({j \in 1..(i - 1) : s[j].t = "begin"}) - Cardinality({j \in 1..(i - 1) : s[j].t = "end"})
Starts == {i \in 1..Len(Stream) : Stream[i].t = "begin" /\ Depth(Stream, i) = 0}
EndOf(i) == CHOOSE j \in i..Len(Stream) : Stream[j].t = "end" /\ Depth(Stream, j) = 1
                                          /\ \A m \in i..(j - 1) : ~(Stream[m].t = "end" /\ Depth(Stream, m) = 1)
ReadPart(i) == LET s == SubSeq(Stream, i + 1, EndOf(i) - 1)
                   top == SelectSeq([j \in 1..Len(s) |-> [r |-> s[j], d |-> Depth(s, j)]],
                                    LAMBDA x : x.d = 0)
               IN [cells |-> [j \in 1..Len(SelectSeq(top, LAMBDA x : x.r.t = "cell"))
                               |-> SelectSeq(top, LAMBDA x : x.r.t = "cell")[j].r.id],
                   dialog |-> \E j \in 1..Len(top) : top[j].r.t = "dialog"]
ReaderFindsOwn == phase = "built" =>
   \A k \in 1..Len(sheets) :
      /\ PosOf(k) \in Starts
      /\ ReadPart(PosOf(k)) = [cells |-> sheets[k].own, dialog |-> sheets[k].dialog]
TopLevel == phase = "built" => Cardinality(Starts) = Len(parts)

Emit == /\ phase = "built" /\ phase' = "emitted"
        /\ PrintT(ToJson([sheets |-> [k \in 1..Len(sheets) |-> [hidden |-> sheets[k].hid % 4 # 0] @@ sheets[k]], parts |-> parts, fault |-> fault]))
        /\ UNCHANGED <<sheets, parts, todo, cur, orphans, fault>>
Next == Hide \/ Place \/ Write \/ Close \/ Seal \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
