------------------------------ MODULE XlsxRefs ------------------------------
(* C14.  Rows and cells of a worksheet that do not say where they are.

   The reference of a row and of a cell is optional: a row without one follows
   the row before it, a cell without one follows the cell before it, the first
   ones being row 1 and column A.  Rows and cells may be empty, and take their
   place all the same.

   The writer puts rows and cells at ascending positions, and leaves out a
   reference, now and then, when the position is the one it would have
   anyway.  The reader is a cursor; Placed says that it finds the positions
   the writer meant.                                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Gaps,     \* rows or columns left out
          MaxRows, MaxCells, Kinds

VARIABLES doc,   \* the elements: [k: "row"/"cell", ref, r, c, kind]; ref: 0 none, else the row or column
          wr, wc, \* where the writer is: last row, last column
          phase
vars == <<doc, wr, wc, phase>>

Init == doc = <<>> /\ wr = 0 /\ wc = 0 /\ phase = "write"
Count(k) == Cardinality({j \in 1..Len(doc) : doc[j].k = k})
Row == /\ phase = "write" /\ Count("row") < MaxRows
       /\ \E g \in Gaps : \E ref \in (IF g = 0 THEN {0, wr + 1} ELSE {wr + 1 + g}) :
            doc' = Append(doc, [k |-> "row", ref |-> ref, r |-> wr + 1 + g, c |-> 0, kind |-> ""]) /\ wr' = wr + 1 + g
       /\ wc' = 0 /\ UNCHANGED phase
Cell == /\ phase = "write" /\ doc # <<>> /\ Count("cell") < MaxCells
        /\ \E g \in Gaps : \E ref \in (IF g = 0 THEN {0, wc + 1} ELSE {wc + 1 + g}), kind \in Kinds :
             doc' = Append(doc, [k |-> "cell", ref |-> ref, r |-> wr, c |-> wc + 1 + g, kind |-> kind]) /\ wc' = wc + 1 + g
        /\ UNCHANGED <<wr, phase>>
Seal == phase = "write" /\ Count("cell") = MaxCells /\ phase' = "done" /\ UNCHANGED <<doc, wr, wc>>

(* ---- the reader ---- *)
Read1(q, e) ==
  IF e.k = "row" THEN [q EXCEPT !.r = IF e.ref = 0 THEN @ + 1 ELSE e.ref, !.c = 0]
  ELSE LET c == IF e.ref = 0 THEN q.c + 1 ELSE e.ref
       IN [q EXCEPT !.c = c, !.at = Append(@, <<q.r, c>>)]
Reader == FoldLeft(Read1, [r |-> 0, c |-> 0, at |-> <<>>], doc)
CellsOf == SelectSeq(doc, LAMBDA e : e.k = "cell")
Placed == Reader.at = [j \in 1..Len(CellsOf) |-> <<CellsOf[j].r, CellsOf[j].c>>]

Emit == /\ phase = "done" /\ phase' = "emitted"
        /\ PrintT(ToJson([doc |-> doc]))
        /\ UNCHANGED <<doc, wr, wc>>
Next == Row \/ Cell \/ Seal \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
