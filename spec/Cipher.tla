---------------------------- MODULE Cipher ----------------------------
(* C13.  A workbook stream obfuscated in place.  Every record keeps its header
   in the clear; some records keep all of their data in the clear, and a sheet
   entry its first four bytes.  The key stream runs over ALL bytes of the
   stream, clear or not, and restarts with a key of its own in every block.

   The writer lays out records of chosen kinds and sizes, aiming at the block
   boundaries; the stream is symbolic: for every byte, whether it is in the
   clear, its block and its place in the block.  The decryptor copies what it
   is given, write by write, into a block buffer which is decrypted when full
   (or flushed), and puts back what was in the clear.

   Plain checks that every byte comes out as it went in.

   The stream may also be cut off: inside a record it cannot be read, at the
   end of a record it reads as the plain stream that is cut at this place.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS B,          \* block size
          MaxRecs,    \* filler records
          Deltas,     \* distance to a block boundary of the end of a record
          Sizes,      \* other sizes
          Blocks,     \* further whole blocks in a record
          MaxSize,
          Bof, Pass, Cell,  \* sizes of the fixed records
          Cases       \* "stream", "cut", "writes" or "faults"

VARIABLES recs, pos, cur, phase, writes, fault, cut
vars == <<recs, pos, cur, phase, writes, fault, cut>>

NoCur == [k |-> "none"]
Rec(k, n) == [k |-> k, n |-> n]
Add(rs) == /\ recs' = recs \o rs
           /\ pos' = pos + FoldLeft(LAMBDA a, r : a + 4 + r.n, 0, rs)
InitStream == recs = <<Rec("bof", Bof), Rec("pass", Pass)>> /\ pos = 8 + Bof + Pass /\ cur = NoCur /\ phase = "globals"
Init == /\ writes = <<>> /\ fault = "none" /\ cut = 0
        /\ IF Cases \in {"stream", "cut"} THEN InitStream
           ELSE recs = <<>> /\ pos = 0 /\ cur = NoCur /\ phase = Cases

(* ---- the writer ---- *)
Globals == {"clear", "enc", "sst", "bs"}
InSheet == {"enc", "clear", "cell"} \cup (IF \E j \in 1..Len(recs) : recs[j].k = "sst" THEN {"label"} ELSE {})
Fillers == Cardinality({j \in 1..Len(recs) : recs[j].k \in Globals \cup {"cell", "label"}})
Has(k) == \E j \in 1..Len(recs) : recs[j].k = k
Least(k) == CASE k = "sst" -> 11 [] k = "bs" -> 9 [] OTHER -> 0
Most(k) == CASE k = "bs" -> 39 [] OTHER -> MaxSize
Choose == /\ phase \in {"globals", "sheet"} /\ cur.k = "none" /\ Fillers < MaxRecs
          /\ \E k \in (IF phase = "globals" THEN Globals ELSE InSheet) :
               /\ ~(k = "sst" /\ Has("sst"))
               /\ cur' = [k |-> k]
          /\ UNCHANGED <<recs, pos, phase, writes, fault, cut>>
\* the sizes that end near a boundary
Near(k) == {s \in {((B - ((pos + 4) % B)) % B) + d + B * m : d \in Deltas, m \in Blocks} : s >= Least(k) /\ s <= Most(k)}
Fit(k) == {s \in Sizes : s >= Least(k) /\ s <= Most(k)} \cup Near(k)
Put == /\ cur.k \notin {"none", "cell", "label"}
       /\ \E s \in (IF Fit(cur.k) = {} THEN {Least(cur.k)} ELSE Fit(cur.k)) : Add(<<Rec(cur.k, s)>>)
       /\ cur' = NoCur /\ UNCHANGED <<phase, writes, fault, cut>>
PutCell == cur.k \in {"cell", "label"} /\ Add(<<Rec(cur.k, IF cur.k = "cell" THEN Cell ELSE 10)>>) /\ cur' = NoCur /\ UNCHANGED <<phase, writes, fault, cut>>
Sheet == /\ phase = "globals" /\ cur.k = "none" /\ Fillers >= MaxRecs \div 2
         /\ Add((IF Has("bs") THEN <<>> ELSE <<Rec("bs", 12)>>) \o <<Rec("eof", 0), Rec("bof", Bof)>>)
         /\ phase' = "sheet" /\ UNCHANGED <<cur, writes, fault, cut>>
Seal == /\ phase = "sheet" /\ cur.k = "none" /\ Fillers >= MaxRecs
        /\ Add(<<Rec("cell", Cell), Rec("eof", 0)>>) /\ phase' = "built" /\ UNCHANGED <<cur, writes, fault, cut>>

(* ---- what the format says about each byte ---- *)
ClearData(r) == CASE r.k \in {"bof", "pass", "clear"} -> r.n [] r.k = "bs" -> 4 [] OTHER -> 0
\* <<start, length>> of every record
Starts == FoldLeft(LAMBDA a, r : Append(a, Last(a) + 4 + r.n), <<0>>, recs)
InClear == UNION {Starts[j]..(Starts[j] + 3 + ClearData(recs[j])) : j \in 1..Len(recs)}
\* what lies at a byte of the obfuscated stream: the plain byte, or the plain
\* byte under the key stream of a block at an offset
Stored(p) == IF p \in InClear THEN [p |-> p, block |-> 99999, off |-> 0]
             ELSE [p |-> p, block |-> p \div B, off |-> p % B]

(* ---- the decryptor: one write after another into the block buffer ---- *)
Deliveries == FoldLeft(LAMBDA a, r : a \o SelectSeq(<<2, 2, ClearData(r), r.n - ClearData(r)>>, LAMBDA n : n > 0), <<>>, recs)
RECURSIVE Copy(_, _)
Copy(st, n) ==  \* st: [at, off, block, out] ; out: for every decrypted byte its key place
  IF n = 0 THEN st
  ELSE LET m == IF n < B - st.off THEN n ELSE B - st.off
           out == st.out \o [j \in 1..m |-> <<st.block, st.off + j - 1>>]
           full == st.off + m = B
       IN Copy([at |-> st.at + m, off |-> IF full THEN 0 ELSE st.off + m, block |-> IF full THEN st.block + 1 ELSE st.block, out |-> out], n - m)
Decrypted(ws) == FoldLeft(Copy, [at |-> 0, off |-> 0, block |-> 0, out |-> <<>>], ws).out
Output == LET d == Decrypted(Deliveries) IN
  [j \in 1..pos |-> IF (j - 1) \in InClear THEN [p |-> j - 1, block |-> 99999, off |-> 0]
                    ELSE [p |-> j - 1, block |-> d[j][1], off |-> d[j][2]]]
Plain == phase = "built" /\ B <= 16 =>
  /\ Last(Starts) = pos
  /\ \A j \in 1..pos : Output[j] = Stored(j - 1)
\* however the writes are divided
AnyWrites == phase = "writes" /\ B <= 16 /\ Len(writes) > 0 =>
  LET total == FoldLeft(LAMBDA a, n : a + n, 0, writes) IN Decrypted(writes) = Decrypted(<<total>>)

Write == /\ phase = "writes" /\ Len(writes) < MaxRecs
         /\ \E s \in Sizes \cup {((B - (pos % B)) % B) + d + B * m : d \in Deltas, m \in Blocks} :
              /\ s >= 0 /\ s <= MaxSize
              /\ writes' = Append(writes, s) /\ pos' = pos + s
         /\ UNCHANGED <<recs, cur, phase, fault, cut>>

Faults == {"hash", "verifier", "salt", "password", "minor", "short", "long", "empty", "xor", "api2", "api3", "api4", "type5", "sheet1", "sheet2", "sheet3", "none"}
Fault == phase = "faults" /\ fault' \in Faults /\ phase' = "built" /\ UNCHANGED <<recs, pos, cur, writes, cut>>

(* ---- the end is missing ---- *)
\* near the start or the end of a record, or of a block
CutPlaces == {c \in UNION {{Starts[j] + d : d \in 0..6} \cup {Starts[j] - d : d \in 1..3} : j \in 2..Len(Starts)}
                    \cup UNION {{B * m - 1, B * m, B * m + 1} : m \in 1..(pos \div B)} : c < pos /\ c >= Starts[3]}
Cut == /\ phase = "built" /\ Cases = "cut"
       /\ \E j \in 3..Len(recs) :  \* in stages
            \E c \in {c \in CutPlaces : Starts[j] <= c /\ c < Starts[j + 1]} : cut' = c
       /\ phase' = "cutoff" /\ UNCHANGED <<recs, pos, cur, writes, fault>>
\* the record that is cut off
CutRec == CHOOSE j \in 1..Len(recs) : Starts[j] <= cut /\ cut < Starts[j + 1]
Refused == phase = "cutoff" /\ cut - Starts[CutRec] >= 4
\* what the decryptor gives for the rest is what it gave before
CutPlain == phase = "cutoff" /\ B <= 16 =>
  LET n == Starts[CutRec]
      d == Decrypted(FoldLeft(LAMBDA a, r : a \o SelectSeq(<<2, 2, ClearData(r), r.n - ClearData(r)>>, LAMBDA m : m > 0), <<>>, SubSeq(recs, 1, CutRec - 1)))
  IN Len(d) = n /\ \A j \in 1..n : (j - 1) \in InClear \/ <<d[j][1], d[j][2]>> = <<(j - 1) \div B, (j - 1) % B>>

Runs == [j \in 1..Len(recs) |-> <<Starts[j], 4 + ClearData(recs[j])>>]
Done == (phase = "built" /\ Cases # "cut") \/ phase = "cutoff" \/ (phase = "writes" /\ Len(writes) = MaxRecs)
Emit == /\ Done /\ phase' = "emitted"
        /\ PrintT(ToJson([cases |-> Cases, recs |-> recs, clear |-> Runs, size |-> pos, writes |-> writes, fault |-> fault, opens |-> fault = "none" /\ phase # "cutoff", cut |-> cut, refused |-> Refused]))
        /\ UNCHANGED <<recs, pos, cur, writes, fault, cut>>
Next == Choose \/ Put \/ PutCell \/ Sheet \/ Seal \/ Write \/ Fault \/ Cut \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
