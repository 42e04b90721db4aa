---------------------------- MODULE Sst ----------------------------
(* C09.  A table of strings written over continuation records.  A string is a
   header (length, encoding of its first part, formatting runs, phonetic bytes),
   its characters, its runs (four bytes each) and its phonetic bytes.  A record
   may end after any symbol.  When it ends inside or before the characters the
   next record starts with a flag giving the encoding of what follows; when it
   ends elsewhere there is no flag.

   Characters: "l" fits one byte, "w" needs two, "hi" "lo" are the halves of a
   pair, "L" and "W" stand for long blocks of the first two.

   The writer splits and switches encodings as it likes; Read is the machine the
   library must implement, over bytes-worth symbols only.  TLC checks that it
   recovers exactly the strings.                                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxStrs, MaxChars, Chars, Runs, Exts, MaxRecs, PLAIN

VARIABLES strs,    \* finished: seq of seq of chars
          recs,    \* records written, the last one open: seq of seq of items
          cs,      \* the current string: [chars, left, runs, ext, wide, st]
          phase
vars == <<strs, recs, cs, phase>>

Idle == [chars |-> <<>>, left |-> 0, runs |-> 0, ext |-> 0, wide |-> FALSE, st |-> "idle"]
It(t, n, w, r, e, c) == [t |-> t, n |-> n, w |-> w, r |-> r, e |-> e, c |-> c]
Put(it) == recs' = [recs EXCEPT ![Len(recs)] = Append(@, it)]

Init == strs = <<>> /\ recs = <<<<>>>> /\ cs = Idle /\ phase = "write"

Narrow(c) == c \in {"l", "L"}
Units(c) == IF c \in {"L", "W"} THEN 100 ELSE 1

\* one choice per step keeps simulation fast
Begin == /\ phase = "write" /\ cs.st = "idle" /\ Len(strs) < MaxStrs
         /\ \E n \in 0..MaxChars : cs' = [Idle EXCEPT !.left = n, !.st = "pick"]
         /\ UNCHANGED <<strs, recs, phase>>
\* the text is decided before it is written
Pick == /\ cs.st = "pick"
        /\ IF cs.left = 0 THEN cs' = [cs EXCEPT !.st = "attrs"]
           ELSE \E c \in Chars :
                  /\ c = "lo" => (cs.chars # <<>> /\ Last(cs.chars) = "hi")
                  /\ (cs.chars # <<>> /\ Last(cs.chars) = "hi") => c = "lo"
                  /\ c = "hi" => cs.left >= 2
                  /\ cs' = [cs EXCEPT !.chars = Append(@, c), !.left = @ - 1]
        /\ UNCHANGED <<strs, recs, phase>>
Attrs == /\ cs.st = "attrs"
         /\ \E r \in Runs, e \in Exts : cs' = [cs EXCEPT !.runs = r, !.ext = e, !.st = "head"]
         /\ UNCHANGED <<strs, recs, phase>>
Total == FoldLeft(LAMBDA a, c : a + Units(c), 0, cs.chars)
Header == /\ cs.st = "head"
          /\ \E w \in BOOLEAN :
               /\ Put(It("H", Total, w, cs.runs, cs.ext, ""))
               /\ cs' = [cs EXCEPT !.wide = w, !.left = 1, !.st = IF cs.chars = <<>> THEN "runs" ELSE "chars",
                                   !.runs = 4 * (IF @ = 99 THEN 0 ELSE @), !.ext = IF @ = 99 THEN 0 ELSE @]
          /\ UNCHANGED <<strs, phase>>
\* left: index of the next character
Char == /\ cs.st = "chars"
        /\ LET c == cs.chars[cs.left] IN
           /\ (~Narrow(c) => cs.wide)
           /\ (Units(c) = 100 => \A i \in 1..Len(Last(recs)) : Last(recs)[i].t \notin {"r", "e"} \/ Last(recs)[i].n < 100)
           /\ Put(It("c", Units(c), cs.wide, 0, 0, c))
           /\ cs' = IF cs.left = Len(cs.chars) THEN [cs EXCEPT !.st = "runs"] ELSE [cs EXCEPT !.left = @ + 1]
        /\ UNCHANGED <<strs, phase>>
\* formatting and phonetic bytes go one at a time, or in blocks when there are many (one block a record)
MinI(a, b) == IF a < b THEN a ELSE b
Roomy == \A i \in 1..Len(Last(recs)) : Last(recs)[i].n < 100
Pieces(left) == IF left <= 8 THEN {1} ELSE IF Roomy THEN {MinI(left, 8000), MinI(left, 7997), MinI(left, 2500)} ELSE {}
RunByte == /\ cs.st = "runs" /\ cs.runs > 0
           /\ \E n \in Pieces(cs.runs) : Put(It("r", n, FALSE, 0, 0, "")) /\ cs' = [cs EXCEPT !.runs = @ - n]
           /\ UNCHANGED <<strs, phase>>
ExtByte == /\ cs.st = "runs" /\ cs.runs = 0 /\ cs.ext > 0
           /\ \E n \in Pieces(cs.ext) : Put(It("e", n, FALSE, 0, 0, "")) /\ cs' = [cs EXCEPT !.ext = @ - n]
           /\ UNCHANGED <<strs, phase>>
End == /\ cs.st = "runs" /\ cs.runs = 0 /\ cs.ext = 0
       /\ strs' = Append(strs, cs.chars) /\ cs' = Idle /\ UNCHANGED <<recs, phase>>
\* never an empty record
Split == /\ phase = "write" /\ Len(recs) < MaxRecs /\ Last(recs) # <<>>
         /\ ~(Len(Last(recs)) = 1 /\ Last(recs)[1].t = "F")
         /\ \/ /\ cs.st = "chars"
               /\ \E w \in BOOLEAN :
                    /\ recs' = Append(recs, <<It("F", 0, w, 0, 0, "")>>)
                    /\ cs' = [cs EXCEPT !.wide = w]
            \/ /\ cs.st \in {"runs", "idle"} /\ ~PLAIN
               /\ (cs.st = "runs" => cs.runs + cs.ext > 0)
               /\ (cs.st = "idle" => Len(strs) < MaxStrs)
               /\ recs' = Append(recs, <<>>) /\ UNCHANGED cs
         /\ UNCHANGED <<strs, phase>>
Seal == /\ phase = "write" /\ cs.st = "idle" /\ strs # <<>> /\ Last(recs) # <<>>
        /\ phase' = "built" /\ UNCHANGED <<strs, recs, cs>>

(* ---- the reader: a fold over the symbols, knowing record boundaries ---- *)
\* state: want (units left), wide, skip (run and phonetic bytes left), acc
R0 == [want |-> 0, wide |-> FALSE, skip |-> 0, acc |-> <<>>, out |-> <<>>, ok |-> TRUE]
Flush(s) == IF s.want = 0 /\ s.skip = 0 THEN [s EXCEPT !.out = Append(@, s.acc), !.acc = <<>>] ELSE s
Step(s, it) ==
  IF it.t = "F" THEN [s EXCEPT !.wide = it.w, !.ok = @ /\ s.want > 0]
  ELSE IF s.want > 0
       THEN Flush([s EXCEPT !.want = @ - it.n, !.acc = Append(@, it.c),
                            !.ok = @ /\ it.t = "c" /\ it.w = s.wide /\ (Narrow(it.c) \/ s.wide)])
  ELSE IF s.skip > 0 THEN Flush([s EXCEPT !.skip = @ - it.n, !.ok = @ /\ it.t \in {"r", "e"}])
  ELSE Flush([s EXCEPT !.want = it.n, !.wide = it.w, !.ok = @ /\ it.t = "H",
                       !.skip = (IF it.r # 99 THEN 4 * it.r ELSE 0) + (IF it.e # 99 THEN it.e ELSE 0)])
Flat == FoldLeft(LAMBDA a, r : a \o r, <<>>, recs)
ReadBack == LET s == FoldLeft(Step, R0, Flat) IN s
ReaderRecovers == phase = "built" => ReadBack.ok /\ ReadBack.out = strs

Emit == /\ phase = "built" /\ phase' = "emitted"
        /\ PrintT(ToJson([strs |-> strs, recs |-> recs])) /\ UNCHANGED <<strs, recs, cs>>
Next == Begin \/ Pick \/ Attrs \/ Header \/ Char \/ RunByte \/ ExtByte \/ End \/ Split \/ Seal \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
