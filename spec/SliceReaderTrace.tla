------------------------- MODULE SliceReaderTrace --------------------------
(* Validates recorded Read/Seek calls of the real cfb.SliceReader (real sector
   sizes, random divisions) against the abstract reader of SliceReader.  A
   Read may deliver any number of bytes between 1 and what is available;
   deadlock on the first call the contract does not allow.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, total, pos
vars == <<i, total, pos>>

Init == i = 1 /\ total = 0 /\ pos = 0

Ev == Trace[i]

New == /\ Ev.ev = "new" /\ total' = Ev.total /\ pos' = 0

\* end of stream may be reported with the last bytes or on its own, never early;
\* a Read with room and data available makes progress.
Read ==
  /\ Ev.ev = "read"
  /\ ~Ev.err
  /\ Ev.k >= 0 /\ Ev.k <= Ev.n /\ pos + Ev.k <= total
  /\ (Ev.n > 0 /\ pos < total) => Ev.k > 0
  /\ (Ev.n > 0 /\ pos = total) => Ev.eof
  /\ Ev.eof => pos + Ev.k = total
  /\ (Ev.k > 0) => \E j \in 1..Len(Ev.at) : Ev.at[j] = pos
  /\ pos' = pos + Ev.k
  /\ UNCHANGED total

Seek ==
  LET t == CASE Ev.wh = 0 -> Ev.off [] Ev.wh = 1 -> pos + Ev.off [] Ev.wh = 2 -> total + Ev.off
      in == t >= 0 /\ t <= total
  IN /\ Ev.ev = "seek"
     /\ Ev.ok = in
     /\ IF in THEN Ev.p = t /\ pos' = t ELSE pos' = pos
     /\ UNCHANGED total

Done == i > Len(Trace) /\ UNCHANGED vars
Next == Done \/ (i <= Len(Trace) /\ (New \/ Read \/ Seek) /\ i' = i + 1)
Spec == Init /\ [][Next]_vars
============================================================================
