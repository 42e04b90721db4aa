---------------------------- MODULE SliceReader ----------------------------
(* C05.  A reader over a list of pieces (the sectors of a stream) behaves as
   one contiguous, seekable byte string.

   Two machines run in lockstep: the *abstract* reader (a single position in
   the flat string) and a *sector* reader (piece number, offset in the piece)
   that does what an implementation over sectors must do.  The invariant
   Refines says the second refines the first; the operations with the abstract
   reader's answers are emitted and replayed into cfb.SliceReader.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxPieces, MaxLen, MaxOps, Slack

VARIABLES pieces, pos, pc, off, hist
vars == <<pieces, pos, pc, off, hist>>

Sum(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Total(ps) == Sum(ps)
MinI(a, b) == IF a < b THEN a ELSE b

PieceLists == UNION {[1..n -> 0..MaxLen] : n \in 0..MaxPieces}

Init == /\ pieces \in PieceLists
        /\ pos = 0 /\ pc = 1 /\ off = 0 /\ hist = <<>>

(* ---- the sector machine ---- *)
\* flat position denoted by (piece p, offset o)
Flat(p, o) == Sum(SubSeq(pieces, 1, p - 1)) + o

\* advance (p, o) by n bytes within the string, resting at the earliest place
RECURSIVE Walk(_, _, _)
Walk(p, o, n) ==
  IF p > Len(pieces) THEN <<p, 0>>
  ELSE IF o + n < pieces[p] THEN <<p, o + n>>
  ELSE Walk(p + 1, 0, n - (pieces[p] - o))

Target(o, wh) == CASE wh = 0 -> o [] wh = 1 -> pos + o [] wh = 2 -> Total(pieces) + o

Seek(o, wh) ==
  LET t  == Target(o, wh)
      ok == t >= 0 /\ t <= Total(pieces)
  IN /\ pos' = IF ok THEN t ELSE pos
     /\ IF ok THEN LET w == Walk(1, 0, t) IN pc' = w[1] /\ off' = w[2]
              ELSE UNCHANGED <<pc, off>>
     /\ hist' = Append(hist, [op |-> "seek", off |-> o, wh |-> wh, ok |-> ok,
                              pos |-> pos', got |-> 0])
     /\ UNCHANGED pieces

ReadFull(n) ==
  LET got == MinI(n, Total(pieces) - pos)
      w   == Walk(pc, off, got)
  IN /\ pos' = pos + got
     /\ pc' = w[1] /\ off' = w[2]
     /\ hist' = Append(hist, [op |-> "read", off |-> n, wh |-> 0, ok |-> TRUE,
                              pos |-> pos', got |-> got])
     /\ UNCHANGED pieces

Next == \/ \E n \in 0..(Total(pieces) + 1) : ReadFull(n)
        \/ \E t \in (0 - Slack)..(Total(pieces) + Slack), wh \in 0..2 :
              LET o == CASE wh = 0 -> t [] wh = 1 -> t - pos [] wh = 2 -> t - Total(pieces)
              IN Seek(o, wh)

Spec == Init /\ [][Next]_vars

View == <<pieces, pos, pc, off>>
Bound == Len(hist) <= MaxOps

TypeOK == pos \in 0..Total(pieces)
Refines == Flat(pc, off) = pos
\* refused operations do not move
NoMove == [][\A o \in {hist'[Len(hist')]} : (o.op = "seek" /\ ~o.ok) => pos' = pos]_vars

(* one behaviour per transition of the state graph: shortest history to the
   state, then the transition *)
\* simulation: long random histories, printed once when complete
SpecSim == Init /\ [][\/ Len(hist) < MaxOps /\ Next
                     \/ /\ Len(hist) = MaxOps
                        /\ PrintT(ToJson([pieces |-> pieces, ops |-> hist]))
                        /\ UNCHANGED vars]_vars

Emit == PrintT(ToJson([pieces |-> pieces, ops |-> hist']))
============================================================================
