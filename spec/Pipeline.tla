----------------------------- MODULE Pipeline -----------------------------
(* C21, the process structure of grate2tsv.  The main process hands file names
   to N workers over an unbuffered channel; a worker writes every sheet through
   a buffer taken from a shared pool and passes the buffer to the cleaner over a
   bounded channel, then reports its file's lines under a lock; the cleaner
   flushes, closes and gives the buffer back; the main process waits for the
   workers, closes the channel, waits for the cleaner and leaves.

   Files: a sequence of files, each a sequence of sheets (the number of rows to
   write; 0 for an empty sheet, -1 for one that cannot be had), or Unreadable. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Cap, MaxFiles, MaxSheets, Rows

Workers == 1..N
Unreadable == <<-9>>
FileSet == {Unreadable} \cup UNION {[1..n -> {-1, 0} \cup Rows] : n \in 0..MaxSheets}
Full(x) == x > 0

VARIABLES files, next, closed,     \* what is to be done, next to hand out
          w,                       \* worker -> [at, f, s, b, r]
          buf,                     \* buffer -> [f, s, got: rows not on disk yet] 
          pool, chan, chanClosed, cl,  \* cl: cleaner's [at, b]
          disk,                    \* <<f, s>> -> rows on disk, in order
          open,                    \* outputs not closed yet
          lines, mu, main
vars == <<files, next, closed, w, buf, pool, chan, chanClosed, cl, disk, open, lines, mu, main>>

Idle == [at |-> "idle", f |-> 0, s |-> 0, b |-> 0, r |-> 0]
Init == /\ files \in UNION {[1..n -> FileSet] : n \in 0..MaxFiles}
        /\ next = 1 /\ closed = FALSE
        /\ w = [i \in Workers |-> Idle]
        /\ buf = <<>> /\ pool = {} /\ chan = <<>> /\ chanClosed = FALSE /\ cl = [at |-> "wait", b |-> 0]
        /\ disk = <<>> /\ open = {} /\ lines = <<>> /\ mu = 0 /\ main = "feed"

\* ---- main ----
Hand(i) == /\ main = "feed" /\ next <= Len(files) /\ w[i].at = "idle"
           /\ w' = [w EXCEPT ![i] = [Idle EXCEPT !.at = "open", !.f = next]]
           /\ next' = next + 1
           /\ UNCHANGED <<files, closed, buf, pool, chan, chanClosed, cl, disk, open, lines, mu, main>>
NoMore == /\ main = "feed" /\ next > Len(files)
          /\ closed' = TRUE /\ main' = "workers"
          /\ UNCHANGED <<files, next, w, buf, pool, chan, chanClosed, cl, disk, open, lines, mu>>
WorkersDone == /\ main = "workers" /\ \A i \in Workers : w[i].at = "gone"
               /\ chanClosed' = TRUE /\ main' = "cleaner"
               /\ UNCHANGED <<files, next, closed, w, buf, pool, chan, cl, disk, open, lines, mu>>
Leave == /\ main = "cleaner" /\ cl.at = "gone" /\ main' = "left"
         /\ UNCHANGED <<files, next, closed, w, buf, pool, chan, chanClosed, cl, disk, open, lines, mu>>

\* ---- workers ----
Same == UNCHANGED <<files, next, closed, chanClosed, cl, main>>
Gone(i) == /\ w[i].at = "idle" /\ closed /\ w' = [w EXCEPT ![i].at = "gone"]
           /\ UNCHANGED <<buf, pool, chan, disk, open, lines, mu>> /\ Same
OpenFile(i) == /\ w[i].at = "open"
               /\ w' = IF files[w[i].f] = Unreadable THEN [w EXCEPT ![i].at = "lock"] ELSE [w EXCEPT ![i].at = "sheet", ![i].s = 1]
               /\ UNCHANGED <<buf, pool, chan, disk, open, lines, mu>> /\ Same
\* a buffer from the pool, or a new one
Sheet(i) == /\ w[i].at = "sheet"
            /\ LET f == w[i].f
                   s == w[i].s IN
               IF s > Len(files[f]) THEN w' = [w EXCEPT ![i].at = "lock"] /\ UNCHANGED <<buf, pool, disk, open>>
               ELSE IF ~Full(files[f][s]) THEN w' = [w EXCEPT ![i].s = @ + 1] /\ UNCHANGED <<buf, pool, disk, open>>
               ELSE /\ disk' = disk @@ (<<f, s>> :> <<>>) /\ open' = open \cup {<<f, s>>}
                    /\ IF pool = {}
                       THEN /\ buf' = Append(buf, [f |-> f, s |-> s, got |-> <<>>]) /\ UNCHANGED pool
                            /\ w' = [w EXCEPT ![i].at = "write", ![i].b = Len(buf) + 1, ![i].r = 0]
                       ELSE \E b \in pool : /\ buf' = [buf EXCEPT ![b] = [f |-> f, s |-> s, got |-> <<>>]]
                                            /\ pool' = pool \ {b}
                                            /\ w' = [w EXCEPT ![i].at = "write", ![i].b = b, ![i].r = 0]
            /\ UNCHANGED <<chan, lines, mu>> /\ Same
WriteRow(i) == /\ w[i].at = "write" /\ w[i].r < files[w[i].f][w[i].s]
               /\ w' = [w EXCEPT ![i].r = @ + 1]
               /\ buf' = [buf EXCEPT ![w[i].b].got = Append(@, w[i].r + 1)]
               /\ UNCHANGED <<pool, chan, disk, open, lines, mu>> /\ Same
\* a full buffer goes to disk early
Flush(b) == /\ disk' = [disk EXCEPT ![<<buf[b].f, buf[b].s>>] = @ \o buf[b].got]
            /\ buf' = [buf EXCEPT ![b].got = <<>>]
Spill(i) == /\ w[i].at = "write" /\ buf[w[i].b].got # <<>> /\ Flush(w[i].b)
            /\ UNCHANGED <<w, pool, chan, open, lines, mu>> /\ Same
Send(i) == /\ w[i].at = "write" /\ w[i].r = files[w[i].f][w[i].s] /\ Len(chan) < Cap
           /\ chan' = Append(chan, w[i].b)
           /\ w' = [w EXCEPT ![i].at = "sheet", ![i].s = @ + 1, ![i].b = 0]
           /\ UNCHANGED <<buf, pool, disk, open, lines, mu>> /\ Same
Lock(i) == /\ w[i].at = "lock" /\ mu = 0 /\ mu' = i
           /\ w' = [w EXCEPT ![i].at = "report", ![i].s = IF files[w[i].f] = Unreadable THEN 0 ELSE 1]
           /\ UNCHANGED <<buf, pool, chan, disk, open, lines>> /\ Same
Report(i) == /\ w[i].at = "report"
             /\ IF files[w[i].f] = Unreadable /\ w[i].s = 0
                THEN lines' = Append(lines, <<w[i].f, 0>>) /\ w' = [w EXCEPT ![i] = Idle] /\ mu' = 0
                ELSE IF w[i].s > Len(files[w[i].f]) THEN w' = [w EXCEPT ![i] = Idle] /\ mu' = 0 /\ UNCHANGED lines
                ELSE lines' = Append(lines, <<w[i].f, w[i].s>>) /\ w' = [w EXCEPT ![i].s = @ + 1] /\ UNCHANGED mu
             /\ UNCHANGED <<buf, pool, chan, disk, open>> /\ Same

\* ---- cleaner ----
SameC == UNCHANGED <<files, next, closed, w, chanClosed, lines, mu, main>>
Take == /\ cl.at = "wait" /\ chan # <<>> /\ cl' = [at |-> "flush", b |-> Head(chan)] /\ chan' = Tail(chan)
        /\ UNCHANGED <<buf, pool, disk, open>> /\ SameC
FlushC == /\ cl.at = "flush" /\ Flush(cl.b) /\ cl' = [cl EXCEPT !.at = "close"]
          /\ UNCHANGED <<pool, chan, open>> /\ SameC
CloseC == /\ cl.at = "close" /\ open' = open \ {<<buf[cl.b].f, buf[cl.b].s>>} /\ cl' = [cl EXCEPT !.at = "put"]
          /\ UNCHANGED <<buf, pool, chan, disk>> /\ SameC
PutC == /\ cl.at = "put" /\ pool' = pool \cup {cl.b} /\ cl' = [at |-> "wait", b |-> 0]
        /\ UNCHANGED <<buf, chan, disk, open>> /\ SameC
GoneC == /\ cl.at = "wait" /\ chan = <<>> /\ chanClosed /\ cl' = [cl EXCEPT !.at = "gone"]
         /\ UNCHANGED <<buf, pool, chan, disk, open>> /\ SameC

WorkerStep(i) == Hand(i) \/ Gone(i) \/ OpenFile(i) \/ Sheet(i) \/ WriteRow(i) \/ Send(i) \/ Lock(i) \/ Report(i)
MainStep == NoMore \/ WorkersDone \/ Leave
CleanStep == Take \/ FlushC \/ CloseC \/ PutC \/ GoneC
Left == main = "left" /\ UNCHANGED vars
Next == (\E i \in Workers : WorkerStep(i) \/ Spill(i)) \/ MainStep \/ CleanStep \/ Left
Spec == Init /\ [][Next]_vars /\ WF_vars(MainStep) /\ WF_vars(CleanStep) /\ \A i \in Workers : WF_vars(WorkerStep(i)) /\ SF_vars(Lock(i)) /\ SF_vars(Send(i))

\* a buffer is in one place at a time
InUse == {w[i].b : i \in Workers} \ {0}
OnePlace == /\ \A i, j \in Workers : i # j /\ w[i].b # 0 => w[i].b # w[j].b
            /\ Cardinality({chan[k] : k \in 1..Len(chan)}) = Len(chan)
            /\ LET c == {chan[k] : k \in 1..Len(chan)}
                   d == {cl.b} \ {0} IN
               InUse \cap c = {} /\ InUse \cap d = {} /\ InUse \cap pool = {} /\ c \cap d = {} /\ c \cap pool = {} /\ (d \cap pool = {})
\* one output is written through one buffer
OneBuffer == \A i, j \in Workers : i # j /\ w[i].at = "write" /\ w[j].at = "write" => <<w[i].f, w[i].s>> # <<w[j].f, w[j].s>>
\* rows reach the disk in order, none twice
InOrder == \A o \in DOMAIN disk : disk[o] = [k \in 1..Len(disk[o]) |-> k]
\* a file's lines are together
Together == \A a, b, c \in 1..Len(lines) : a < b /\ b < c /\ lines[a][1] = lines[c][1] => lines[b][1] = lines[a][1]
Complete == main = "left" =>
  /\ open = {}
  /\ \A f \in 1..Len(files) :
       IF files[f] = Unreadable THEN Cardinality({k \in 1..Len(lines) : lines[k][1] = f}) = 1
       ELSE /\ \A s \in 1..Len(files[f]) : /\ Cardinality({k \in 1..Len(lines) : lines[k] = <<f, s>>}) = 1
                                           /\ IF Full(files[f][s]) THEN disk[<<f, s>>] = [k \in 1..files[f][s] |-> k] ELSE <<f, s>> \notin DOMAIN disk
            /\ Cardinality({k \in 1..Len(lines) : lines[k][1] = f}) = Len(files[f])
Ends == <>(main = "left")
=============================================================================
