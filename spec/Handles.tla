------------------------------ MODULE Handles ------------------------------
(* C19.  Opens of every format over files that end each format's attempt at each
   of its stages; sources, their sheets, and closing, in any order.  A file has
   no open handle while no source on it is open: not after an open that failed
   (whichever formats were tried before, and wherever they stopped), nor after a
   close, and closing again changes nothing.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxSrc, Vias

\* the stages of an attempt at which a file can make it stop
Stages == [ xls  |-> <<"signature", "version", "fat", "directory", "ministream", "nostream", "chain", "notbiff", "biff5", "cutrecord", "badstrings", "filepass", "wrongkey">>,
            xlsx |-> <<"zip", "norels", "cutrels", "noprimary", "nopartrels", "cutpartrels", "nobook", "cutbook", "badsheet", "nostyles", "cutstyles", "nostrings", "cutstrings", "badcrc">>,
            tsv  |-> <<"notab", "irregular">>,
            csv  |-> <<"quote", "irregular">> ]
Openers == <<"xls", "xlsx", "tsv", "csv">>     \* in order of priority
\* a file: a format and where its attempt stops ("" if nowhere); some have a
\* sheet that cannot be had; some have nothing in them (no sheet, or no sheet that
\* shows, or an empty one; no styles and no strings); missing is no file at all, dir a directory
Files == UNION {{[o |-> o, stop |-> Stages[o][k]] : k \in 1..Len(Stages[o])} : o \in DOMAIN Stages}
         \cup {[o |-> o, stop |-> ""] : o \in DOMAIN Stages}
         \cup {[o |-> "xlsx", stop |-> s] : s \in {"getnone", "getcut", "getbad"}}
         \cup {[o |-> "xlsx", stop |-> s] : s \in {"bare", "nosheets", "barenosheets", "emptysheet", "onlyhidden"}}
         \cup {[o |-> "xls", stop |-> s] : s \in {"nosheets", "emptysheet", "onlyhidden"}}
         \cup {[o |-> t, stop |-> s] : t \in {"tsv", "csv"}, s \in {"onerecord", "longrecord"}}
         \cup {[o |-> "xls", stop |-> "getnone"], [o |-> "", stop |-> "missing"], [o |-> "", stop |-> "dir"], [o |-> "", stop |-> "empty"]}

VARIABLES srcs,   \* [f, st: opening | open | failed, shut]
          held,   \* handles: <<source, format>>
          cur,    \* the attempt under way: [o: index into Openers, last, at: stage], or None
          hist, pick, phase
vars == <<srcs, held, cur, hist, pick, phase>>

None == [o |-> 0, last |-> 0, at |-> 0]
Init == srcs = <<>> /\ held = {} /\ cur = None /\ hist = <<>> /\ pick = "" /\ phase = "run"
Idle == phase = "run" /\ cur.o = 0
Pos(o) == CHOOSE k \in 1..4 : Openers[k] = o
Log(op, f, via, b) == hist' = Append(hist, [op |-> op, f |-> f, via |-> via, b |-> b])

Pick == /\ Idle /\ pick = "" /\ Len(hist) < MaxOps
        /\ pick' \in ({"get", "close"} \cup (IF Len(srcs) < MaxSrc THEN Vias ELSE {}))
        /\ (pick' \in {"get", "close"} => srcs # <<>>)
        /\ UNCHANGED <<srcs, held, cur, hist, phase>>

\* via "any" tries every format in turn, otherwise only the one named
Start == /\ Idle /\ pick \in Vias
         /\ \E f \in Files :
              /\ srcs' = Append(srcs, [f |-> f, st |-> "opening", shut |-> FALSE])
              /\ Log("open", f, pick, Len(srcs) + 1)
         /\ cur' = IF pick = "any" THEN [o |-> 1, last |-> 4, at |-> 0] ELSE [o |-> Pos(pick), last |-> Pos(pick), at |-> 0]
         /\ pick' = "" /\ UNCHANGED <<held, phase>>

K == Len(srcs)
O == Openers[cur.o]
F == srcs[K].f
Finish(st) == /\ srcs' = [srcs EXCEPT ![K].st = st] /\ cur' = None
Quiet == UNCHANGED <<hist, pick, phase>>

Acquire == /\ phase = "run" /\ cur.o # 0 /\ cur.at = 0
           /\ IF F.stop = "missing"
              THEN Finish("failed") /\ UNCHANGED held
              ELSE held' = held \cup {<<K, O>>} /\ cur' = [cur EXCEPT !.at = 1] /\ UNCHANGED srcs
           /\ Quiet
\* where this attempt stops: the file's own format where the file says, another
\* format at any stage, or not at all
Stops(st) == IF O = F.o THEN F.stop = st ELSE TRUE
Advance == /\ phase = "run" /\ cur.o # 0 /\ cur.at \in 1..Len(Stages[O])
           /\ ~(O = F.o /\ F.stop = Stages[O][cur.at])
           /\ cur' = [cur EXCEPT !.at = @ + 1]
           /\ UNCHANGED <<srcs, held>> /\ Quiet
\* an attempt that stops lets go of its file; then the next format, or the error
Stop == /\ phase = "run" /\ cur.o # 0 /\ cur.at \in 1..Len(Stages[O]) /\ Stops(Stages[O][cur.at])
        /\ held' = held \ {<<K, O>>}
        /\ \/ Finish("failed")
           \/ cur.o < cur.last /\ cur' = [cur EXCEPT !.o = @ + 1, !.at = 0] /\ UNCHANGED srcs
        /\ Quiet
\* only a package keeps its file while it is open
Accept == /\ phase = "run" /\ cur.o # 0 /\ cur.at > Len(Stages[O])
          /\ held' = IF O = "xlsx" THEN held ELSE held \ {<<K, O>>}
          /\ Finish("open") /\ Quiet

Get == /\ Idle /\ pick = "get"
       /\ \E k \in 1..Len(srcs) : Log("get", srcs[k].f, "", k)
       /\ pick' = "" /\ UNCHANGED <<srcs, held, cur, phase>>
Close == /\ Idle /\ pick = "close"
         /\ \E k \in 1..Len(srcs) :
              /\ srcs' = [srcs EXCEPT ![k].shut = TRUE]
              /\ held' = {h \in held : h[1] # k}
              /\ Log("close", srcs[k].f, "", k)
         /\ pick' = "" /\ UNCHANGED <<cur, phase>>
Emit == /\ Idle /\ pick = "" /\ Len(hist) = MaxOps /\ phase' = "emitted"
        /\ PrintT(ToJson([ops |-> hist]))
        /\ UNCHANGED <<srcs, held, cur, hist, pick>>
Next == Pick \/ Start \/ Acquire \/ Advance \/ Stop \/ Accept \/ Get \/ Close \/ Emit
Spec == Init /\ [][Next]_vars

Released == cur.o = 0 => \A h \in held : srcs[h[1]].st = "open" /\ ~srcs[h[1]].shut
OneEach == \A h, g \in held : h[1] = g[1] => h = g
=============================================================================
