------------------------------ MODULE CfbTree ------------------------------
(* C06, C07, C08.  The folders of a compound file.

   Every folder holds its streams and folders as a binary tree in the order of
   their names; the trees of all folders share one directory, whose entries
   may lie in any order, with unused entries between them.  Streams of
   different folders may have the same name: a workbook with embedded objects
   has a Workbook stream in the root and one in the folder of each object.

   The writer adds one entry after another.  The reader lists the directory
   and finds out, from the trees of the inner folders, what is not part of the
   root.  A name stands for the stream of the root, if there is one.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEntries, Names, Slots, Depth, Twists

VARIABLES es, ch, phase, twist, new  \* new: folder and name of the next entry
vars == <<es, ch, phase, twist, new>>

\* es: sequence of [nm, kind, up, slot, l, r]; an entry is known by its place in es, the root is 0
\* ch: tree of each folder, by folder
Init == es = <<>> /\ ch = [f \in 0..MaxEntries |-> 0] /\ phase = "build" /\ twist = [i |-> 0, f |-> "none", v |-> 0] /\ new = [up |-> 99, nm |-> 0]

N == Len(es)
Folders == {0} \cup {i \in 1..N : es[i].kind = "storage"}
RECURSIVE Level(_)
Level(f) == IF f = 0 THEN 0 ELSE 1 + Level(es[f].up)
In(f) == {i \in 1..N : es[i].up = f}

\* where a name belongs in the tree below entry i
RECURSIVE Place(_, _)
Place(i, nm) ==
  IF nm < es[i].nm THEN IF es[i].l = 0 THEN [i |-> i, side |-> "l"] ELSE Place(es[i].l, nm)
  ELSE IF es[i].r = 0 THEN [i |-> i, side |-> "r"] ELSE Place(es[i].r, nm)

Choose == /\ phase = "build" /\ N < MaxEntries /\ new.nm = 0
          /\ \E up \in Folders : \E nm \in Names :
               /\ Level(up) <= Depth /\ \A i \in In(up) : es[i].nm # nm
               /\ new' = [up |-> up, nm |-> nm]
          /\ UNCHANGED <<es, ch, phase, twist>>
Add == /\ new.nm # 0 /\ new' = [up |-> 99, nm |-> 0]
       /\ \E slot \in Slots \ {es[i].slot : i \in 1..N} :
          \E kind \in (IF Level(new.up) < Depth THEN {"stream", "storage"} ELSE {"stream"}) :
            LET e == [nm |-> new.nm, kind |-> kind, up |-> new.up, slot |-> slot, l |-> 0, r |-> 0]
            IN IF ch[new.up] = 0
               THEN es' = Append(es, e) /\ ch' = [ch EXCEPT ![new.up] = N + 1]
               ELSE LET p == Place(ch[new.up], new.nm) IN
                    /\ es' = Append(IF p.side = "l" THEN [es EXCEPT ![p.i].l = N + 1] ELSE [es EXCEPT ![p.i].r = N + 1], e)
                    /\ UNCHANGED ch
       /\ UNCHANGED <<phase, twist>>
Finish == phase = "build" /\ N = MaxEntries /\ (\E i \in 1..N : es[i].kind = "stream") /\ phase' = "done" /\ UNCHANGED <<es, ch, twist, new>>

(* ---- a link that is wrong: to another entry, or nowhere ---- *)
Out == 99
Twist == /\ phase = "done" /\ Twists
         /\ \E i \in 0..N : \E f \in (IF i = 0 THEN {"c"} ELSE {"l", "r", "c"}) : \E v \in 0..N \cup {Out} :
              twist' = [i |-> i, f |-> f, v |-> v]
         /\ phase' = "twisted" /\ UNCHANGED <<es, ch, new>>
Lnk(i, f) == IF twist.f = f /\ twist.i = i THEN twist.v ELSE CASE f = "l" -> es[i].l [] f = "r" -> es[i].r [] f = "c" -> ch[i]

(* ---- the reader ---- *)
RECURSIVE Walk(_, _)
\* the entries met from those to do, each met once
Walk(todo, seen) ==
  LET more == {i \in todo : i \in 1..N} \ seen IN
  IF more = {} THEN seen ELSE Walk(UNION {{Lnk(i, "l"), Lnk(i, "r")} : i \in more}, seen \cup more)
Nested == Walk({Lnk(f, "c") : f \in Folders \ {0}}, {})
Streams(nm) == {i \in 1..N : es[i].kind = "stream" /\ es[i].nm = nm}
\* what a name stands for: one of these
Found(nm) == IF Streams(nm) \ Nested # {} THEN Streams(nm) \ Nested ELSE Streams(nm)

\* what it ought to stand for
RootStream(nm) == {i \in Streams(nm) : es[i].up = 0}
TreesOK == twist.f = "none" => /\ Nested = {i \in 1..N : es[i].up # 0}
                               /\ \A f \in Folders : Walk({ch[f]}, {}) = In(f)
NamesOK == twist.f = "none" => \A nm \in Names :
  RootStream(nm) # {} => Found(nm) = RootStream(nm) /\ Cardinality(Found(nm)) = 1
\* a wrong link never lets a stream vanish
TwistOK == \A nm \in Names : (Streams(nm) # {}) = (Found(nm) # {})

Slot(i) == IF i = 0 THEN 0 ELSE IF i = Out THEN Out ELSE es[i].slot
Emit == /\ phase = (IF Twists THEN "twisted" ELSE "done") /\ phase' = "emitted"
        /\ PrintT(ToJson([entries |-> [i \in 1..N |-> [slot |-> es[i].slot, nm |-> es[i].nm, kind |-> es[i].kind, up |-> Slot(es[i].up),
                                                       l |-> Slot(Lnk(i, "l")), r |-> Slot(Lnk(i, "r")), c |-> Slot(Lnk(i, "c"))]],
                          root |-> Slot(Lnk(0, "c")), twisted |-> Twists,
                          found |-> {[nm |-> nm, slots |-> {es[i].slot : i \in (IF Twists \/ RootStream(nm) = {} THEN Streams(nm) ELSE RootStream(nm))},
                                      must |-> ~Twists /\ RootStream(nm) # {}] : nm \in Names}]))
        /\ UNCHANGED <<es, ch, twist, new>>
Next == Choose \/ Add \/ Finish \/ Twist \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
