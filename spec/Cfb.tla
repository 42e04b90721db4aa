------------------------------- MODULE Cfb ---------------------------------
(* C06, C07.  The compound file container.

   The *writer machine* builds a compound file: it lists directory entries,
   lays the short streams out in the mini stream (any order, with holes), and
   places the sectors of every owner - the directory, the mini FAT, the mini
   stream, the FAT itself, the DIFAT and each long stream - in the file, in
   any order and fragmentation, with free sectors in between.

   The *reader machine* (operators Load.../Read...) follows header, DIFAT, FAT,
   directory, mini FAT and the chains, refusing chains that leave the file, end
   early or run in a circle.

   Design invariants:  without a fault every stream reads back (ReadsBack);
   with any single fault or cut every stream is either refused or reads back
   (FaultsContained).  Both are evaluated with tiny tables; the same module is
   then run with the real constants to emit layouts and faults for the driver,
   which encodes them as real files.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
  S,          \* bytes per sector
  M,          \* bytes per mini sector
  Cut,        \* streams shorter than this live in the mini stream
  E,          \* table entries per sector
  D,          \* DIFAT slots in the header
  DE,         \* directory entries per sector
  Sizes,      \* stream sizes the writer may choose
  MaxEntries, \* directory entries besides the root
  MaxHoles,   \* free sectors / free mini sectors
  Grains,     \* lengths of consecutive runs (0: unfragmented)
  Kinds,      \* entry kinds
  DoFaults, DoEmit

VARIABLES want, phase, entries, grain, mpend, mlayout, pend, layout
vars == <<want, phase, entries, grain, mpend, mlayout, pend, layout>>

EOC == -1   FREE == -2   FATSECT == -3   DIFSECT == -4   OUT == -5

Ceil(a, b) == (a + b - 1) \div b
Nat0(a) == IF a < 0 THEN 0 ELSE a
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
MinI(a, b) == IF a < b THEN a ELSE b

IsStream(i) == entries[i].kind = "stream"
IsMini(i) == IsStream(i) /\ entries[i].size > 0 /\ entries[i].size < Cut
IsBig(i)  == IsStream(i) /\ entries[i].size >= Cut
SName(i)  == "s" \o ToString(i)

\* runs of an owner of n units, cut every g units
Segs(o, n, g) ==
  IF n = 0 THEN {}
  ELSE IF g = 0 THEN {[o |-> o, from |-> 0, n |-> n]}
  ELSE {[o |-> o, from |-> k * g, n |-> MinI(g, n - k * g)] : k \in 0..(Ceil(n, g) - 1)}

MSize(i) == Ceil(entries[i].size, M)
MiniUnits == SumSeq([j \in 1..Len(mlayout) |-> mlayout[j].n])

Init == /\ want \in 1..MaxEntries /\ phase = "dir" /\ entries = <<>> /\ grain \in Grains
        /\ mpend = {} /\ mlayout = <<>> /\ pend = {} /\ layout = <<>>

AddEntry ==
  /\ phase = "dir" /\ Len(entries) < want
  /\ \E k \in Kinds, s \in Sizes :
       /\ (k # "stream") => s = 0
       /\ entries' = Append(entries, [kind |-> k, size |-> s])
  /\ UNCHANGED <<want, phase, grain, mpend, mlayout, pend, layout>>

EndDir ==
  /\ phase = "dir" /\ Len(entries) = want /\ \E i \in 1..Len(entries) : IsStream(i)
  /\ phase' = "mini"
  /\ \E h \in 0..(IF \E i \in 1..Len(entries) : IsMini(i) THEN MaxHoles ELSE 0) :
       mpend' = UNION {Segs(SName(i), MSize(i), grain) : i \in {j \in 1..Len(entries) : IsMini(j)}}
                \cup Segs("hole", h, 1)
  /\ UNCHANGED <<want, entries, grain, mlayout, pend, layout>>

PlaceMini ==
  /\ phase = "mini" /\ mpend # {}
  /\ \E g \in mpend : mlayout' = Append(mlayout, g) /\ mpend' = mpend \ {g}
  /\ UNCHANGED <<want, phase, entries, grain, pend, layout>>

NDir  == Ceil(1 + Len(entries), DE)
NMFat == Ceil(MiniUnits, E)
NMini == Ceil(MiniUnits * M, S)
NBig(i) == Ceil(entries[i].size, S)
NDifat(f) == Ceil(Nat0(f - D), E - 1)
RECURSIVE FixFat(_, _)
FixFat(base, f) == IF f * E >= base + f + NDifat(f) THEN f ELSE FixFat(base, f + 1)

EndMini ==
  /\ phase = "mini" /\ mpend = {}
  /\ phase' = "place"
  /\ \E h \in 0..MaxHoles :
       LET bigs == {i \in 1..Len(entries) : IsBig(i)}
           base == h + NDir + NMFat + NMini
                   + SumSeq([i \in 1..Len(entries) |-> IF i \in bigs THEN NBig(i) ELSE 0])
           f    == FixFat(base, 1)
       IN pend' = UNION {Segs(SName(i), NBig(i), grain) : i \in bigs}
                  \cup Segs("hole", h, 1)
                  \cup Segs("dir", NDir, grain) \cup Segs("mfat", NMFat, grain)
                  \cup Segs("mini", NMini, grain)
                  \cup Segs("fat", f, grain) \cup Segs("difat", NDifat(f), grain)
  /\ UNCHANGED <<want, entries, grain, mpend, mlayout, layout>>

Place ==
  /\ phase = "place" /\ pend # {}
  /\ \E g \in pend : layout' = Append(layout, g) /\ pend' = pend \ {g}
  /\ UNCHANGED <<want, phase, entries, grain, mpend, mlayout>>

EndPlace ==
  /\ phase = "place" /\ pend = {} /\ phase' = "done"
  /\ UNCHANGED <<want, entries, grain, mpend, mlayout, pend, layout>>

(* ------------------------- the finished file --------------------------- *)
Count(lay, o) == SumSeq([j \in 1..Len(lay) |-> IF lay[j].o = o THEN lay[j].n ELSE 0])
Total(lay) == SumSeq([j \in 1..Len(lay) |-> lay[j].n])
Before(lay, j) == SumSeq([k \in 1..(j - 1) |-> lay[k].n])

\* position of unit k of owner o
At(lay, o, k) ==
  LET j == CHOOSE j \in 1..Len(lay) : lay[j].o = o /\ lay[j].from <= k /\ k < lay[j].from + lay[j].n
  IN Before(lay, j) + k - lay[j].from
\* owner and index of the unit at position p
RECURSIVE OwnerFrom(_, _, _)
OwnerFrom(lay, j, p) ==
  IF p < lay[j].n THEN [o |-> lay[j].o, k |-> lay[j].from + p]
  ELSE OwnerFrom(lay, j + 1, p - lay[j].n)
OwnerAt(lay, p) == OwnerFrom(lay, 1, p)

\* the word stored for position p in the (mini) allocation table
Word(lay, p) ==
  IF p >= Total(lay) THEN FREE
  ELSE LET w == OwnerAt(lay, p)
       IN CASE w.o = "fat"   -> FATSECT
            [] w.o = "difat" -> DIFSECT
            [] w.o = "hole"  -> FREE
            [] OTHER -> IF w.k + 1 < Count(lay, w.o) THEN At(lay, w.o, w.k + 1) ELSE EOC

Start(lay, o) == IF Count(lay, o) = 0 THEN EOC ELSE At(lay, o, 0)

(* ------------------------------- faults -------------------------------- *)
\* t: table, o: owner whose chain is hit, k: unit whose link is changed
\* v: new value ("own" j: unit j of the same chain).  "cut": only n sectors left.
NoFault == [t |-> "none", o |-> "", k |-> 0, v |-> 0, j |-> 0]
Ends(n) == {k \in {0, 1, n \div 2, n - 2, n - 1} : 0 <= k /\ k < n}
Chained == {"dir", "mfat", "mini"} \cup {SName(i) : i \in {j \in 1..Len(entries) : IsBig(j)}}
LinkFaults(t, lay, owners) ==
  UNION {{[t |-> t, o |-> o, k |-> k, v |-> v, j |-> 0] : k \in Ends(Count(lay, o)), v \in {EOC, FREE, FATSECT, DIFSECT, OUT}}
         \cup UNION {{[t |-> t, o |-> o, k |-> k, v |-> 0, j |-> j] : j \in {x \in Ends(Count(lay, o)) : x <= k}}
                      : k \in Ends(Count(lay, o))}
         : o \in owners}
StartFaults ==
  {[t |-> "start", o |-> o, k |-> 0, v |-> v, j |-> 0] :
     o \in {"dir"} \cup (IF NMFat > 0 THEN {"mfat", "mini"} ELSE {}) \cup
           {SName(i) : i \in {j \in 1..Len(entries) : IsMini(j) \/ IsBig(j)}},
     v \in {EOC, FREE, FATSECT, OUT}}
DifatFaults ==
  {[t |-> "hdifat", o |-> "fat", k |-> k, v |-> v, j |-> 0] : k \in {x \in Ends(Count(layout, "fat")) : x < D}, v \in {OUT, FREE, EOC}}
  \cup {[t |-> "difat", o |-> "difat", k |-> k, v |-> OUT, j |-> 0] : k \in Ends(Count(layout, "difat"))}
  \cup {[t |-> "difat", o |-> "difat", k |-> k, v |-> 0, j |-> j] :
          k \in Ends(Count(layout, "difat")), j \in {0}}
  \* entries of the DIFAT sectors: table sectors lost in the middle and at the end
  \cup {[t |-> "edifat", o |-> "difat", k |-> k, v |-> v, j |-> 0] :
          k \in Ends(Nat0(Count(layout, "fat") - D)), v \in {OUT, FREE, EOC}}
Cuts == {[t |-> "cut", o |-> "", k |-> k, v |-> 0, j |-> 0] : k \in 0..(Total(layout) - 1)}
MiniOwners == {SName(i) : i \in {j \in 1..Len(entries) : IsMini(j)}}
\* declared lengths: a stream longer than its chain by k bytes, a mini stream container shorter by k mini sectors
SizeFaults ==
  UNION {{[t |-> "size", o |-> SName(i), k |-> k, v |-> 0, j |-> 0] :
            k \in IF IsBig(i) THEN {1, S, 65536, 1000000000}
                  ELSE {x \in {1, M, 640} : Count(mlayout, SName(i)) * M + x < Cut}}
         : i \in {j \in 1..Len(entries) : IsMini(j) \/ IsBig(j)}}
  \cup {[t |-> "rsize", o |-> "mini", k |-> k, v |-> 0, j |-> 0] : k \in {x \in {1, 2, MiniUnits \div 2, MiniUnits} : 0 < x /\ x <= MiniUnits}}
\* fields of the header: those that name the format and the layout, and those that repeat what is known
LayoutFields == {"sig", "order", "version", "shift", "mshift", "cutoff"}
KnownFields == {"minor", "ndir", "nfat", "nmfat", "ndifat", "tsig", "clsid", "reserved"}
HeadFaults == {[t |-> "head", o |-> o, k |-> k, v |-> 0, j |-> 0] : o \in LayoutFields \cup KnownFields, k \in 0..3}
Faults == LinkFaults("fat", layout, Chained) \cup LinkFaults("mfat", mlayout, MiniOwners)
          \cup StartFaults \cup DifatFaults \cup SizeFaults \cup HeadFaults

(* ------------------------------- reader -------------------------------- *)
ERR == <<-99>>
FVal(f, lay) == IF f.v # 0 THEN f.v ELSE At(lay, f.o, f.j)
NSec(f) == IF f.t = "cut" THEN f.k ELSE Total(layout)
InFile(f, s) == s >= 0 /\ s < NSec(f)

\* follow a chain: next(s) gives the following sector or a negative value;
\* need = -1: until the end marker, otherwise exactly need sectors
RECURSIVE Follow(_, _, _, _, _, _)
Follow(f, s, need, next(_), ok(_), acc) ==
  IF need = Len(acc) THEN acc
  ELSE IF need = -1 /\ s = EOC THEN acc
  ELSE IF ~ok(s) \/ (\E i \in 1..Len(acc) : acc[i] = s) THEN ERR
  ELSE Follow(f, next(s), need, next, ok, Append(acc, s))

\* the list of FAT sectors, in table order
DifatNext(f, k) ==   \* link at the end of DIFAT sector number k
  IF f.t = "difat" /\ f.k = k THEN FVal(f, layout)
  ELSE IF k + 1 < Count(layout, "difat") THEN At(layout, "difat", k + 1) ELSE EOC

RECURSIVE LoadDifat(_, _, _)
LoadDifat(f, s, seen) ==
  IF s = EOC THEN seen
  ELSE IF ~InFile(f, s) \/ s \in {seen[i] : i \in 1..Len(seen)} THEN ERR
  ELSE LoadDifat(f, DifatNext(f, OwnerAt(layout, s).k), Append(seen, s))

\* FAT loads iff every FAT and DIFAT sector is there
FatLoads(f) ==
  /\ LoadDifat(f, Start(layout, "difat"), <<>>) # ERR
  /\ f.t \notin {"hdifat", "edifat"}
  /\ \A k \in 0..(Count(layout, "fat") - 1) : InFile(f, At(layout, "fat", k))

FatWord(f, s) ==
  IF f.t = "fat" /\ s = At(layout, f.o, f.k) THEN FVal(f, layout) ELSE Word(layout, s)
MFatWord(f, s) ==
  IF f.t = "mfat" /\ s = At(mlayout, f.o, f.k) THEN FVal(f, mlayout) ELSE Word(mlayout, s)
StartOf(f, lay, o) == IF f.t = "start" /\ f.o = o THEN f.v ELSE Start(lay, o)

Sectors(f, start, need) ==
  Follow(f, start, need, LAMBDA s : FatWord(f, s), LAMBDA s : InFile(f, s), <<>>)

DirSectors(f)  == Sectors(f, StartOf(f, layout, "dir"), -1)
MFatSectors(f) == IF NMFat = 0 THEN <<>>
                  ELSE LET s == StartOf(f, layout, "mfat")
                       IN Sectors(f, IF s = FREE THEN EOC ELSE s, -1)
Opens(f) == ~(f.t = "head" /\ f.o \in LayoutFields) /\ FatLoads(f) /\ DirSectors(f) # ERR /\ MFatSectors(f) # ERR

\* is entry i (root = 0) visible in the directory that was read?
Listed(f, i) == Len(DirSectors(f)) > i \div DE /\ DirSectors(f)[i \div DE + 1] = At(layout, "dir", i \div DE)

\* units that a declared length asks for
Asked(f, i, n, unit) == IF f.t = "size" /\ f.o = SName(i) THEN n + ((f.k - 1) \div unit) + 1 ELSE n
ReadBig(f, i) == Sectors(f, StartOf(f, layout, SName(i)), Asked(f, i, NBig(i), S))
\* the mini stream's sectors; its length is in the root entry
MiniSecs(f) == Sectors(f, StartOf(f, layout, "mini"), NMini)
ReadMini(f, i) ==
  LET mf == MFatSectors(f)
      ms == MiniSecs(f)
      \* the mini FAT word of mini sector s is only known if its sector was read
      known(s) == s >= 0 /\ s \div E < Len(mf)
      word(s) == IF known(s) THEN MFatWord(f, s) ELSE OUT
      ch == Follow(f, StartOf(f, mlayout, SName(i)), Asked(f, i, MSize(i), M), word,
                   LAMBDA s : s >= 0 /\ s < MiniUnits - (IF f.t = "rsize" THEN f.k ELSE 0), <<>>)
  IN IF ms = ERR \/ ch = ERR THEN ERR
     ELSE [k \in 1..Len(ch) |-> ms[(ch[k] * M) \div S + 1] * S + ((ch[k] * M) % S)]   \* byte address

Read(f, i) == IF ~Opens(f) \/ ~Listed(f, i) THEN ERR
              ELSE IF IsBig(i) THEN ReadBig(f, i)
              ELSE IF IsMini(i) THEN ReadMini(f, i) ELSE <<>>

Stored(i) ==
  IF IsBig(i) THEN [k \in 1..NBig(i) |-> At(layout, SName(i), k - 1)]
  ELSE IF IsMini(i) THEN
    [k \in 1..MSize(i) |->
       LET m == At(mlayout, SName(i), k - 1)
       IN At(layout, "mini", (m * M) \div S) * S + ((m * M) % S)]
  ELSE <<>>

Streams == {i \in 1..Len(entries) : IsStream(i)}
ReadsBack == phase = "done" => \A i \in Streams : Read(NoFault, i) = Stored(i)
FaultsContained ==
  (DoFaults /\ phase = "done") =>
     \A f \in Faults \cup Cuts : \A i \in Streams : Read(f, i) \in {ERR, Stored(i)}

\* no two units share a sector, none is lost
Complete == phase = "done" =>
  \A i \in Streams : Count(layout, SName(i)) = (IF IsBig(i) THEN NBig(i) ELSE 0)
                     /\ Count(mlayout, SName(i)) = (IF IsMini(i) THEN MSize(i) ELSE 0)

Emit == /\ phase = "done" /\ DoEmit /\ phase' = "emitted"
        /\ PrintT(ToJson([s |-> S, entries |-> entries, mlayout |-> mlayout, layout |-> layout,
                          faults |-> IF DoFaults THEN SetToSeq(Faults) ELSE <<>>]))
        /\ UNCHANGED <<want, entries, grain, mpend, mlayout, pend, layout>>

Next == AddEntry \/ EndDir \/ PlaceMini \/ EndMini \/ Place \/ EndPlace \/ Emit
Spec == Init /\ [][Next]_vars
============================================================================
