---------------------------- MODULE Delim ----------------------------
(* C20.  Delimited text, read one symbol at a time by two lexers running side
   by side: lines of tab-separated fields, and comma-separated records with
   standard quoting.  The text is chosen as it is read, so exploring the
   machine explores all texts; each finished text is emitted with what both
   lexers make of it.

   MODE "text": any text.  MODE "write": the text is what a writer produces
   for chosen records (quoting a field or not); WrittenBack says the CSV lexer
   returns those records.  MODE "count": many lines, regular or not, for the
   documented acceptance rule.  A text that holds a NUL byte is binary and
   taken by neither.                                                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MODE, Alphabet, MaxLen, FieldLen, Counts

VARIABLES text,       \* symbols read so far
          tsv, csv,   \* lexer states
          wrote,      \* records a writer has produced (MODE "write")
          want, phase
vars == <<text, tsv, csv, wrote, want, phase>>

Plain == {"x", "y", "SP", "E9", "BIG", "SEMI", "xFF", "VT", "NBSP"}

(* ---- tab-separated lines ---- *)
T0 == [cur |-> <<>>, rec |-> <<>>, recs |-> <<>>, any |-> FALSE, cr |-> FALSE]
TEnd(s) == [T0 EXCEPT !.recs = Append(s.recs, Append(s.rec, s.cur))]
TPut(s, ch) == CASE ch = "TAB" -> [s EXCEPT !.rec = Append(s.rec, s.cur), !.cur = <<>>, !.any = TRUE]
                 [] OTHER -> [s EXCEPT !.cur = Append(s.cur, ch), !.any = TRUE]
TStep(s, ch) ==
  LET f == IF s.cr /\ ch # "LF" THEN [TPut(s, "CR") EXCEPT !.cr = FALSE] ELSE s
  IN CASE ch = "LF" -> TEnd(f)
       [] ch = "CR" -> [f EXCEPT !.cr = TRUE, !.any = TRUE]
       [] OTHER -> TPut(f, ch)
TEof(s) == IF s.any THEN TEnd(s).recs ELSE s.recs

(* ---- comma-separated records ---- *)
\* st: S at the start of a field, U in a bare field, Q in quotes, E after a
\* quote inside quotes, X malformed
C0 == [st |-> "S", cur |-> <<>>, rec |-> <<>>, recs |-> <<>>, cr |-> FALSE, odd |-> FALSE]
Push(s) == [s EXCEPT !.rec = Append(s.rec, s.cur), !.cur = <<>>, !.st = "S"]
CEnd(s) == LET p == Push(s) IN [p EXCEPT !.recs = Append(p.recs, p.rec), !.rec = <<>>]
CPut(s, ch) ==
  CASE s.st = "X" -> s
    [] s.st = "S" /\ ch = "COMMA" -> Push(s)
    [] s.st = "S" /\ ch = "QUOTE" -> [s EXCEPT !.st = "Q"]
    [] s.st = "S" /\ ch = "LF" -> IF s.rec = <<>> THEN s ELSE CEnd(s)   \* a blank line is no record
    [] s.st = "S" -> [s EXCEPT !.st = "U", !.cur = <<ch>>]
    [] s.st = "U" /\ ch = "COMMA" -> Push(s)
    [] s.st = "U" /\ ch = "QUOTE" -> [s EXCEPT !.st = "X"]
    [] s.st = "U" /\ ch = "LF" -> CEnd(s)
    [] s.st = "U" -> [s EXCEPT !.cur = Append(@, ch)]
    [] s.st = "Q" /\ ch = "QUOTE" -> [s EXCEPT !.st = "E"]
    [] s.st = "Q" -> [s EXCEPT !.cur = Append(@, ch)]
    [] s.st = "E" /\ ch = "QUOTE" -> [s EXCEPT !.st = "Q", !.cur = Append(@, "QUOTE")]
    [] s.st = "E" /\ ch = "COMMA" -> Push(s)
    [] s.st = "E" /\ ch = "LF" -> CEnd(s)
    [] OTHER -> [s EXCEPT !.st = "X"]
CStep(s, ch) ==
  LET f == IF s.cr /\ ch # "LF" THEN [CPut(s, "CR") EXCEPT !.cr = FALSE] ELSE [s EXCEPT !.cr = FALSE]
  IN IF ch = "CR" THEN IF f.st = "Q" THEN [f EXCEPT !.odd = TRUE, !.cur = Append(@, "CR")]
                       ELSE [f EXCEPT !.cr = TRUE]
     ELSE CPut(f, ch)
CEof(s) == CASE s.st \in {"Q", "X"} -> [s EXCEPT !.st = "X"]
             [] s.st = "S" /\ s.rec = <<>> -> s
             [] OTHER -> CEnd(s)

Read(ch) == /\ text' = Append(text, ch)
            /\ tsv' = TStep(tsv, ch) /\ csv' = CStep(csv, ch)

(* ---- acceptance by the column counts ---- *)
Columns(recs) == [c \in {Len(recs[k]) : k \in 1..Len(recs)} |-> Cardinality({k \in 1..Len(recs) : Len(recs[k]) = c})]
Irregular(n, total) ==      \* n: columns |-> lines
  /\ ~\E c \in DOMAIN n : c > 1 /\ n[c] > 10 /\ 5 * n[c] > 4 * total
  /\ \E c \in DOMAIN n : c > 1 /\ n[c] > 25
TsvTakes(n, total) == ~Irregular(n, total) /\ \E c \in DOMAIN n : c > 1

Binary == \E k \in 1..Len(text) : text[k] = "NUL"

(* ---- MODE text ---- *)
Type == /\ MODE = "text" /\ phase = "go" /\ Len(text) < want
        /\ \E ch \in Alphabet : Read(ch)
        /\ UNCHANGED <<wrote, want, phase>>
FinishText ==
  /\ MODE = "text" /\ phase = "go" /\ Len(text) = want /\ phase' = "emitted"
  \* a lone carriage return at the end of the file, or inside quotes, is not claimed
  /\ ~(text # <<>> /\ Last(text) = "CR") /\ ~csv.odd
  /\ LET tr == TEof(tsv)
         cs == CEof(csv)
     IN PrintT(ToJson([k |-> "text", text |-> text,
                       tok |-> ~Binary /\ TsvTakes(Columns(tr), Len(tr)), tsv |-> tr,
                       cok |-> ~Binary /\ cs.st # "X" /\ ~Irregular(Columns(cs.recs), Len(cs.recs)), csv |-> cs.recs]))
  /\ UNCHANGED <<text, tsv, csv, wrote, want>>

(* ---- MODE write ---- *)
\* wrote = records finished and the record under construction; want = number of
\* fields still to write; phase "go" between fields, "bare"/"quoted" inside one
Field == wrote[Len(wrote)][Len(wrote[Len(wrote)])]
AddToField(ch) == wrote' = [wrote EXCEPT ![Len(wrote)][Len(wrote[Len(wrote)])] = Append(@, ch)]
WBare == /\ phase = "bare" /\ Len(Field) < FieldLen /\ \E ch \in Alphabet \cap Plain : Read(ch) /\ AddToField(ch)
         /\ UNCHANGED <<want, phase>>
Read2(a, b) == /\ text' = text \o <<a, b>>
               /\ tsv' = TStep(TStep(tsv, a), b) /\ csv' = CStep(CStep(csv, a), b)
WQuoted == /\ phase = "quoted" /\ Len(Field) < FieldLen
           /\ \E ch \in Alphabet : /\ ch # "CR"
                                   /\ IF ch = "QUOTE" THEN Read2("QUOTE", "QUOTE") ELSE Read(ch)
                                   /\ AddToField(ch)
           /\ UNCHANGED <<want, phase>>
WOpen == /\ phase = "go" /\ want > 0
         /\ \/ phase' = "bare" /\ UNCHANGED <<text, tsv, csv>>
            \/ phase' = "quoted" /\ Read("QUOTE")
         /\ wrote' = [wrote EXCEPT ![Len(wrote)] = Append(@, <<>>)]
         /\ UNCHANGED want
WClose == /\ phase = "quoted" /\ Read("QUOTE") /\ phase' = "close" /\ UNCHANGED <<wrote, want>>
WNext == /\ phase \in {"bare", "close"} /\ want > 1 /\ Read("COMMA")
         /\ want' = want - 1 /\ phase' = "go" /\ UNCHANGED wrote
\* a line break ends the record; a bare empty single field would be a blank line
WLine == /\ phase \in {"bare", "close"} /\ want > 1
         /\ ~(phase = "bare" /\ wrote[Len(wrote)] = <<<<>>>>)
         /\ (Read("LF") \/ Read2("CR", "LF"))
         /\ wrote' = Append(wrote, <<>>) /\ want' = want - 1 /\ phase' = "go"
WDone == /\ phase \in {"bare", "close"} /\ want = 1
         /\ ~(phase = "bare" /\ wrote[Len(wrote)] = <<<<>>>>)
         /\ (Read("LF") \/ UNCHANGED <<text, tsv, csv>>)
         /\ phase' = "done" /\ UNCHANGED <<wrote, want>>
WEmit == /\ phase = "done" /\ phase' = "emitted"
         /\ PrintT(ToJson([k |-> "text", text |-> text,
                           tok |-> TsvTakes(Columns(TEof(tsv)), Len(TEof(tsv))), tsv |-> TEof(tsv),
                           cok |-> TRUE, csv |-> wrote]))
         /\ UNCHANGED <<text, tsv, csv, wrote, want>>
Write == MODE = "write" /\ (WBare \/ WQuoted \/ WOpen \/ WClose \/ WNext \/ WLine \/ WDone \/ WEmit)
WrittenBack == MODE = "write" /\ phase \in {"done", "emitted"} =>
                 LET s == CEof(csv) IN s.st # "X" /\ s.recs = wrote

(* ---- MODE count: a few lines each of one, two, three columns ---- *)
Count == /\ MODE = "count" /\ phase = "go" /\ phase' = "emitted"
         /\ \E a, b, c \in Counts :
              LET n == (1 :> a) @@ (2 :> b) @@ (3 :> c)
                  m == [j \in {k \in 1..3 : n[k] > 0} |-> n[j]]
              IN PrintT(ToJson([k |-> "count", n |-> <<a, b, c>>, tok |-> TsvTakes(m, a + b + c),
                                cok |-> ~Irregular(m, a + b + c)]))
         /\ UNCHANGED <<text, tsv, csv, wrote, want>>

Init == /\ text = <<>> /\ tsv = T0 /\ csv = C0 /\ wrote = <<<<>>>> /\ phase = "go"
        /\ want \in (IF MODE = "write" THEN 1 ELSE 0)..MaxLen
Next == Type \/ FinishText \/ Write \/ Count
Spec == Init /\ [][Next]_vars
=============================================================================
