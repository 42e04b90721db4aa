---------------------------- MODULE Detect ----------------------------
(* C27.  Which bundled format a file of any kind, whole or damaged, is opened
   with.  A file is what it was made as, what happened to it since, and whether
   it holds a NUL byte; every format has a set of verdicts it may give on such a
   file, and the formats are asked in their order.  TLC follows every sequence
   of verdicts: whatever they are, a file that holds a NUL byte is not taken for
   delimited text, a whole workbook is opened with its own format and a whole
   file of no bundled format is unknown.  Every file is written out and opened.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Parts, MaxHarm

VARIABLES file, asked, result, phase
vars == <<file, asked, result, phase>>

Compound == {"xls", "doc"}                  \* doc: a compound file without a workbook
\* stored: an uncompressed workbook; odt, zip: archives of other things; docx: an
\* Office document that is no workbook; opc: a package without a main document
Archive  == {"xlsx", "stored", "odt", "zip", "docx", "opc"}
Workbooks == {"xls", "xlsx", "stored"}
Binary == Compound \cup Archive \cup {"utf16", "image"}
Text == {"tsv", "csv"}
Harms == {"cut", "zero", "ones", "lose", "nul", "behead", "junk", "lines"}

\* a binary file has NUL bytes all over (cases in which the damage happens to
\* remove all of them are set aside when the file is written)
Made(k) == [kind |-> k, harm |-> <<>>, nul |-> k \in Binary]
Do(f, h, p) == [f EXCEPT !.harm = Append(@, [h |-> h, p |-> p]),
                         !.nul = (f.nul \/ h \in {"zero", "nul"})]
Whole(f) == f.harm = <<>>
Cut(f) == f.harm # <<>> /\ \A i \in 1..Len(f.harm) : f.harm[i].h = "cut"
All == {"accept", "decline", "error"}

\* what a format may say
Says(fmt, f) ==
  CASE fmt = "xls" -> IF f.kind \notin Compound THEN {"decline"}
                      ELSE IF ~Whole(f) THEN All
                      ELSE IF f.kind = "xls" THEN {"accept"} ELSE {"decline"}
    [] fmt = "xlsx" -> IF f.kind \notin Archive THEN {"decline"}
                       ELSE IF Cut(f) THEN {"decline", "error"}
                       ELSE IF ~Whole(f) THEN All
                       ELSE IF f.kind \in Workbooks THEN {"accept"} ELSE {"decline"}
    [] OTHER -> IF f.nul THEN {"decline"}
                ELSE IF ~Whole(f) THEN All
                ELSE IF fmt = "tsv" THEN (IF f.kind = "tsv" THEN {"accept"} ELSE {"decline"})
                ELSE {"accept"}
Order == <<"xls", "xlsx", "tsv", "csv">>
RECURSIVE From(_, _)
From(k, f) == IF k > Len(Order) THEN {"unknown"}
              ELSE LET s == Says(Order[k], f) IN
                   (IF "accept" \in s THEN {Order[k]} ELSE {}) \cup (IF "error" \in s THEN {"error"} ELSE {})
                   \cup (IF "decline" \in s THEN From(k + 1, f) ELSE {})

Init == /\ file \in {Made(k) : k \in Binary \cup Text} /\ asked = 0 /\ result = "none" /\ phase = "make"
Harm == /\ phase = "make" /\ Len(file.harm) < MaxHarm
        /\ \E h \in Harms, p \in 0..Parts - 1 : file' = Do(file, h, p)
        /\ UNCHANGED <<asked, result, phase>>
Start == phase = "make" /\ phase' = "ask" /\ UNCHANGED <<file, asked, result>>
Ask == /\ phase = "ask" /\ result = "none" /\ asked < Len(Order)
       /\ \E v \in Says(Order[asked + 1], file) :
            result' = IF v = "accept" THEN Order[asked + 1] ELSE IF v = "error" THEN "error" ELSE "none"
       /\ asked' = asked + 1 /\ UNCHANGED <<file, phase>>
End == /\ phase = "ask" /\ (result # "none" \/ asked = Len(Order))
       /\ phase' = "done" /\ result' = IF result = "none" THEN "unknown" ELSE result
       /\ UNCHANGED <<file, asked>>
Emit == /\ phase = "done" /\ phase' = "emitted"
        /\ PrintT(ToJson([kind |-> file.kind, harm |-> file.harm, nul |-> file.nul, may |-> From(1, file)]))
        /\ UNCHANGED <<file, asked, result>>
Next == Harm \/ Start \/ Ask \/ End \/ Emit
Spec == Init /\ [][Next]_vars

NotText == phase = "done" /\ file.nul => result \notin Text
Own == phase = "done" /\ Whole(file) => result = (IF file.kind = "stored" THEN "xlsx" ELSE IF file.kind \in Workbooks \cup Text THEN file.kind ELSE "unknown")
Short == phase = "done" /\ Cut(file) /\ file.kind \in Archive => result \in {"unknown", "error"}
Covered == phase = "done" => result \in From(1, file)
=============================================================================
