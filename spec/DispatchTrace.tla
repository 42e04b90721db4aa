---------------------------- MODULE DispatchTrace ----------------------------
(* Validates recorded histories of the real library.  Consultations of the
   bundled formats are not observable one by one: they are implied by their
   position in the table and their verdict.  Deadlock on the first event the
   specification does not allow.                                             *)
EXTENDS DispatchBase, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, table, rem, kind, last
vars == <<i, table, rem, kind, last>>
Ev == Trace[i]
Init == i = 1 /\ table = {} /\ rem = {} /\ kind = "" /\ last = [id |-> 0, v |-> ""]

None == [id |-> 0, v |-> ""]
Reset == Ev.ev = "reset" /\ table' = {Bundled[k] : k \in 1..4} /\ rem' = {} /\ kind' = "" /\ last' = None
Register == /\ Ev.ev = "register"
            /\ table' = table \cup {[id |-> Ev.id, pri |-> Ev.pri, v |-> ""]}
            /\ UNCHANGED <<rem, kind, last>>
Open == /\ Ev.ev = "open" /\ rem' = table /\ kind' = Ev.kind /\ last' = None /\ UNCHANGED table
IsB(f) == f.id <= 4
Declines(f) == IsB(f) /\ Verdict(f.v, kind) \in {"decline", "any"}
\* nobody before f is left but bundled formats that decline
Due(f) == \A g \in rem : g.pri < f.pri => Declines(g)
Consult == /\ Ev.ev = "consult" /\ last.v \in {"", "decline"}
           /\ \E f \in rem : /\ f.id = Ev.id /\ Due(f)
                             /\ rem' = {g \in rem : g.id # f.id /\ ~(g.pri < f.pri)}
           /\ last' = [id |-> Ev.id, v |-> Ev.v]
           /\ UNCHANGED <<table, kind>>
Return == /\ Ev.ev = "return"
          /\ \/ /\ last.v = "accept" /\ Ev.r = "source" /\ Ev.id = last.id
             \/ /\ last.v = "error" /\ Ev.r = "error" /\ Ev.id = last.id
             \/ /\ last.v \in {"", "decline"}
                /\ \/ Ev.r = "unknown" /\ \A g \in rem : Declines(g)
                   \/ /\ Ev.r \in {"source", "error"}
                      /\ \E f \in rem : /\ IsB(f) /\ Due(f)
                                        /\ IF Ev.r = "source"
                                           THEN Verdict(f.v, kind) = "accept" /\ Ev.id = f.id
                                           ELSE Verdict(f.v, kind) = "error" /\ Ev.id = 0
          /\ rem' = {} /\ kind' = "" /\ last' = None /\ UNCHANGED table
Done == i > Len(Trace) /\ UNCHANGED vars
Next == Done \/ (i <= Len(Trace) /\ (Reset \/ Register \/ Open \/ Consult \/ Return) /\ i' = i + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
