---------------------------- MODULE Dispatch ----------------------------
(* C01.  Histories of registrations and opens.  Opening is modelled one
   consultation at a time; TLC checks that whatever the order of registration
   and the choice among equals, the result is that of the first non-declining
   format in priority order and nobody is asked twice.  The histories are run
   against the real library, each in a fresh process, and the recorded
   consultations are validated by DispatchTrace.                             *)
EXTENDS DispatchBase

CONSTANTS MaxOps, Pris, Behaviours, Kinds, ALT

\* (a configuration file cannot hold negative numbers)
WidePris == {-2147483647, -65536, -300, -256, -1, 0, 1, 2, 5, 7, 10, 12, 15, 20, 128, 255, 256, 257, 300, 32768, 65537, 2147483647}

VARIABLES table, ops, rem, asked, result, kind, phase
vars == <<table, ops, rem, asked, result, kind, phase>>

Init == /\ table = {Bundled[k] : k \in 1..4} /\ ops = <<>> /\ rem = {} /\ asked = <<>>
        /\ result = "none" /\ kind = "none" /\ phase = "idle"

V(f) == IF f.v \in {"xls", "xlsx", "tsv", "csv"} THEN Verdict(f.v, kind) ELSE f.v

Register == /\ phase = "idle" /\ Len(ops) < MaxOps /\ (ALT => Len(ops) % 2 = 0)
            /\ \E p \in Pris, b \in Behaviours :
                 LET id == Cardinality(table) + 1 IN
                 /\ table' = table \cup {[id |-> id, pri |-> p, v |-> b]}
                 /\ ops' = Append(ops, [op |-> "register", pri |-> p, v |-> b])
            /\ UNCHANGED <<rem, asked, result, kind, phase>>
OpenF == /\ phase = "idle" /\ Len(ops) < MaxOps /\ (ALT => Len(ops) % 2 = 1)
         /\ \E k \in Kinds :
              /\ kind' = k /\ ops' = Append(ops, [op |-> "open", pri |-> 0, v |-> k])
         /\ rem' = table /\ asked' = <<>> /\ result' = "none" /\ phase' = "busy" /\ UNCHANGED table
Consult == /\ phase = "busy" /\ rem # {} /\ result = "none"
           /\ \E f \in Minimal(rem) :
                /\ asked' = Append(asked, f.id)
                /\ rem' = rem \ {f}
                /\ result' = IF V(f) \in {"decline", "any"} THEN "none" ELSE V(f)
           /\ UNCHANGED <<table, ops, kind, phase>>
Return == /\ phase = "busy" /\ (rem = {} \/ result # "none")
          /\ phase' = "idle" /\ result' = IF result = "none" THEN "unknown" ELSE result
          /\ UNCHANGED <<table, ops, rem, asked, kind>>

ById(i) == CHOOSE f \in table : f.id = i
Once == \A i, j \in 1..Len(asked) : i # j => asked[i] # asked[j]
Ascending == \A i, j \in 1..Len(asked) : i < j => ById(asked[i]).pri <= ById(asked[j]).pri
FirstWins ==
  (phase = "idle" /\ result # "none" /\ asked # <<>> /\ kind # "none" /\ rem \cup {ById(asked[i]) : i \in 1..Len(asked)} = table) =>
    LET hot == {f \in table : V(f) \notin {"decline", "any"}}
    IN IF hot = {} THEN result = "unknown" /\ Len(asked) = Cardinality(table)
       ELSE /\ ById(asked[Len(asked)]) \in Minimal(hot)
            /\ result = V(ById(asked[Len(asked)]))

Emit == /\ phase = "idle" /\ Len(ops) = MaxOps /\ phase' = "emitted"
        /\ PrintT(ToJson(ops)) /\ UNCHANGED <<table, ops, rem, asked, result, kind>>
Next == Register \/ OpenF \/ Consult \/ Return \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
