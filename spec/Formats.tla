---------------------------- MODULE Formats ----------------------------
(* C16.  The registry of number formats of one workbook and the rendering of
   the built-in numeric formats.

   Registry machine: a history of registrations, applications and type
   queries.  custom maps an identifier to the definition in force; a
   registration never touches a built-in, the first one of an identifier
   stays, later ones are refused.  Every answer is predicted.

   Rendering: the value is built digit by digit and every numeric built-in is
   applied to it.                                                            *)
EXTENDS Builtins, Json

CONSTANTS MODE,       \* "hist" or "render"
          MaxOps, RegIds, QueryIds, Ips, Fps, MaxIp, MaxFp

VARIABLES custom, hist, val, want, phase
vars == <<custom, hist, val, want, phase>>

(* ---- registry ---- *)
\* definitions a file may register: code, rendering, type
Defs == [ gen  |-> [code |-> "General", r |-> K("general", 0), type |-> "any"],
          gen2 |-> [code |-> "GENERAL", r |-> K("general", 0), type |-> "any"],
          d1   |-> [code |-> "0.0", r |-> [N0 EXCEPT !.dec = 1], type |-> "float"],
          d3   |-> [code |-> "0.000", r |-> [N0 EXCEPT !.dec = 3], type |-> "float"],
          i    |-> [code |-> "0", r |-> N0, type |-> "integer"],
          p1   |-> [code |-> "0.0%", r |-> [Pct0 EXCEPT !.dec = 1], type |-> "float"] ]
IsGen(d) == Defs[d].r.kind = "general"

\* the probe: a value every definition shows differently
Probe == [neg |-> FALSE, ip |-> <<7>>, fp |-> <<1, 2, 5, 8>>]
\* (dates, fractions and text are rendered by other modules: "*" stands for
\* whatever an untouched registry shows)
ShowProbe(r) == IF r.kind = "general" THEN Plain(Probe)
                ELSE IF r.kind \in {"fix", "sci", "eng"} THEN Render(r, Probe) ELSE "*"

AddOK(id, d) == id \notin DOMAIN custom /\ (id \notin Ids \/ IsGen(d))
Add(id, d) ==
  /\ hist' = Append(hist, [op |-> "add", id |-> id, code |-> Defs[d].code, ok |-> AddOK(id, d), s |-> ""])
  /\ custom' = IF AddOK(id, d) THEN custom @@ (id :> d) ELSE custom

\* the definition in force
Rule(id) == IF id \in Ids THEN BuiltIn[id].r ELSE IF id \in DOMAIN custom THEN Defs[custom[id]].r ELSE K("general", 0)
Known(id) == id \in Ids \/ id \in DOMAIN custom
TypeOf(id) == IF id \in Ids THEN BuiltIn[id].type ELSE IF id \in DOMAIN custom THEN Defs[custom[id]].type ELSE "any"

Apply(id) ==
  /\ hist' = Append(hist, [op |-> "apply", id |-> id, code |-> "", ok |-> Known(id),
                           s |-> IF Known(id) THEN ShowProbe(Rule(id)) ELSE ""])
  /\ UNCHANGED custom
QType(id) ==
  /\ hist' = Append(hist, [op |-> "type", id |-> id, code |-> "", ok |-> TRUE,
                           s |-> IF TypeOf(id) = "any" THEN "float" ELSE TypeOf(id)])
  /\ UNCHANGED custom
\* the code reported for a built-in, whatever was registered
QCode(id) ==
  /\ id \in Ids
  /\ hist' = Append(hist, [op |-> "code", id |-> id, code |-> "", ok |-> TRUE, s |-> BuiltIn[id].code])
  /\ UNCHANGED custom

HistNext ==
  \/ /\ Len(hist) < MaxOps
     /\ \/ \E id \in RegIds, d \in DOMAIN Defs : Add(id, d)
        \/ \E id \in QueryIds : Apply(id) \/ QType(id) \/ QCode(id)
     /\ UNCHANGED <<val, want, phase>>
  \/ /\ Len(hist) = MaxOps /\ phase = "build" /\ phase' = "emitted"
     /\ PrintT(ToJson([k |-> "hist", ops |-> hist]))
     /\ UNCHANGED <<custom, hist, val, want>>

(* registry invariants *)
BuiltinsFixed == \A id \in Ids : Rule(id) = BuiltIn[id].r
FirstStays == [][\A id \in DOMAIN custom : id \in DOMAIN custom' /\ custom'[id] = custom[id]]_custom

(* ---- rendering ---- *)
Digits == 0..9
EmitValue(v) ==
  /\ phase = "build" /\ phase' = "emitted"
  /\ \A id \in NumIds \cup {0} :
       LET r == BuiltIn[id].r
           ok == IF id = 0 THEN Short(v) ELSE Claimed(r, v)
       IN ok => PrintT(ToJson([k |-> "val", id |-> id, code |-> BuiltIn[id].code, num |-> Plain(v),
                               s |-> IF id = 0 THEN Plain(v) ELSE Render(r, v)]))
  /\ UNCHANGED <<custom, hist, val, want>>

\* exhaustive: the product of the interesting digit strings
RenderExh == \E n \in BOOLEAN, ip \in Ips, fp \in Fps :
               LET v == [neg |-> n, ip |-> ip, fp |-> fp] IN ~(n /\ ZeroV(v)) /\ EmitValue(v)

\* random: digit by digit
Grow ==
  /\ phase = "build"
  /\ \/ /\ Len(val.ip) < want[1]
        /\ \E d \in Digits : val' = [val EXCEPT !.ip = IF @ = <<0>> THEN <<d>> ELSE Append(@, d)]
     \/ /\ Len(val.ip) >= want[1] \/ val.ip = <<0>>
        /\ Len(val.fp) < want[2]
        /\ \E d \in Digits : val' = [val EXCEPT !.fp = Append(@, d)]
  /\ UNCHANGED <<custom, hist, want, phase>>
RenderSim == \/ Grow
             \/ /\ Len(val.fp) >= want[2] /\ (Len(val.ip) >= want[1] \/ val.ip = <<0>>)
                /\ ~(val.neg /\ ZeroV(val))
                /\ EmitValue(val)

Init == /\ custom = <<>> /\ hist = <<>>
        /\ val \in {[neg |-> n, ip |-> <<0>>, fp |-> <<>>] : n \in IF MODE = "hist" THEN {FALSE} ELSE BOOLEAN}
        /\ want \in (0..MaxIp) \X (0..MaxFp)
        /\ phase = "build"

Next == CASE MODE = "hist" -> HistNext [] MODE = "exh" -> RenderExh [] MODE = "sim" -> RenderSim
Spec == Init /\ [][Next]_vars

=============================================================================
