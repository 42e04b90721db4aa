---------------------------- MODULE DispatchBase ----------------------------
(* C01: what opening a file does to the table of registered formats.  A format
   is [id, pri, v]; v is its verdict on the file at hand.  Formats of equal
   priority may be consulted in either order.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Bundled == <<[id |-> 1, pri |-> 1, v |-> "xls"], [id |-> 2, pri |-> 5, v |-> "xlsx"],
             [id |-> 3, pri |-> 10, v |-> "tsv"], [id |-> 4, pri |-> 15, v |-> "csv"]>>

\* verdicts of the bundled formats on the kinds of files they are reached with
FileKinds == {"xls", "xlsx", "tsv", "csv", "both", "bad", "empty", "missing"}
Verdict(f, kind) ==
  CASE kind = "missing" -> "error"
    [] kind = "xls"  -> IF f = "xls" THEN "accept" ELSE "any"
    [] kind = "xlsx" -> IF f = "xls" THEN "decline" ELSE IF f = "xlsx" THEN "accept" ELSE "any"
    [] f \in {"xls", "xlsx"} -> "decline"
    [] f = "tsv" -> IF kind \in {"tsv", "both"} THEN "accept" ELSE "decline"
    [] f = "csv" -> IF kind = "bad" THEN "decline" ELSE "accept"

Minimal(rem) == {f \in rem : \A g \in rem : f.pri <= g.pri}
=============================================================================
