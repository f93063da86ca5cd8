--------------------------- MODULE FamilyExport ---------------------------
(* Writes the members of the family as JSON, for replay into the library.    *)
EXTENDS Family, Json
VARIABLE i
Init == i \in Index
Next == i' = -1 /\ i # -1 /\ PrintT("CASE " \o ToJson([id |-> i + 1, sc |-> Member(i)]))
Spec == Init /\ [][Next]_i
=============================================================================
