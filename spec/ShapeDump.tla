------------------------------ MODULE ShapeDump ------------------------------
(***************************************************************************)
(* Prints what XdrDecls derives about every specification of a file: the   *)
(* API its generated module must expose, which types are generic and the   *)
(* least encoded size of every type.                                       *)
(***************************************************************************)
EXTENDS XdrDecls

VARIABLE dumped
DumpInit == dumped \in DOMAIN SPECS
DumpNext == /\ dumped > 0
            /\ PrintT("S|" \o ToJson(<<dumped, HASBARE[dumped], Shapes(dumped)>>))
            /\ dumped' = -dumped
DumpSpec == DumpInit /\ [][DumpNext]_dumped
=============================================================================
