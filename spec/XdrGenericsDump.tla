--------------------------- MODULE XdrGenericsDump ---------------------------
(***************************************************************************)
(* Prints the generic sets of graphs, for replay into Ast::generics().     *)
(* XDR_GRAPHS = "": all graphs of K nodes (a line per choice of opq and of *)
(* the mentions of all nodes but the last; the line lists the generic sets *)
(* for every choice of the last).  Otherwise the graphs of that file.      *)
(***************************************************************************)
EXTENDS XdrGenerics

ALL == IOEnv.XDR_GRAPHS = ""
GRAPHS == IF ALL THEN <<>> ELSE TLCEval(ndJsonDeserialize(IOEnv.XDR_GRAPHS))
M == 2^K

VARIABLE pre
\* pre = opq + M * (to[1] + M * (to[2] + ...)), without the last node
DumpInit ==
    /\ opq = {} /\ to = <<>> /\ marked = {}
    /\ pre \in IF ALL THEN 0..(M^K - 1) ELSE DOMAIN GRAPHS

Digit(n, j) == (n \div (M^j)) % M
Rows(n, last) == [ i \in Nodes |-> IF i = K THEN SetOf[last] ELSE SetOf[Digit(n, i)] ]

AllLine == <<pre, [ l \in 1..M |-> MaskOf(GenericBack(SetOf[Digit(pre, 0)], Rows(pre, l - 1))) ]>>

FileLine ==
    LET g == GRAPHS[pre]
        t == [ i \in DOMAIN g.to |-> ToSet(g.to[i]) ]
        a == Generic(ToSet(g.opq), t)
    IN  IF a # GenericBack(ToSet(g.opq), t) THEN Assert(FALSE, "two definitions") ELSE <<pre, a>>

Dump ==
    /\ pre >= 0
    /\ PrintT("G|" \o ToJson(IF ALL THEN AllLine ELSE FileLine))
    /\ pre' = -1
    /\ UNCHANGED gvars
DumpSpec == DumpInit /\ [][Dump]_<<gvars, pre>>
=============================================================================
