----------------------------- MODULE XdrGenerics -----------------------------
(***************************************************************************)
(* Which declarations are generic (C13): those from which opaque data can  *)
(* be reached.                                                             *)
(*                                                                         *)
(* A dependency graph has nodes 1..k (structs, unions, typedefs); opq is   *)
(* the set of those that mention opaque directly and to[i] the nodes that  *)
(* i mentions, whatever the form of the mention.                           *)
(*                                                                         *)
(* Generic(g) is the definition, by paths.  The marking machine is how one *)
(* gets there: mark any declaration that mentions opaque or a marked one,  *)
(* in any order, until there is none.  The machine is checked against the  *)
(* definition; the expected sets printed for replay come from the          *)
(* definition.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

K == atoi(IOEnv.XDR_K)
Nodes == 1..K

Bit(m, i) == (m \div (2^(i - 1))) % 2 = 1
SetOf == TLCEval([ m \in 0..(2^K - 1) |-> { i \in Nodes : Bit(m, i) } ])
MaskOf(S) == FoldLeft(LAMBDA a, i : IF i \in S THEN a + 2^(i - 1) ELSE a, 0, [ i \in Nodes |-> i ])

(***************************************************************************)
(* The definition                                                          *)
(***************************************************************************)
\* paths of k mentions reach whatever longer ones do
ReachStep(to, S) == S \cup UNION { to[i] : i \in S }
From(to, i) == FoldLeft(LAMBDA S, j : ReachStep(to, S), {i}, [ j \in DOMAIN to |-> j ])
Generic(opq, to) == { i \in DOMAIN to : From(to, i) \cap opq # {} }

\* the same, from the other end
BackStep(to, S) == S \cup { i \in DOMAIN to : to[i] \cap S # {} }
GenericBack(opq, to) == FoldLeft(LAMBDA S, j : BackStep(to, S), opq, [ j \in DOMAIN to |-> j ])

(***************************************************************************)
(* The marking machine, over all graphs of K nodes                         *)
(***************************************************************************)
VARIABLES opq, to, marked
gvars == <<opq, to, marked>>

GenericsInit ==
    /\ opq \in SUBSET Nodes
    /\ to \in [Nodes -> SUBSET Nodes]
    /\ marked = {}

Markable == { i \in Nodes \ marked : i \in opq \/ to[i] \cap marked # {} }
Mark == \E i \in Markable : marked' = marked \cup {i} /\ UNCHANGED <<opq, to>>
GenericsSpec == GenericsInit /\ [][Mark]_gvars

MarkedReach == marked \subseteq Generic(opq, to)
DoneIsAll == Markable = {} => marked = Generic(opq, to) /\ marked = GenericBack(opq, to)

=============================================================================
