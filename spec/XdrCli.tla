------------------------------- MODULE XdrCli -------------------------------
(***************************************************************************)
(* The command line tool (C15): fastxdr FILE...                            *)
(*                                                                         *)
(* The files are taken in order.  One that can be read and that the        *)
(* library accepts adds exactly its generated code to standard output; the *)
(* first one that cannot, or is not, ends the run with a failure, and so   *)
(* does an empty argument list.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

\* Kinds of argument.  Only the first can be read and is accepted.
Kinds == {"valid", "rejected", "ungenerable", "missing", "directory", "nottext"}
MaxArgs == atoi(IOEnv.XDR_N)

\* Many files: all of a kind, and all valid but for the last
Long == UNION { UNION { { [ i \in 1..n |-> k ], [ i \in 1..n |-> IF i = n THEN k ELSE "valid" ] } : k \in Kinds } : n \in {17, 255, 256, 257, 512} }

VARIABLES args, at, out, exit
clivars == <<args, at, out, exit>>

Readable(k) == k \in {"valid", "rejected", "ungenerable"}
Accepted(k) == k = "valid"

CliInit ==
    /\ args \in UNION { [1..n -> Kinds] : n \in 0..MaxArgs } \cup Long
    /\ at = 1
    /\ out = <<>>
    /\ exit = "running"

Usage ==
    /\ exit = "running" /\ args = <<>>
    /\ exit' = "failure"
    /\ UNCHANGED <<args, at, out>>

File ==
    /\ exit = "running" /\ at <= Len(args)
    /\ IF Readable(args[at]) /\ Accepted(args[at])
       THEN out' = Append(out, at) /\ at' = at + 1 /\ UNCHANGED exit
       ELSE exit' = "failure" /\ UNCHANGED <<at, out>>
    /\ UNCHANGED args

End ==
    /\ exit = "running" /\ at > Len(args) /\ args # <<>>
    /\ exit' = "success"
    /\ UNCHANGED <<args, at, out>>

\* the run is printed for replay when it is over
Done ==
    /\ exit \in {"success", "failure"} /\ at # 0
    /\ PrintT("R|" \o ToJson([args |-> args, exit |-> exit, out |-> out]))
    /\ at' = 0
    /\ UNCHANGED <<args, out, exit>>

CliNext == Usage \/ File \/ End \/ Done
CliSpec == CliInit /\ [][CliNext]_clivars /\ WF_clivars(CliNext)

CliOk ==
    \* success means all of the files, in order, and nothing else
    /\ exit \in {"running", "success", "failure"}
    /\ exit = "success" => out = [ i \in DOMAIN args |-> i ] /\ args # <<>> /\ \A i \in DOMAIN args : args[i] = "valid"
    /\ exit = "failure" => args = <<>> \/ \E i \in DOMAIN args : args[i] # "valid"
    /\ Len(out) < Len(args) => exit # "success"

CliEnds == <>(exit # "running")
=============================================================================
