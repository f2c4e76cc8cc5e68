-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded calls of the generated decoders against XdrDecoder.     *)
(*                                                                         *)
(* Every element of CASES is one call: which specification and type, the   *)
(* input bytes and what the real code did (see XdrJudge), with the fields  *)
(* spec, ty and inp in addition.  Every case is a behaviour of its own.    *)
(***************************************************************************)
EXTENDS XdrJudge

CASES == TLCEval(ndJsonDeserialize(IOEnv.XDR_CASES))

\* src: case number, negative when it is decoded with the quirk
CaseOf(s) == CASES[IF s < 0 THEN -s ELSE s]
TraceSpecOf(s) == CaseOf(s).spec
TraceInpOf(s) == CaseOf(s).inp
TraceEofOf(s) == TRUE
TraceQuirkOf(s) == s < 0

TraceInit ==
    /\ src \in DOMAIN CASES \cup { -i : i \in { j \in DOMAIN CASES : HASBARE[CASES[j].spec] } }
    /\ MachineInit(C.ty)
    /\ JudgeInit

TraceSpec == TraceInit /\ [][JudgeNext]_vars
TraceOk == InBounds
=============================================================================
