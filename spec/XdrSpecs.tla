------------------------------ MODULE XdrSpecs ------------------------------
(***************************************************************************)
(* The specifications under consideration: one declaration list per line   *)
(* of the file XDR_SPECS.  (A definition and not a CONSTANT overridden in  *)
(* a configuration: TLC computes what depends on it only once.)            *)
(***************************************************************************)
EXTENDS Json, IOUtils

SPECS == ndJsonDeserialize(IOEnv.XDR_SPECS)
=============================================================================
