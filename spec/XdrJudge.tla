------------------------------ MODULE XdrJudge ------------------------------
(***************************************************************************)
(* What the specification says about one recorded call of a generated      *)
(* decoder.  The machine decodes the same input while the recorded tokens  *)
(* are matched one by one against those it emits; when it stops, Judge     *)
(* compares the outcome and reports the properties the call breaks.        *)
(*                                                                         *)
(* The call is the record ObsOf(src):                                      *)
(*  [id,                                                                   *)
(*   o1, toks, ws   outcome of TryFrom<Bytes>, its value, its wire_size()  *)
(*   o2, left       outcome of TryFrom<&mut Bytes>, bytes left in buffer   *)
(*   eq             both outcomes and values are the same                  *)
(*   leftok         what is left is the tail of the input                  *)
(*   vs             same results with the view at other places of larger   *)
(*                  allocations                                            *)
(*   al, lim        bytes requested from the allocator, bound              *)
(* ]; an outcome is <<"ok">>, <<"err", variant, payload...>>, <<"panic">>,  *)
(* <<"crash">> or <<"hang">>.  Trace takes single calls, XdrSweep intervals *)
(* of calls.                                                               *)
(***************************************************************************)
EXTENDS XdrDecoder

CONSTANT ObsOf(_)

VARIABLES ti,    \* recorded tokens matched so far
          mv,    \* index of the first token that differs in value, 0: none
          md,    \* that token is (or should be) a discriminant
          mo     \* some opaque payload lies at another offset

C == ObsOf(src)

vars == <<src, stk, pos, st, err, ws, early, out, ti, mv, md, mo>>

DiscTags == {"bool", "enum", "arm", "some", "none"}

\* a recorded token has the same layout as an emitted one
SameValue(obs, exp) ==
    IF exp[1] = "opaque"
    THEN obs[1] = "opaque" /\ SubSeq(obs, 3, Len(obs)) = SubSeq(exp, 3, Len(exp))
    ELSE obs = exp
OtherOffset(obs, exp) ==
    exp[1] = "opaque" /\ Len(exp) > 2 /\ obs[1] = "opaque" /\ obs[2] # exp[2]

JudgeInit ==
    /\ ti = 0
    /\ mv = 0
    /\ md = FALSE
    /\ mo = FALSE

\* out' has at most one token
Match ==
    IF out' = <<>> THEN UNCHANGED <<ti, mv, md, mo>>
    ELSE /\ ti' = ti + 1
         /\ IF mv # 0 THEN UNCHANGED <<mv, md, mo>>
            ELSE IF ti + 1 > Len(C.toks) THEN
                /\ mv' = ti + 1 /\ md' = FALSE /\ UNCHANGED mo
            ELSE LET obs == C.toks[ti + 1]
                     exp == out'[1]
                 IN  /\ mv' = IF SameValue(obs, exp) THEN 0 ELSE ti + 1
                     /\ md' = (~SameValue(obs, exp) /\ (obs[1] \in DiscTags \/ exp[1] \in DiscTags))
                     /\ mo' = (mo \/ OtherOffset(obs, exp))

Ok(o) == o = <<"ok">>
IsErr(o) == o[1] = "err"
Lost(o) == o[1] \in {"panic", "crash", "hang"}
\* an outcome reports the error e (FromUtf8Error's payload is not recorded)
Reports(o, e) == IsErr(o) /\ Tail(o) = e

\* Nothing is demanded of a decode that the quirk lets run away.
Broken == IF err = <<"Runaway">> THEN {} ELSE
    LET acc == st = "ok"
        same == mv = 0 /\ ti = Len(C.toks)
        len == <<"InvalidLength">>
        fails(o) == { p \in {"C01", "C05", "C06"} :
            CASE p = "C01" -> acc /\ ~Ok(o)
              [] p = "C05" -> IF acc THEN Reports(o, len) ELSE err = len /\ ~Reports(o, len)
              [] p = "C06" -> IF acc THEN IsErr(o) /\ ~Reports(o, len)
                              ELSE err # len /\ ~Reports(o, err) /\ ~(early /\ Reports(o, len)) }
    IN  fails(C.o1) \cup fails(C.o2) \cup { p \in {"C01", "C02", "C03", "C04", "C06", "C08", "C09"} :
            CASE p = "C01" -> acc /\ Ok(C.o1) /\ ~same
              [] p = "C02" -> \/ acc /\ Ok(C.o1) /\ same /\ C.ws # ws
                              \* nor is it what the decoder consumed
                              \/ ~quirk /\ Ok(C.o1) /\ Ok(C.o2) /\ C.eq /\ C.ws # Len(inp) - C.left
              [] p = "C03" -> \/ ~C.eq
                              \/ ~C.vs
                              \/ Ok(C.o2) /\ ~C.leftok
                              \/ Ok(C.o2) /\ acc /\ C.left # Len(inp) - pos
              [] p = "C04" -> Lost(C.o1) \/ Lost(C.o2)
              [] p = "C06" -> acc /\ Ok(C.o1) /\ md
              [] p = "C08" -> acc /\ Ok(C.o1) /\ mo
              [] p = "C09" -> C.al > C.lim }

Step == st = "run" /\ MachineStep /\ Match /\ UNCHANGED src

Judge ==
    /\ st \in {"ok", "err"}
    /\ PrintT("V|" \o ToJson(<<C.id, quirk, Broken,
                 [st |-> st, err |-> err, pos |-> pos, ws |-> ws, tok |-> ti, mv |-> mv, early |-> early]>>))
    /\ st' = "judged"
    /\ UNCHANGED <<src, stk, pos, err, ws, early, out, ti, mv, md, mo>>

JudgeNext == Step \/ Judge

\* The machine stays inside the buffer.  (That it does not get stuck is what
\* the verdict on every case says.)
InBounds == pos >= 0 /\ pos <= Len(inp)
=============================================================================
