----------------------------- MODULE XdrDecoder -----------------------------
(***************************************************************************)
(* The decoder of one value: a stack machine over the bytes of a buffer.   *)
(*                                                                         *)
(* The stack holds work items, the innermost (next) one last.  Each step   *)
(* reads at most one protocol unit (a word, a payload, a count, ...) and   *)
(* emits the tokens by which the value is observed: the sequence of tokens *)
(* emitted over a whole run is the value.  The machine is deterministic.   *)
(*                                                                         *)
(* Whoever composes the machine says where the specification and the input *)
(* come from (src): the trace checker (Trace) takes them from a recorded   *)
(* call, the generator (XdrGen) lets an environment choose the input while *)
(* the machine asks for it; the machine waits while the input may still    *)
(* grow (~eof).                                                            *)
(***************************************************************************)
EXTENDS XdrDecls

CONSTANTS
    SpecOf(_),   \* index into SPECS
    InpOf(_),    \* the buffer's bytes
    EofOf(_),    \* no more bytes will follow them
    QuirkOf(_)   \* model the known finding: wire_size() of a bare inline opaque
                 \* is 4 short, and counted arrays step by wire_size()

VARIABLES
    src,    \* where the above come from
    stk,    \* work items
    pos,    \* cursor: number of bytes consumed
    st,     \* "run", "ok", "err"
    err,    \* the error, <<>> unless st = "err"
    ws,     \* wire_size() of what has been decoded
    early,  \* InvalidLength is an admissible error too (see LackOfData)
    out     \* tokens emitted by the last step

mvars == <<stk, pos, st, err, ws, early, out>>

spec == SpecOf(src)
inp == InpOf(src)
eof == EofOf(src)
quirk == QuirkOf(src)

(***************************************************************************)
(* Work items                                                              *)
(*  item   decode the item x                                               *)
(*  fields the struct d, from its i-th field on                            *)
(*  elems  n more elements of type t; var: they are a counted array's;     *)
(*         s, w: cursor and ws at the start of the element being decoded   *)
(***************************************************************************)
WItem(x) == [o |-> "item", x |-> x]
WFields(d, i) == [o |-> "fields", d |-> d, i |-> i]
WElems(t, n, var, inside, s, w) ==
    [o |-> "elems", t |-> t, n |-> n, var |-> var, inside |-> inside, s |-> s, w |-> w]

RefType(nm) == [k |-> "ref", r |-> nm]
Plain(t) == Item(t, "none", NoBound, FALSE)

MachineInit(ty) ==
    /\ stk = <<WItem(Plain(RefType(ty)))>>
    /\ pos = 0
    /\ st = "run"
    /\ err = <<>>
    /\ ws = 0
    /\ early = FALSE
    /\ out = <<>>

Top == stk[Len(stk)]
Below == SubSeq(stk, 1, Len(stk) - 1)
Remaining == Len(inp) - pos
Running == st = "run" /\ stk # <<>>
TopItem == Running /\ Top.o = "item"
X == Top.x

\* The least number of bytes that must still follow for the pending work
MinFields(d, i) == SumSeq([ j \in 1..(Len(d.f) - i + 1) |->
                      LET f == d.f[i + j - 1] IN MinOf(spec, Item(f.t, f.a, f.b, f.o)) ])
MinWork(w) ==
    CASE w.o = "item" -> MinOf(spec, w.x)
      [] w.o = "fields" -> MinFields(DECL[spec][w.d], w.i)
      [] w.o = "elems" -> CapMul(w.n, MinOf(spec, Plain(w.t)))
MinStack(s) == FoldLeft(LAMBDA n, w : Cap(n + MinWork(w)), 0, s)

(***************************************************************************)
(* Outcomes of a step                                                      *)
(***************************************************************************)
Fail(e, lack) ==
    /\ st' = "err"
    /\ err' = e
    /\ early' = (early \/ lack)
    /\ out' = <<>>
    /\ UNCHANGED <<stk, pos, ws>>

FailLength == Fail(<<"InvalidLength">>, FALSE)

\* An input may be wrong twice: an undeclared value here, and too few bytes
\* for what must follow.  Reporting either is right.  pending: the work that
\* is left after the value at hand; n: the bytes the value itself takes.
LackOfData(pending, n) == MinStack(pending) > Remaining - n
FailValue(e, pending, n) == Fail(e, LackOfData(pending, n))

\* Consume n bytes, counted as m by wire_size(); go on with work
Advance(n, m, work, tokens) ==
    /\ pos' = pos + n
    /\ ws' = ws + m
    /\ stk' = work
    /\ out' = tokens
    /\ UNCHANGED <<st, err, early>>

\* n bytes are there; or they never will be.  While neither, the step waits.
Has(n) == Remaining >= n
Short(n) == eof /\ Remaining < n

Word(n) == Slice(inp, pos, n)

(***************************************************************************)
(* Primitives                                                              *)
(***************************************************************************)
IsPlain == TopItem /\ ~X.o /\ X.a = "none"

ReadPrim ==
    /\ IsPlain
    /\ X.t.k \in (Prims \ {"bool"})
    /\ LET n == PrimSize(X.t.k)
       IN  \/ Short(n) /\ FailLength
           \/ Has(n) /\ Advance(n, n, Below, << <<X.t.k>> \o Word(n) >>)

ReadBool ==
    /\ IsPlain
    /\ X.t.k = "bool"
    /\ \/ Short(4) /\ FailLength
       \/ /\ Has(4)
          /\ IF Word(4) \in {Zero, One}
             THEN Advance(4, 4, Below, << <<"bool", Word(4)[4]>> >>)
             ELSE FailValue(<<"InvalidBoolean">>, Below, 4)

(***************************************************************************)
(* Strings and opaque data                                                 *)
(***************************************************************************)
IsString == TopItem /\ ~X.o /\ X.t.k = "string"
IsCountedOpaque == TopItem /\ ~X.o /\ X.t.k = "opaque" /\ X.a # "fix"
IsFixedOpaque == TopItem /\ ~X.o /\ X.t.k = "opaque" /\ X.a = "fix"

\* A length word at the cursor, checked against the maximum and the data
LengthStep(Payload(_, _)) ==
    \/ Short(4) /\ FailLength
    \/ /\ Has(4)
       /\ IF ~LeqWord(Word(4), BoundOf(spec, X.b)) THEN FailLength
          ELSE LET n == NatOf(Word(4))
                   room == Remaining - 4
                   \* the payload and its padding; written so that it cannot overflow
                   fits == n <= room /\ Pad(n) <= room - n
               IN  \/ eof /\ ~fits /\ FailLength
                   \/ fits /\ Payload(n, Slice(inp, pos + 4, n))

StringTail(n, bytes) ==
    IF Utf8Valid(bytes)
    THEN Advance(4 + n + Pad(n), 4 + n + Pad(n), Below, << <<"str">> \o bytes >>)
    ELSE FailValue(<<"NonUtf8String">>, Below, 4 + n + Pad(n))

ReadString == IsString /\ LengthStep(StringTail)

\* Opaque tokens carry the offset of the payload in the buffer
OpaqueTail(n, bytes) ==
    Advance(4 + n + Pad(n),
            IF quirk /\ X.a = "none" THEN n + Pad(n) ELSE 4 + n + Pad(n),
            Below, << <<"opaque", pos + 4>> \o bytes >>)

ReadCountedOpaque == IsCountedOpaque /\ LengthStep(OpaqueTail)

ReadFixedOpaque ==
    /\ IsFixedOpaque
    /\ LET n == FixedLen(spec, X.b)
           fits == n <= Remaining /\ Pad(n) <= Remaining - n
       IN  \/ eof /\ ~fits /\ FailLength
           \/ fits /\ Advance(n + Pad(n), n + Pad(n), Below, << <<"opaque", pos>> \o Slice(inp, pos, n) >>)

(***************************************************************************)
(* Optional data                                                           *)
(***************************************************************************)
ReadMarker ==
    /\ TopItem
    /\ X.o
    /\ \/ Short(4) /\ FailLength
       \/ /\ Has(4)
          /\ CASE Word(4) = Zero -> Advance(4, 4, Below, << <<"none">> >>)
               [] Word(4) = One -> Advance(4, 4, Append(Below, WItem(Plain(X.t))), << <<"some">> >>)
               [] OTHER -> FailValue(<<"UnknownOptionVariant">> \o Word(4), Below, 4)

(***************************************************************************)
(* Arrays (of anything but opaque and string, which have their own forms)  *)
(***************************************************************************)
IsArray == TopItem /\ ~X.o /\ X.t.k \notin {"opaque", "string"}

StartFixedArray ==
    /\ IsArray
    /\ X.a = "fix"
    /\ LET n == FixedLen(spec, X.b)
       IN  Advance(0, 0, Append(Below, WElems(X.t, n, FALSE, FALSE, 0, 0)), << <<"fix", n>> >>)

ReadCount ==
    /\ IsArray
    /\ X.a = "var"
    /\ \/ Short(4) /\ FailLength
       \/ /\ Has(4)
          /\ IF ~LeqWord(Word(4), BoundOf(spec, X.b)) THEN FailLength
             ELSE LET n == NatOf(Word(4))
                      work == Append(Below, WElems(X.t, n, TRUE, FALSE, 0, 0))
                  IN  /\ pos' = pos + 4
                      /\ ws' = ws + 4
                      /\ stk' = work
                      /\ out' = << <<"arr", n>> >>
                      \* more elements than there can be bytes for: a decoder may say so now
                      /\ early' = (early \/ (eof /\ CapMul(n, MinOf(spec, Plain(X.t))) > Remaining - 4))
                      /\ UNCHANGED <<st, err>>

IsElems == Running /\ Top.o = "elems"

\* n elements are due, the next one from offset s on
ElemsFrom(t, n, var, s) ==
    IF n = 0 THEN Below
    ELSE Below \o << WElems(t, n - 1, var, TRUE, s, ws), WItem(Plain(t)) >>

FirstElem ==
    /\ IsElems
    /\ ~Top.inside
    /\ Advance(0, 0, ElemsFrom(Top.t, Top.n, Top.var, pos), <<>>)

RunawayLimit == 5000

\* A counted array's element was decoded from a copy of the cursor; the array
\* steps over it by the element's wire_size()
NextElem ==
    /\ IsElems
    /\ Top.inside
    /\ LET n == IF Top.var THEN ws - Top.w ELSE pos - Top.s
       IN  IF Len(inp) - Top.s < n THEN FailLength
           \* (with the quirk only) it never gets anywhere: gives up
           ELSE IF quirk /\ n = 0 /\ Top.n > RunawayLimit THEN Fail(<<"Runaway">>, FALSE)
           ELSE /\ pos' = Top.s + n
                /\ stk' = ElemsFrom(Top.t, Top.n, Top.var, Top.s + n)
                /\ out' = <<>>
                /\ UNCHANGED <<st, err, early, ws>>

(***************************************************************************)
(* Declared types                                                          *)
(***************************************************************************)
IsRef == IsPlain /\ X.t.k = "ref"
RefDecl == DECL[spec][X.t.r]

EnterStruct ==
    /\ IsRef
    /\ RefDecl.k = "struct"
    /\ Advance(0, 0, Append(Below, WFields(RefDecl.n, 1)), << <<"struct", RefDecl.n>> >>)

NextField ==
    /\ Running
    /\ Top.o = "fields"
    /\ LET d == DECL[spec][Top.d]
       IN  IF Top.i > Len(d.f) THEN Advance(0, 0, Below, <<>>)
           ELSE LET f == d.f[Top.i]
                    it == WItem(Item(f.t, f.a, f.b, f.o))
                IN  \* the last field leaves nothing to come back to
                    Advance(0, 0, IF Top.i = Len(d.f) THEN Append(Below, it)
                                  ELSE Below \o << WFields(Top.d, Top.i + 1), it >>, <<>>)

EnterTypedef ==
    /\ IsRef
    /\ RefDecl.k = "typedef"
    \* `typedef opaque x;` is the same as `typedef opaque x<>;`
    /\ Advance(0, 0, Append(Below, WItem(Item(RefDecl.t,
                 IF RefDecl.t.k = "opaque" /\ RefDecl.a = "none" THEN "var" ELSE RefDecl.a,
                 RefDecl.b, FALSE))),
               << <<"newtype", RefDecl.n>> >>)

EnterEnum ==
    /\ IsRef
    /\ RefDecl.k = "enum"
    /\ \/ Short(4) /\ FailLength
       \/ /\ Has(4)
          /\ LET hit == EnumMember(RefDecl, Word(4))
             IN  IF hit = {} THEN FailValue(<<"UnknownVariant">> \o Word(4), Below, 4)
                 ELSE Advance(4, 4, Below, << <<"enum", RefDecl.n, RefDecl.m[CHOOSE i \in hit : TRUE].n>> >>)

EnterUnion ==
    /\ IsRef
    /\ RefDecl.k = "union"
    /\ LET u == RefDecl
           n == DiscSize(spec, u)
           disc == Word(n)
           sel == SelectArm(spec, u, disc)
           low == SubSeq(disc, n - 3, n)          \* errors report the low 32 bits
       IN  \/ Short(n) /\ FailLength
           \/ /\ Has(n)
              /\ IF SwitchIsBool(spec, u) /\ disc \notin {Zero, One}
                 THEN FailValue(<<"InvalidBoolean">>, Below, n)
                 ELSE IF SwitchIsEnum(spec, u) /\ EnumMember(DECL[spec][Resolve(spec, u.st).r], disc) = {}
                 THEN FailValue(<<"UnknownVariant">> \o low, Below, n)
                 ELSE IF sel.arm = 0
                 THEN FailValue(<<"UnknownVariant">> \o low, Below, n)
                 ELSE LET arm == u.arms[sel.arm]
                      IN  Advance(n, n,
                                  IF arm.void THEN Below ELSE Append(Below, WItem(Plain(arm.t))),
                                  << <<"arm", u.n, sel.v>> >>)

Finish ==
    /\ st = "run"
    /\ stk = <<>>
    /\ st' = "ok"
    /\ out' = <<>>
    /\ UNCHANGED <<stk, pos, err, ws, early>>

MachineStep ==
    \/ ReadPrim \/ ReadBool \/ ReadString \/ ReadCountedOpaque \/ ReadFixedOpaque
    \/ ReadMarker \/ StartFixedArray \/ ReadCount \/ FirstElem \/ NextElem
    \/ EnterStruct \/ NextField \/ EnterTypedef \/ EnterEnum \/ EnterUnion
    \/ Finish
=============================================================================
