------------------------------- MODULE XdrGen -------------------------------
(***************************************************************************)
(* The decoder machine together with an environment that supplies its      *)
(* input lazily: whenever the machine waits, the environment appends one   *)
(* of the few byte strings that matter at this point (each declared        *)
(* discriminant, an undeclared one, counts at and around the maximum, ...) *)
(* or ends the input there, possibly in the middle of the unit that was    *)
(* asked for.  TLC explores all of it, up to LIMIT bytes of input.         *)
(*                                                                         *)
(* Two uses.  The invariants below are what the properties C01, C02, C03,  *)
(* C05 say about the machine itself.  And every behaviour that stops is    *)
(* printed: its input is a test of the real decoders (whose calls are then *)
(* judged like any others, see Trace).                                     *)
(***************************************************************************)
EXTENDS XdrDecoder

LIMIT == CHOOSE n \in 0..400 : ToString(n) = IOEnv.XDR_LIMIT
\* all choices up to here, fewer later
WIDE == CHOOSE n \in 0..400 : ToString(n) = IOEnv.XDR_WIDE

VARIABLES toks      \* tokens emitted so far
gvars == <<src, stk, pos, st, err, ws, early, out, toks>>

\* src is [spec, ty, inp, eof]
GenSpecOf(s) == s.spec
GenInpOf(s) == s.inp
GenEofOf(s) == s.eof
GenQuirkOf(s) == FALSE

GenInit ==
    /\ \E e \in SpecIds : \E ty \in TypeDecls(e) :
          /\ src = [spec |-> e, ty |-> ty, inp |-> <<>>, eof |-> FALSE]
          /\ MachineInit(ty)
    /\ toks = <<>>

Zeros(n) == [ i \in 1..n |-> 0 ]
Filler(from, n) == [ i \in 1..n |-> ((from + i) * 37 + 11) % 251 ]
Letters(from, n) == [ i \in 1..n |-> 97 + ((from + i) % 26) ]
Succ(w) == IF NatOf(w) = HUGE THEN w ELSE WordOf(NatOf(w) + 1)
Clear(b) == Len(inp) + b <= LIMIT
Early == Len(inp) < WIDE

(***************************************************************************)
(* What may come next                                                      *)
(***************************************************************************)
Undeclared(words) ==      \* a neighbour of a declared word that is none itself
    { w \in { Succ(x) : x \in words } : w \notin words } \cup ({ MaxWord, <<1, 0, 0, 0>> } \ words)

Small(b, n) == { w \in { WordOf(i) : i \in n } : LeqWord(w, b) }
Lengths(b) ==
    { MaxWord, <<128, 0, 0, 0>>, Succ(b) }
    \cup Small(b, IF Early THEN {0, 1, 3, 4} ELSE {2})
    \cup (IF NatOf(b) <= 16 THEN {b} ELSE {})
Counts(b) ==
    { MaxWord, Succ(b) }
    \cup Small(b, IF Early THEN {0, 1, 2} ELSE {1})
    \cup (IF NatOf(b) <= 4 THEN {b} ELSE {})

\* the discriminants of the union u: declared, and not
Discs(u) == LET all == { LabelDisc(spec, u, u.arms[p[1]].l[p[2]]) :
                            p \in { q \in ArmLabels(u) : u.arms[q[1]].l[q[2]].k # "default" } }
                few == IF Early \/ all = {} THEN all
                       ELSE { CHOOSE w \in all : \A v \in all : LeqWord(w, v) }
                n == DiscSize(spec, u)
            IN  few \cup (IF n = 8
                          THEN { Zero \o <<0, 0, 1, 200>>, MaxWord \o MaxWord } \cup { One \o SubSeq(w, 5, 8) : w \in few }
                          ELSE IF SwitchIsEnum(spec, u)
                          THEN LET ms == DECL[spec][Resolve(spec, u.st).r].m
                                   ws_ == { ms[i].w : i \in DOMAIN ms }
                               IN  (IF Early THEN ws_ ELSE {}) \cup Undeclared(ws_)
                          ELSE Undeclared(all))

\* the length word is there, its payload is not
HasLength == (IsString \/ IsCountedOpaque) /\ Remaining >= 4

\* [b: byte strings to append; n: how many bytes the machine waits for]
Wanted ==
    IF ~TopItem THEN [b |-> {}, n |-> 0]
    ELSE IF X.o THEN [b |-> { Zero, One, <<0, 0, 0, 2>>, <<0, 0, 1, 0>>, <<1, 0, 0, 1>> }, n |-> 4]
    ELSE IF HasLength THEN
        LET n == NatOf(Word(4))
            all == n + Pad(n)
        IN  IF ~LeqWord(Word(4), BoundOf(spec, X.b)) THEN [b |-> {}, n |-> 0]
            ELSE IF n > 16 THEN [b |-> {}, n |-> 9]
            ELSE [b |-> IF IsString
                        THEN { Letters(pos, n) \o Zeros(Pad(n)) }
                             \cup (IF n = 0 THEN {} ELSE { Letters(pos, n - 1) \o <<255>> \o Zeros(Pad(n)) })
                             \cup (IF n < 2 THEN {} ELSE { Letters(pos, n - 2) \o <<195, 169>> \o Zeros(Pad(n)) })
                        ELSE { Filler(pos, n) \o Zeros(Pad(n)) },
                  n |-> all]
    ELSE IF IsString \/ IsCountedOpaque THEN [b |-> Lengths(BoundOf(spec, X.b)), n |-> 4]
    ELSE IF IsFixedOpaque THEN
        LET n == FixedLen(spec, X.b) IN [b |-> { Filler(pos, n) \o Zeros(Pad(n)) }, n |-> n + Pad(n)]
    ELSE IF X.a = "var" THEN [b |-> Counts(BoundOf(spec, X.b)), n |-> 4]
    ELSE IF X.a = "fix" THEN [b |-> {}, n |-> 0]
    ELSE IF X.t.k = "bool" THEN [b |-> { Zero, One, <<0, 0, 0, 2>>, <<1, 0, 0, 0>>, <<0, 0, 1, 1>> }, n |-> 4]
    ELSE IF X.t.k \in Prims THEN
        LET n == PrimSize(X.t.k)
        IN  [b |-> { Filler(pos, n) } \cup (IF ~Early THEN {} ELSE { <<127, 241, 0, 1>> \o Zeros(n - 4), <<128>> \o Zeros(n - 1) }), n |-> n]
    ELSE CASE RefDecl.k = "enum" ->
                LET ms == { RefDecl.m[i].w : i \in DOMAIN RefDecl.m }
                IN  [b |-> (IF Early THEN ms ELSE { CHOOSE w \in ms : \A v \in ms : LeqWord(w, v) }) \cup Undeclared(ms), n |-> 4]
           [] RefDecl.k = "union" -> [b |-> Discs(RefDecl), n |-> DiscSize(spec, RefDecl)]
           [] OTHER -> [b |-> {}, n |-> 0]

Have == IF HasLength THEN Remaining - 4 ELSE Remaining

\* the end may come before the unit, in it, and just before its last byte
Cuts(n) == { k \in {0, 1, 2, 3, n - 1, n - 2, n - 3, n - 4} : 0 <= k /\ k < n }

Supply ==
    /\ st = "run"
    /\ ~eof
    /\ Wanted.n > Have
    /\ \/ \E b \in Wanted.b : Clear(Len(b)) /\ src' = [src EXCEPT !.inp = @ \o b]
       \/ \E k \in Cuts(Wanted.n) : src' = [src EXCEPT !.inp = @ \o Filler(pos, k), !.eof = TRUE]
    /\ UNCHANGED <<stk, pos, st, err, ws, early, out, toks>>

GenStep ==
    /\ MachineStep
    /\ toks' = toks \o out'
    /\ UNCHANGED src

Emit ==
    /\ st \in {"ok", "err"}
    /\ PrintT("G|" \o ToJson(<<spec, src.ty, inp, st, err, pos, ws>>))
    /\ st' = "done"
    /\ UNCHANGED <<src, stk, pos, err, ws, early, out, toks>>

GenNext == Supply \/ GenStep \/ Emit
GenSpec == GenInit /\ [][GenNext]_gvars

(***************************************************************************)
(* Encoding, written independently of the machine: the value is its token  *)
(* sequence.  <<bytes, tokens used>>; -1 stands for a byte of a            *)
(* discriminant that selected the default arm (the value does not say it). *)
(***************************************************************************)
RECURSIVE Enc(_, _, _, _)
Enc(e, x, T, i) ==
    LET tok == T[i]
        Then(a, b) == <<a[1] \o b[1], b[2]>>
        Elems(n, t) == FoldLeft(LAMBDA a, j : Then(a, Enc(e, Plain(t), T, a[2])), <<<<>>, i + 1>>, Upto(n))
    IN  CASE x.o -> IF tok = <<"none">> THEN <<Zero, i + 1>>
                    ELSE Then(<<One, i + 1>>, Enc(e, Plain(x.t), T, i + 1))
          [] ~x.o /\ x.t.k = "string" ->
                LET s == Tail(tok) IN <<WordOf(Len(s)) \o s \o Zeros(Pad(Len(s))), i + 1>>
          [] ~x.o /\ x.t.k = "opaque" ->
                LET s == SubSeq(tok, 3, Len(tok))
                IN  <<(IF x.a = "fix" THEN <<>> ELSE WordOf(Len(s))) \o s \o Zeros(Pad(Len(s))), i + 1>>
          [] ~x.o /\ x.a = "fix" /\ x.t.k \notin {"string", "opaque"} -> Elems(tok[2], x.t)
          [] ~x.o /\ x.a = "var" /\ x.t.k \notin {"string", "opaque"} ->
                LET r == Elems(tok[2], x.t) IN <<WordOf(tok[2]) \o r[1], r[2]>>
          [] ~x.o /\ x.a = "none" /\ x.t.k = "bool" -> <<<<0, 0, 0, tok[2]>>, i + 1>>
          [] ~x.o /\ x.a = "none" /\ x.t.k \in (Prims \ {"bool"}) -> <<Tail(tok), i + 1>>
          [] OTHER ->
                LET d == DECL[e][x.t.r]
                IN  CASE d.k = "typedef" -> Enc(e, Item(d.t, d.a, d.b, FALSE), T, i + 1)
                      [] d.k = "struct" ->
                            FoldLeft(LAMBDA a, j : Then(a, Enc(e, Item(d.f[j].t, d.f[j].a, d.f[j].b, d.f[j].o), T, a[2])),
                                     <<<<>>, i + 1>>, Upto(Len(d.f)))
                      [] d.k = "enum" -> <<d.m[CHOOSE j \in DOMAIN d.m : d.m[j].n = tok[3]].w, i + 1>>
                      [] OTHER ->
                            IF tok[3] = "default" THEN
                                LET a == d.arms[CHOOSE j \in DefaultArm(d) : TRUE]
                                    w == [ j \in 1..DiscSize(e, d) |-> -1 ]
                                IN  IF a.void THEN <<w, i + 1>> ELSE Then(<<w, i + 1>>, Enc(e, Plain(a.t), T, i + 1))
                            ELSE LET p == CHOOSE p \in ArmLabels(d) :
                                             d.arms[p[1]].l[p[2]].k # "default" /\ VariantName(d.arms[p[1]].l[p[2]]) = tok[3]
                                     a == d.arms[p[1]]
                                     w == LabelDisc(e, d, a.l[p[2]])
                                 IN  IF a.void THEN <<w, i + 1>> ELSE Then(<<w, i + 1>>, Enc(e, Plain(a.t), T, i + 1))

Accepted == st = "ok"

\* C01 (of the machine): what was accepted is the encoding of the value
DecodesWhatIsEncoded ==
    Accepted =>
        LET r == Enc(spec, Plain(RefType(src.ty)), toks, 1)
        IN  /\ r[2] = Len(toks) + 1
            /\ Len(r[1]) = pos
            /\ \A i \in 1..pos : r[1][i] = -1 \/ r[1][i] = inp[i]
\* C02
SizeIsConsumed == Accepted => ws = pos
\* C03, C05: accepted as soon as, and not before, its last byte is there
Exact == Accepted => pos = Len(inp) /\ ~eof
\* C04: the machine ends, one way or another
Inside == pos >= 0 /\ pos <= Len(inp)
NotStuck == st = "run" => (Wanted.n > Have /\ ~eof) \/ ENABLED MachineStep
\* every value takes at least what MINSIZE says (used to count elements early)
AtLeast == Accepted => pos >= MINSIZE[spec][src.ty]
=============================================================================
