------------------------------ MODULE XdrDecls ------------------------------
(***************************************************************************)
(* What a specification declares, and what follows from the declarations   *)
(* alone: constant values, typedef chains, the value every case label      *)
(* stands for and the arm it selects, which types are generic (reach       *)
(* opaque data), the least number of bytes a value can occupy and the      *)
(* names the generated Rust API exposes.                                   *)
(*                                                                         *)
(* SPECS is a sequence of specifications; a specification is a sequence of *)
(* declarations, records tagged by k:                                      *)
(*   [k|->"const",   n, w]            w: the 4 bytes of the value          *)
(*   [k|->"enum",    n, m]            m: <<[n, w]>>                        *)
(*   [k|->"struct",  n, f]            f: <<[n, t, a, b, o]>>               *)
(*   [k|->"union",   n, sn, st, arms] arms: <<[l, void, n, t]>>            *)
(*   [k|->"typedef", n, t, a, b]                                           *)
(* A type t is [k, r]: a primitive, "string", "opaque", or k = "ref" to the *)
(* declaration called r.  a is "none", "fix" or "var"; the bound b is      *)
(* [k |-> "none"|"lit"|"const", w, r].  A label is [k |-> "num"|"id"|      *)
(* "default", s, w].                                                       *)
(***************************************************************************)
EXTENDS XdrBytes, XdrSpecs, FiniteSets, Functions

SpecIds == DOMAIN SPECS

\* name -> declaration, per specification
DECL == LET S == SPECS
        IN  TLCEval([ e \in DOMAIN S |->
                TLCEval([ nm \in { S[e][i].n : i \in DOMAIN S[e] } |->
                    S[e][CHOOSE i \in DOMAIN S[e] : S[e][i].n = nm] ]) ])

Prims32 == {"u32", "i32", "f32", "bool"}
Prims64 == {"u64", "i64", "f64"}
Prims == Prims32 \cup Prims64
PrimSize(k) == IF k \in Prims64 THEN 8 ELSE 4

\* `typedef unsigned int uint32_t;` names a primitive: nothing is generated
PrimSpelling(n) ==
    CASE n \in {"uint32_t", "u32"} -> "u32"
      [] n \in {"int32_t", "i32"} -> "i32"
      [] n \in {"uint64_t", "u64"} -> "u64"
      [] n \in {"int64_t", "i64"} -> "i64"
      [] OTHER -> ""
IsSelfTypedef(d) == d.k = "typedef" /\ d.t.k = PrimSpelling(d.n)

TypeDecls(e) == { nm \in DOMAIN DECL[e] :
                    DECL[e][nm].k # "const" /\ ~IsSelfTypedef(DECL[e][nm]) }

(***************************************************************************)
(* Constants, bounds, typedef chains                                       *)
(***************************************************************************)
BoundOf(e, b) ==
    CASE b.k = "none" -> MaxWord
      [] b.k = "lit" -> b.w
      [] b.k = "const" -> DECL[e][b.r].w

FixedLen(e, b) == NatOf(BoundOf(e, b))

\* (Folds and not RECURSIVE operators here and below: TLC evaluates a constant
\* definition once only if no RECURSIVE operator is involved.)
Upto(n) == [ i \in 1..n |-> i ]
\* F n times, or until nothing changes any more
Iterate(F(_), x, n) ==
    FoldLeft(LAMBDA y, i : IF y[2] THEN y ELSE LET z == TLCEval(F(y[1])) IN <<z, z = y[1]>>, <<x, FALSE>>, Upto(n))[1]

ResolveStep(e, t) ==
    IF t.k = "ref" /\ DECL[e][t.r].k = "typedef" /\ DECL[e][t.r].a = "none"
    THEN DECL[e][t.r].t ELSE t
Resolve(e, t) == Iterate(LAMBDA x : ResolveStep(e, x), t, Len(SPECS[e]))

(***************************************************************************)
(* Unions: what each label means and which arm a discriminant selects      *)
(***************************************************************************)
DiscSize(e, u) == IF Resolve(e, u.st).k \in {"u64", "i64"} THEN 8 ELSE 4

\* the words of all enums' members, by name
MEMBERS == TLCEval([ e \in SpecIds |->
    LET ms == UNION { ToSet(DECL[e][nm].m) : nm \in { x \in DOMAIN DECL[e] : DECL[e][x].k = "enum" } }
    IN  TLCEval([ s \in { m.n : m \in ms } |-> (CHOOSE m \in ms : m.n = s).w ]) ])
MemberWord(e, s) == MEMBERS[e][s]

LabelWord(e, l) ==
    CASE l.k = "num" -> l.w
      [] l.s = "TRUE" -> One
      [] l.s = "FALSE" -> Zero
      [] l.s \in DOMAIN DECL[e] -> DECL[e][l.s].w
      [] OTHER -> MemberWord(e, l.s)

\* (numeric labels that only 8 bytes can hold have 8)
LabelDisc(e, u, l) ==
    LET w == LabelWord(e, l) IN IF DiscSize(e, u) = 8 /\ Len(w) = 4 THEN Wide(w) ELSE w

\* The Rust name of the variant generated for a label
VariantName(l) == IF l.k = "num" THEN "v_" \o l.s ELSE l.s

\* All (arm index, label) pairs
ArmLabels(u) == UNION { { <<i, j>> : j \in DOMAIN u.arms[i].l } : i \in DOMAIN u.arms }

DefaultArm(u) == { i \in DOMAIN u.arms :
                     \E j \in DOMAIN u.arms[i].l : u.arms[i].l[j].k = "default" }

\* per union: the values of its labels, and <<arm, label>> of each
LABELS == TLCEval([ e \in SpecIds |->
    TLCEval([ nm \in { x \in DOMAIN DECL[e] : DECL[e][x].k = "union" } |->
        LET u == DECL[e][nm]
            ls == { <<LabelDisc(e, u, u.arms[p[1]].l[p[2]]), p>> : p \in { q \in ArmLabels(u) : u.arms[q[1]].l[q[2]].k # "default" } }
        IN  TLCEval([ w \in { x[1] : x \in ls } |-> (CHOOSE x \in ls : x[1] = w)[2] ]) ]) ])

\* [arm |-> index or 0, v |-> variant name]; arm 0: no arm, the value is rejected
SelectArm(e, u, disc) ==
    LET known == LABELS[e][u.n]
    IN IF disc \in DOMAIN known THEN
            LET p == known[disc]
                a == u.arms[p[1]]
            IN  \* a label sharing the arm of a default that carries data is
                \* decoded to the `default` variant
                IF p[1] \in DefaultArm(u) /\ ~a.void
                THEN [arm |-> p[1], v |-> "default"]
                ELSE [arm |-> p[1], v |-> VariantName(a.l[p[2]])]
       ELSE IF DefaultArm(u) # {} THEN [arm |-> CHOOSE i \in DefaultArm(u) : TRUE, v |-> "default"]
       ELSE [arm |-> 0, v |-> ""]

\* What the union's discriminant type itself admits
SwitchIsEnum(e, u) == Resolve(e, u.st).k = "ref"
SwitchIsBool(e, u) == Resolve(e, u.st).k = "bool"

EnumMember(d, w) == { i \in DOMAIN d.m : d.m[i].w = w }

(***************************************************************************)
(* Every type a declaration mentions, as [t, a, b, o] items                *)
(***************************************************************************)
NoBound == [k |-> "none", w |-> <<>>, r |-> ""]
Item(t, a, b, o) == [t |-> t, a |-> a, b |-> b, o |-> o]

ItemsOf(d) ==
    CASE d.k = "struct" -> { Item(f.t, f.a, f.b, f.o) : f \in ToSet(d.f) }
      [] d.k = "union" -> { Item(a.t, "none", NoBound, FALSE) : a \in { x \in ToSet(d.arms) : ~x.void } }
      [] d.k = "typedef" -> { Item(d.t, d.a, d.b, FALSE) }
      [] OTHER -> {}

(***************************************************************************)
(* Generic types: opaque data is reachable.  (XdrGenerics proves that the  *)
(* implementation's iterate-until-stable marking computes this.)           *)
(***************************************************************************)
DirectlyOpaque(d) == \E x \in ItemsOf(d) : x.t.k = "opaque"
Mentions(d) == { x.t.r : x \in { y \in ItemsOf(d) : y.t.k = "ref" } }

GrowGeneric(e, S) ==
    TLCEval(S \cup { nm \in DOMAIN DECL[e] : Mentions(DECL[e][nm]) \cap S # {} })

GENERIC == TLCEval([ e \in SpecIds |->
    TLCEval(Iterate(LAMBDA S : GrowGeneric(e, S),
                    { nm \in DOMAIN DECL[e] : DirectlyOpaque(DECL[e][nm]) },
                    Len(SPECS[e]))) ])

IsGeneric(e, nm) == nm \in GENERIC[e]

(***************************************************************************)
(* A lower bound on the encoded size of any value of a type.  Iterated to  *)
(* a fixpoint from below; recursion only passes through optional links and *)
(* counted arrays, which cost 4 whatever is behind them.  Capped, so that  *)
(* products stay small.                                                    *)
(***************************************************************************)
SizeCap == 30000
Cap(n) == IF n > SizeCap THEN SizeCap ELSE n
CapMul(a, b) == Cap(Cap(a) * Cap(b))

SumSeq(f) == FoldLeft(LAMBDA x, y : Cap(x + y), 0, f)

MinItem(e, T, x) ==
    LET one == CASE x.t.k \in Prims -> PrimSize(x.t.k)
                 [] x.t.k = "string" -> 4
                 [] x.t.k = "opaque" -> 4
                 [] OTHER -> T[x.t.r]
    IN  CASE x.o -> 4
          [] x.a = "var" -> 4
          [] x.a = "fix" /\ x.t.k = "opaque" ->
                LET n == FixedLen(e, x.b) IN Cap(Cap(n) + Pad(Cap(n)))
          [] x.a = "fix" -> CapMul(FixedLen(e, x.b), one)
          [] OTHER -> one

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

MinDecl(e, T, d) ==
    CASE d.k = "struct" ->
            SumSeq([ i \in DOMAIN d.f |-> MinItem(e, T, Item(d.f[i].t, d.f[i].a, d.f[i].b, d.f[i].o)) ])
      [] d.k = "union" ->
            LET sizes == { IF a.void THEN 0 ELSE MinItem(e, T, Item(a.t, "none", NoBound, FALSE))
                             : a \in ToSet(d.arms) }
            IN  DiscSize(e, d) + (IF sizes = {} THEN 0 ELSE SetMin(sizes))
      [] d.k = "enum" -> 4
      [] d.k = "typedef" -> MinItem(e, T, Item(d.t, d.a, d.b, FALSE))
      [] OTHER -> 0

GrowMin(e, T) == TLCEval([ nm \in DOMAIN T |-> MinDecl(e, T, DECL[e][nm]) ])

MINSIZE == TLCEval([ e \in SpecIds |->
    TLCEval(Iterate(LAMBDA T : GrowMin(e, T), [ nm \in DOMAIN DECL[e] |-> 0 ], Len(SPECS[e]) + 1)) ])

MinOf(e, x) == MinItem(e, MINSIZE[e], x)

(***************************************************************************)
(* The inline `opaque x;` form (no <> or []), whose wire_size() is a known *)
(* finding: reachable anywhere in the specification?                       *)
(***************************************************************************)
HasBareOpaque(e) ==
    \E nm \in DOMAIN DECL[e] :
        /\ DECL[e][nm].k \in {"struct", "union"}
        /\ \E x \in ItemsOf(DECL[e][nm]) : x.t.k = "opaque" /\ x.a = "none" /\ ~x.o

HASBARE == TLCEval([ e \in SpecIds |-> HasBareOpaque(e) ])

(***************************************************************************)
(* The documented Rust API                                                 *)
(***************************************************************************)
RustReserved == { "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else",
    "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod",
    "move", "mut", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait",
    "true", "type", "union", "unsafe", "use", "where", "while", "abstract", "become", "box", "do",
    "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield" }

SafeField(n) == IF n \in RustReserved THEN n \o "_v" ELSE n

\* Per declaration: [n, k, gen, names]: the names of fields (struct), variants
\* (union: every label of every arm), members (enum).
LabelInfo(l, i) ==
    IF l.k = "default" THEN [v |-> "default", arm |-> i, w |-> <<>>]
    ELSE [v |-> VariantName(l), arm |-> i, w |-> l.w]

\* all labels of all arms, in order
FlatLabels(u) ==
    FoldLeft(LAMBDA acc, i : acc \o TLCEval([ j \in DOMAIN u.arms[i].l |-> LabelInfo(u.arms[i].l[j], i) ]),
             <<>>, Upto(Len(u.arms)))

NamesOf(d) ==
    CASE d.k = "struct" -> [ i \in DOMAIN d.f |-> SafeField(d.f[i].n) ]
      [] d.k = "union" -> LET fl == FlatLabels(d) IN [ i \in DOMAIN fl |-> fl[i].v ]
      [] d.k = "enum" -> [ i \in DOMAIN d.m |-> d.m[i].n ]
      [] OTHER -> <<>>

ArmsOf(d) ==
    IF d.k = "union" THEN LET fl == FlatLabels(d) IN [ i \in DOMAIN fl |-> fl[i].arm ] ELSE <<>>

ShapeOf(e, d) ==
    [ n |-> d.n, k |-> d.k, gen |-> IsGeneric(e, d.n), self |-> IsSelfTypedef(d),
      names |-> TLCEval(NamesOf(d)), arms |-> TLCEval(ArmsOf(d)),
      disc |-> IF d.k = "union" THEN DiscSize(e, d) ELSE 0,
      min |-> MINSIZE[e][d.n] ]

Shapes(e) == TLCEval([ i \in DOMAIN SPECS[e] |-> ShapeOf(e, SPECS[e][i]) ])
=============================================================================
