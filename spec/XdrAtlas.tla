------------------------------ MODULE XdrAtlas ------------------------------
(***************************************************************************)
(* The small specifications: every basic type in every form, every way of  *)
(* naming a declared type in another declaration, and that once more.      *)
(*                                                                         *)
(* A behaviour builds one specification: it declares A from basic types,   *)
(* then B, which mentions A, then C, which mentions B.  TLC enumerates     *)
(* them all up to LEVEL declarations; each is printed, and so are the      *)
(* declarations it is made of.  The checks print them as text, generate,   *)
(* compile, and decode inputs with them, in the orders the property at     *)
(* hand is about.                                                          *)
(*                                                                         *)
(* The invariants say what makes a specification supported: it is well     *)
(* formed by XdrDecls' own rules (every name is declared once, everything  *)
(* mentioned is declared, element types have a positive size).             *)
(***************************************************************************)
EXTENDS XdrBytes, FiniteSets, Json, IOUtils

LEVEL == CHOOSE n \in 1..3 : ToString(n) = IOEnv.XDR_LEVEL

VARIABLES
    ds,      \* the declarations, in dependency order
    tops,    \* number of declarations built by mentioning (A, B, C)
    said     \* printed
atlasvars == <<ds, tops, said>>

Ty(k) == [k |-> k, r |-> ""]
Ref(n) == [k |-> "ref", r |-> n]
None == [k |-> "none", w |-> <<>>, r |-> ""]
Lit(n) == [k |-> "lit", w |-> WordOf(n), r |-> ""]
Cst(n) == [k |-> "const", w |-> <<>>, r |-> n]
It(t, a, b, o) == [t |-> t, a |-> a, b |-> b, o |-> o]

Prim == {"u32", "i32", "u64", "i64", "f32", "f64", "bool"}

Const == [k |-> "const", n |-> "K", w |-> WordOf(3), s |-> "3"]
Hex == [k |-> "const", n |-> "H", w |-> WordOf(10), s |-> "0x0a"]
Tiny == [k |-> "const", n |-> "J", w |-> WordOf(1), s |-> "0x1"]
Enum(n) == [k |-> "enum", n |-> n, m |-> << [n |-> n \o "_one", w |-> WordOf(1), s |-> "1"],
                                            [n |-> n \o "_zero", w |-> WordOf(0), s |-> "0"],
                                            [n |-> n \o "_far", w |-> WordOf(65536), s |-> "0x10000"] >>]

(***************************************************************************)
(* Items of basic types, and items that mention n                          *)
(***************************************************************************)
BasicItems ==
    { It(Ty(p), "none", None, o) : p \in Prim, o \in BOOLEAN }
    \cup { It(Ty(p), "fix", b, FALSE) : p \in Prim, b \in {Lit(1), Lit(2), Cst("K")} }
    \cup { It(Ty("string"), "none", None, FALSE) }
    \cup { It(Ty(p), "var", b, FALSE) : p \in {"string", "opaque"}, b \in {None, Lit(2), Lit(5), Cst("K"), Cst("H")} }
    \cup { It(Ty("opaque"), "fix", b, FALSE) : b \in {Lit(1), Lit(4), Lit(6), Cst("K"), Cst("H")} }

Mentions(n) ==
    { It(Ref(n), "none", None, o) : o \in BOOLEAN }
    \cup { It(Ref(n), "fix", b, FALSE) : b \in {Lit(1), Lit(2), Cst("K")} }
    \cup { It(Ref(n), "var", b, FALSE) : b \in {None, Lit(2), Cst("K")} }

(***************************************************************************)
(* Declarations of nm around an item                                       *)
(***************************************************************************)
Fld(n, x) == [n |-> n, t |-> x.t, a |-> x.a, b |-> x.b, o |-> x.o]
U32 == It(Ty("u32"), "none", None, FALSE)
Structs(nm, x) ==
    { [k |-> "struct", n |-> nm, f |-> << Fld("x", x) >>],
      [k |-> "struct", n |-> nm, f |-> << Fld("h", U32), Fld("x", x), Fld("y", x), Fld("z", U32) >>] }

Typedefs(nm, x) == IF x.o THEN {} ELSE { [k |-> "typedef", n |-> nm, t |-> x.t, a |-> x.a, b |-> x.b] }

Num(n) == [k |-> "num", s |-> ToString(n), w |-> WordOf(n)]
Id(s) == [k |-> "id", s |-> s, w |-> <<>>]
\* 2^32, which only 8 bytes hold
Far == [k |-> "num", s |-> "4294967296", w |-> One \o Zero]
Dflt == [k |-> "default", s |-> "default", w |-> <<>>]
Arm(l, t) == [l |-> l, void |-> FALSE, n |-> "p", t |-> t]
Void(l) == [l |-> l, void |-> TRUE, n |-> "", t |-> Ty("u32")]
Union(nm, st, arms) == [k |-> "union", n |-> nm, sn |-> "w", st |-> st, arms |-> arms]

\* the labels of a switch on each type: one, another, a third (or none)
Switches == { <<Ty("i32"), <<Num(1), Num(0), Num(7)>> >>, <<Ty("u32"), <<Num(1), Id("K"), Num(0)>> >>,
              <<Ty("i64"), <<Num(1), Num(0), Num(2)>> >>, <<Ty("u64"), <<Num(0), Id("H"), Num(1)>> >>,
              <<Ref("G"), <<Far, Num(0), Num(1)>> >>,
              <<Ty("bool"), <<Id("TRUE"), Id("FALSE"), Id("FALSE")>> >>,
              <<Ty("bool"), <<Id("J"), Num(0), Num(0)>> >>,
              <<Ref("E"), <<Id("J"), Num(0), Id("E_far")>> >>,
              <<Ref("E"), <<Id("E_one"), Id("E_zero"), Id("E_far")>> >>,
              <<Ref("F"), <<Id("E_far"), Id("E_one"), Id("E_zero")>> >> }
IsBool(s) == s[1].k = "bool"

ArmSets(l, t, bool) ==
    { << Arm(<<l[1]>>, t) >>,
      << Arm(<<Dflt>>, t) >>,
      << Arm(<<l[1]>>, t), Void(<<Dflt>>) >>,
      << Void(<<Dflt>>), Arm(<<l[2]>>, t) >>,
      << Void(<<l[1]>>), Arm(<<Dflt>>, t) >>,
      << Arm(<<l[1]>>, t), Arm(<<l[2]>>, Ty("u32")) >>,
      << Void(<<l[1]>>), Arm(<<l[2]>>, t) >>,
      << Arm(<<l[1], l[2]>>, t) >> }
    \cup IF bool THEN {}
         ELSE { << Arm(<<l[1], l[2]>>, t), Void(<<l[3]>>) >>,
                << Arm(<<l[3]>>, Ty("bool")), Void(<<l[2], l[1]>>) >>,
                << Arm(<<l[1]>>, t), Arm(<<l[2], Dflt>>, Ty("u64")) >>,
                << Arm(<<l[1], l[3]>>, t), Void(<<l[2], Dflt>>) >>,
                << Void(<<l[3], l[1], Dflt>>), Arm(<<l[2]>>, t) >>,
                << Arm(<<l[1]>>, t), Arm(<<l[2]>>, t), Arm(<<Dflt>>, Ty("u64")) >> }

CanBeArm(x) == x.a = "none" /\ ~x.o
\* every switch around a word; some around the rest
AllUnions(nm, t) == UNION { { Union(nm, s[1], a) : a \in ArmSets(s[2], t, IsBool(s)) } : s \in Switches }
SomeUnions(nm, x) ==
    IF ~CanBeArm(x) THEN {}
    ELSE LET s == <<Ty("i32"), <<Num(1), Num(0), Num(7)>> >>
         IN  { Union(nm, s[1], a) : a \in ArmSets(s[2], x.t, FALSE) }

(***************************************************************************)
(* What a declaration needs                                                *)
(***************************************************************************)
BoundsOf(d) == CASE d.k = "struct" -> { d.f[i].b : i \in DOMAIN d.f }
                 [] d.k = "typedef" -> { d.b }
                 [] OTHER -> {}
LabelsOf(d) == IF d.k = "union" THEN UNION { ToSet(d.arms[i].l) : i \in DOMAIN d.arms } ELSE {}
Says(d, nm) == Cst(nm) \in BoundsOf(d) \/ Id(nm) \in LabelsOf(d)
TypesOf(d) == CASE d.k = "struct" -> { d.f[i].t : i \in DOMAIN d.f }
                [] d.k = "typedef" -> { d.t }
                [] d.k = "union" -> {d.st} \cup { d.arms[i].t : i \in DOMAIN d.arms }
                [] OTHER -> {}
Names(s) == { s[i].n : i \in DOMAIN s }
With(s, d) ==
    LET k == IF Says(d, "K") /\ "K" \notin Names(s) THEN <<Const>> ELSE <<>>
        h == IF Says(d, "H") /\ "H" \notin Names(s) THEN <<Hex>> ELSE <<>>
        j == IF Says(d, "J") /\ "J" \notin Names(s) THEN <<Tiny>> ELSE <<>>
        f == Ref("F") \in TypesOf(d)
        e == IF (f \/ Ref("E") \in TypesOf(d)) /\ "E" \notin Names(s) THEN <<Enum("E")>> ELSE <<>>
        g == IF f /\ "F" \notin Names(s)
             THEN << [k |-> "typedef", n |-> "F", t |-> Ref("E"), a |-> "none", b |-> None] >> ELSE <<>>
        w == IF Ref("G") \in TypesOf(d) /\ "G" \notin Names(s)
             THEN << [k |-> "typedef", n |-> "G", t |-> Ty("i64"), a |-> "none", b |-> None] >> ELSE <<>>
    IN  s \o k \o h \o j \o e \o g \o w \o <<d>>

(***************************************************************************)
(* Behaviours                                                              *)
(***************************************************************************)
FirstOnes ==
    {Enum("A")}
    \cup UNION { Structs("A", x) \cup Typedefs("A", x) \cup SomeUnions("A", x) : x \in BasicItems }
    \cup AllUnions("A", Ty("u32")) \cup AllUnions("A", Ty("opaque")) \cup AllUnions("A", Ty("string"))

\* a list: the only recursion there is without naming two declarations
Lists == { [k |-> "struct", n |-> "A", f |-> << Fld("v", U32), Fld("next", It(Ref("A"), "none", None, TRUE)) >>],
           [k |-> "struct", n |-> "A", f |-> << Fld("kids", It(Ref("A"), "var", None, FALSE)), Fld("v", U32) >>],
           [k |-> "struct", n |-> "A", f |-> << Fld("d", It(Ty("opaque"), "var", None, FALSE)), Fld("next", It(Ref("A"), "none", None, TRUE)) >>] }

NextOnes(old, nm) ==
    UNION { Structs(nm, x) \cup Typedefs(nm, x) \cup SomeUnions(nm, x) : x \in Mentions(old) }

\* every switch around some of the A
Wrapped == { d \in FirstOnes :
                \/ d.k = "typedef" /\ d.a = "var" /\ d.b \in {None, Lit(5)}
                \/ d.k = "struct" /\ Len(d.f) = 1 /\ d.f[1].t.k = "opaque" /\ d.f[1].b = None }

\* C is declared around few of the A
Few == { d \in FirstOnes \cup Lists :
            \/ d.k = "enum"
            \/ d.k = "typedef" /\ \/ d.a = "none" /\ d.t.k \in {"u64", "bool", "string"}
                                  \/ d.t.k = "opaque" /\ d.b \in {None, Lit(2), Lit(6)}
                                  \/ d.t.k = "f64" /\ d.b = Lit(2)
            \/ d.k = "struct" /\ Len(d.f) = 1 /\ d.f[1].t.k \in {"i32", "opaque"} /\ d.f[1].b \in {None, Lit(2)}
            \/ d.k = "union" /\ d.st.k = "i32" /\ Len(d.arms) = 2 /\ d.arms[2].void /\ d.arms[1].t.k \in {"u32", "string"}
            \/ d \in Lists }

AtlasInit ==
    /\ tops = 1
    /\ said = FALSE
    /\ \E d \in FirstOnes \cup Lists : ds = With(<<>>, d)

Declare ==
    /\ said
    /\ tops < LEVEL
    /\ tops = 2 => \E d \in Few : d \in ToSet(ds)
    /\ \E d \in NextOnes(IF tops = 1 THEN "A" ELSE "B", IF tops = 1 THEN "B" ELSE "C")
               \cup (IF tops = 1 /\ ToSet(ds) \cap Wrapped # {} THEN AllUnions("B", Ref("A")) ELSE {}) :
          \* of the many structs around B, those with fields around it
          /\ tops = 2 /\ d.k = "struct" => Len(d.f) > 1
          /\ ds' = With(ds, d)
    /\ tops' = tops + 1
    /\ said' = FALSE

Say ==
    /\ ~said
    /\ PrintT("D|" \o ToJson(<<tops, ds>>))
    /\ said' = TRUE
    /\ UNCHANGED <<ds, tops>>

AtlasSpec == AtlasInit /\ [][Declare \/ Say]_atlasvars

WellFormed ==
    /\ Cardinality(Names(ds)) = Len(ds)
    /\ \A i \in DOMAIN ds : \A t \in TypesOf(ds[i]) : t.k = "ref" => t.r \in Names(ds)
    /\ \A i \in DOMAIN ds : \A b \in BoundsOf(ds[i]) : b.k = "const" => b.r \in Names(ds)
=============================================================================
