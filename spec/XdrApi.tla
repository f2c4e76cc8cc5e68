------------------------------- MODULE XdrApi -------------------------------
(***************************************************************************)
(* The module a specification is turned into (C07), as a ledger: the       *)
(* declarations owe the module one public item each, of a shape XdrDecls   *)
(* derives; reading the items of a generated module in order, every public *)
(* item must pay one debt, and at the end nothing is owed.  The facts that *)
(* only a compiler can establish (that the module compiles under each      *)
(* derive line and edition, and that a program which names every field,    *)
(* variant, element type and required trait compiles against it) are       *)
(* recorded by running rustc and are debts of their own.                   *)
(*                                                                         *)
(* XDR_OBS: one record per specification of XDR_SPECS:                     *)
(*   [id, gen, mods, items: <<[kind, name, pub, tuple, params, names,      *)
(*   pubs, same]>>, compiled: <<[name, ok]>>]                              *)
(***************************************************************************)
EXTENDS XdrDecls

OBS == TLCEval(ndJsonDeserialize(IOEnv.XDR_OBS))

\* What the header brings, whatever the specification
HeaderItems == { [kind |-> "enum", name |-> "Error"] }

Owed(e) ==
    HeaderItems
    \cup { [kind |-> CASE d.k = "const" -> "const"
                       [] d.k \in {"enum", "union"} -> "enum"
                       [] OTHER -> "struct",
            name |-> d.n] : d \in { x \in ToSet(SPECS[e]) : ~IsSelfTypedef(x) } }

OwedFacts == { "default", "clone", "several lines", "edition 2018", "uses" }

ErrorVariants == { "InvalidLength", "NonUtf8String", "InvalidBoolean", "UnknownVariant",
                   "UnknownOptionVariant", "Unknown" }

Params(e, n) == IF IsGeneric(e, n) THEN 1 ELSE 0

\* Is a public item called n of the shape its declaration documents?
ShapeOk(e, it) ==
    IF it.name = "Error" /\ "Error" \notin DOMAIN DECL[e]
    THEN ToSet(it.names) = ErrorVariants /\ Len(it.names) = Cardinality(ErrorVariants)
    ELSE LET d == DECL[e][it.name]
             names == NamesOf(d)
         IN  CASE d.k = "const" -> TRUE
               [] d.k = "struct" ->
                    \* fields: all public, the declared names in the declared order
                    ~it.tuple /\ it.pubs /\ it.names = names /\ it.params = Params(e, d.n)
               [] d.k = "typedef" ->
                    \* a distinct tuple newtype
                    it.tuple /\ it.pubs /\ Len(it.names) = 1 /\ it.params = Params(e, d.n)
               [] d.k = "enum" -> it.names = names /\ it.params = 0
               [] d.k = "union" ->
                    \* one variant per label; their order is not documented
                    /\ Len(it.names) = Len(names)
                    /\ ToSet(it.names) = ToSet(names)
                    /\ it.params = Params(e, d.n)
               [] OTHER -> FALSE

VARIABLES o, pos, owed, facts, wrong
avars == <<o, pos, owed, facts, wrong>>

\* pos = 0: nothing read yet
ApiInit ==
    /\ o \in DOMAIN OBS
    /\ pos = 0
    /\ owed = {}
    /\ facts = {}
    /\ wrong = {}

Open ==
    /\ pos = 0
    /\ owed' = Owed(o)
    /\ facts' = OwedFacts
    /\ wrong' = (IF OBS[o].gen THEN {} ELSE {"generate() did not return Ok"})
                \cup (IF OBS[o].mods = <<"pub xdr">> \/ ~OBS[o].gen THEN {} ELSE {"not one public module xdr"})
    /\ pos' = 1
    /\ UNCHANGED o

Items == OBS[o].items
Compiled == OBS[o].compiled

ReadItem ==
    /\ pos > 0 /\ pos <= Len(Items)
    /\ LET it == Items[pos]
           key == [kind |-> it.kind, name |-> it.name]
       IN  IF ~it.pub
           THEN \* the module's own business, unless it is what was declared
                /\ owed' = owed
                /\ wrong' = wrong \cup (IF key \in owed THEN {it.name \o ": not public"} ELSE {})
           ELSE IF key \notin owed
           THEN /\ owed' = owed
                /\ wrong' = wrong \cup {it.name \o ": a public " \o it.kind \o " nothing declares (or declared once only)"}
           ELSE /\ owed' = owed \ {key}
                /\ wrong' = wrong \cup (IF ShapeOk(o, it) THEN {} ELSE {it.name \o ": not the documented shape"})
    /\ pos' = pos + 1
    /\ UNCHANGED <<o, facts>>

ReadFact ==
    /\ pos > Len(Items) /\ pos <= Len(Items) + Len(Compiled)
    /\ LET c == Compiled[pos - Len(Items)]
       IN  facts' = IF c.ok THEN facts \ {c.name} ELSE facts
    /\ pos' = pos + 1
    /\ UNCHANGED <<o, owed, wrong>>

Close ==
    /\ pos = Len(Items) + Len(Compiled) + 1
    /\ PrintT("A|" \o ToJson(<<OBS[o].id, wrong \cup { k.name \o ": no public " \o k.kind : k \in owed }
                                             \cup { "does not compile: " \o f : f \in facts }>>))
    /\ pos' = -1
    /\ UNCHANGED <<o, owed, facts, wrong>>

ApiSpec == ApiInit /\ [][Open \/ ReadItem \/ ReadFact \/ Close]_avars

\* a debt is paid once
LedgerOk == pos > 0 => owed \subseteq Owed(o) /\ facts \subseteq OwedFacts
=============================================================================
