------------------------------- MODULE XdrText -------------------------------
(***************************************************************************)
(* Checks what the library made of texts against the grammar (C12, C14).   *)
(*                                                                         *)
(* A case is [id, text, sup, decls, gen, ast, dump]: sup says that the text *)
(* was printed from the declarations decls, of the supported subset; gen   *)
(* and ast are the outcomes of Generator::generate and Ast::new, <<"ok">>,  *)
(* <<"err", ..>>, <<"panic", ..>>, <<"crash">> or <<"hang">>; dump is what  *)
(* the public Ast exposes.                                                 *)
(*                                                                         *)
(* The grammar machine reads the text; every declaration it completes is   *)
(* looked up in the dump.                                                  *)
(***************************************************************************)
EXTENDS XdrGrammar, Json, IOUtils

CASES == TLCEval(ndJsonDeserialize(IOEnv.XDR_CASES))
C == CASES[src]
TextTextOf(s) == CASES[s].text

VARIABLES
    nd,      \* declarations read so far
    names,   \* their names (types and constants apart), <<"t", n>> or <<"c", n>>
    well,    \* all of them mean something, no name is taken twice
    wrong    \* what the dump does not show as declared
textvars == <<src, at, goals, backs, evs, ph, decl, nd, names, well, wrong>>

TextInit ==
    /\ src \in DOMAIN CASES
    /\ GrammarInit
    /\ nd = 0
    /\ names = {}
    /\ well = TRUE
    /\ wrong = {}

(***************************************************************************)
(* What the public AST shows for a declaration                             *)
(***************************************************************************)
\* names pass through the table of primitive types
NameStr(s) ==
    LET t == TypeOfWord(s)
    IN  CASE t.k = "ref" -> s [] t.k = "string" -> "String" [] t.k = "opaque" -> "T" [] OTHER -> t.k

SNone == [k |-> "none", w |-> <<>>, r |-> ""]
CaseOf(a) == [l |-> [ i \in DOMAIN a.l |-> NameStr(a.l[i].s) ], n |-> a.n, t |-> a.t, a |-> "none", b |-> SNone]
HasDefault(a) == \E i \in DOMAIN a.l : a.l[i].k = "default"

AstOf(d) ==
    LET n == NameStr(d.n)
    IN  CASE d.k = "struct" -> [key |-> n, k |-> "struct", n |-> n, f |-> d.f]
          [] d.k = "enum" -> [key |-> n, k |-> "enum", n |-> n,
                              m |-> [ i \in DOMAIN d.m |-> [n |-> d.m[i].n, w |-> d.m[i].w, s |-> ""] ]]
          [] d.k = "union" ->
                LET data == SelectSeq(d.arms, LAMBDA a : ~a.void)
                    plain == SelectSeq(data, LAMBDA a : ~HasDefault(a))
                    dflt == SelectSeq(data, LAMBDA a : HasDefault(a))
                    voids == SelectSeq(d.arms, LAMBDA a : a.void)
                IN  [key |-> n, k |-> "union", n |-> n, sn |-> NameStr(d.sn), st |-> d.st,
                     cases |-> [ i \in DOMAIN plain |-> CaseOf(plain[i]) ],
                     dflt |-> [ i \in DOMAIN dflt |-> CaseOf(dflt[i]) ],
                     voids |-> FoldLeft(LAMBDA acc, a : acc \o [ i \in DOMAIN a.l |-> NameStr(a.l[i].s) ], <<>>, voids)]
          [] d.k = "typedef" -> [key |-> n, k |-> "typedef", n |-> n,
                                 alias |-> LET t == TypeOfWord(d.n) IN t,
                                 t |-> d.t, a |-> d.a, b |-> d.b]

\* the entries of the constant index a declaration accounts for
ConstsOf(d) ==
    CASE d.k = "const" -> { <<NameStr(d.n), "const", NameStr(d.s), "", TRUE>> }
      [] d.k = "enum" -> { <<m.n, "enum", NameStr(d.n), m.n, TRUE>> : m \in ToSet(d.m) }
      [] OTHER -> {}

Dump == C.dump
ShownType(n) == { i \in DOMAIN Dump.types : Dump.types[i].key = n }

Missed(d) ==
    { x \in {"type", "byname", "const"} :
        CASE x = "type" -> d.k # "const" /\ ~(\E i \in DOMAIN Dump.types : Dump.types[i] = AstOf(d))
          [] x = "byname" -> d.k # "const" /\ ~(\E i \in DOMAIN Dump.byname : Dump.byname[i] = <<NameStr(d.n), AstOf(d), d.k = "typedef">>)
          [] x = "const" -> ~(ConstsOf(d) \subseteq ToSet(Dump.consts)) }

\* the names a declaration takes
Taken(d) == (IF d.k = "const" THEN {} ELSE {<<"t", NameStr(d.n)>>}) \cup { <<"c", c[1]>> : c \in ConstsOf(d) }

Same(d, e) == d = e
Bad == <<"machine", "">>

Note ==
    IF decl' = <<>> THEN UNCHANGED <<nd, names, well, wrong>>
    ELSE LET d == decl'[1].d
         IN  /\ nd' = nd + 1
             /\ names' = names \cup Taken(d)
             /\ well' = (well /\ decl'[1].well /\ Taken(d) \cap names = {}
                              /\ (d.k = "enum" => Cardinality(Taken(d)) = Len(d.m) + 1))
             /\ wrong' = (wrong
                    \* the machine itself must read back what was printed
                    \cup (IF C.sup /\ (nd + 1 > Len(C.decls) \/ ~Same(d, C.decls[nd + 1])) THEN {Bad} ELSE {})
                    \cup (IF C.ast[1] = "ok" /\ decl'[1].well THEN { <<x, d.n>> : x \in Missed(d) } ELSE {}))

Lost(o) == o[1] \in {"panic", "crash", "hang"}

\* entries nobody declared
Invented ==
    { x \in {"types", "byname", "consts"} :
        CASE x = "types" -> Len(Dump.types) # Cardinality({ m \in names : m[1] = "t" })
          [] x = "byname" -> Len(Dump.byname) # Cardinality({ m \in names : m[1] = "t" })
          [] x = "consts" -> Len(Dump.consts) # Cardinality({ m \in names : m[1] = "c" }) }

Verdict ==
    LET acc == ph = "accept"
        extra == IF acc /\ C.ast[1] = "ok" /\ well THEN Invented ELSE {}
    IN  [ acc |-> acc, well |-> well, nd |-> nd, at |-> at, wrong |-> wrong, extra |-> extra,
          model |-> Bad \in wrong \/ (C.sup /\ (~acc \/ nd # Len(C.decls) \/ ~well)),
          c12 |-> acc /\ well /\ (\/ C.sup /\ C.ast[1] # "ok"
                                  \/ C.ast[1] = "ok" /\ (wrong \ {Bad} # {} \/ extra # {})),
          c14 |-> Lost(C.gen) \/ Lost(C.ast) \/ (~acc /\ (C.gen[1] = "ok" \/ C.ast[1] = "ok")) ]

Read == ph = "run" /\ GrammarStep /\ Note /\ UNCHANGED src

Judge ==
    /\ ph \in {"accept", "reject"}
    /\ PrintT("X|" \o ToJson(<<C.id, Verdict>>))
    /\ ph' = "judged"
    /\ UNCHANGED <<src, at, goals, backs, evs, decl, nd, names, well, wrong>>

TextSpec == TextInit /\ [][Read \/ Judge]_textvars

\* It consumes the text left to right and falls back only to where it has been
TextOk == at \in 0..Size /\ (ph = "accept" => at = Size /\ backs = <<>> /\ evs = <<>>)
=============================================================================
