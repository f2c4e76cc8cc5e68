----------------------------- MODULE XdrGrammar -----------------------------
(***************************************************************************)
(* The XDR language as fastxdr reads it: a parsing expression grammar, and *)
(* the machine that runs it over a text, character by character where the  *)
(* lexis needs it.  (The language is scannerless: there are no reserved    *)
(* words, and whitespace and comments may stand between any two elements   *)
(* of a sequence.)                                                         *)
(*                                                                         *)
(* The machine's state is a stack of goals (the next one last), a stack of *)
(* alternatives to fall back to, and the parse events of the top-level     *)
(* declaration being read.  When a declaration is complete it is emitted;  *)
(* nothing before it is ever taken back.                                   *)
(***************************************************************************)
EXTENDS XdrBytes, FiniteSets

CONSTANT TextOf(_)      \* the text under consideration, a string

VARIABLES
    src,     \* which text
    at,      \* characters consumed
    goals,   \* what must match from here on
    backs,   \* alternatives
    evs,     \* parse events of the current declaration
    ph,      \* "run", "accept", "reject"
    decl     \* <<declaration>> if the last step completed one

text == TextOf(src)

(***************************************************************************)
(* The grammar                                                             *)
(***************************************************************************)
Lit(s) == [x |-> "lit", s |-> s]
Seq2(es) == [x |-> "seq", es |-> es]
Alt(es) == [x |-> "alt", es |-> es]
Star(e) == [x |-> "star", e |-> e]
Plus(e) == [x |-> "plus", e |-> e]
Opt(e) == [x |-> "opt", e |-> e]
Rule(n) == [x |-> "rule", n |-> n]     \* leaves events
Sub(n) == [x |-> "sub", n |-> n]       \* does not
Word == [x |-> "word"]                 \* an identifier (or literal): not a basic type
Digits == [x |-> "digits"]
Basic == [x |-> "basic"]
Eoi == [x |-> "eoi"]

TypeName == Alt(<<Word, Basic>>)

GRAMMAR ==
    [ constant |-> Seq2(<<Lit("const"), Word, Lit("="), Word, Lit(";")>>),
      enum_type |-> Seq2(<<Lit("enum"), Word, Lit("{"), Plus(Rule("enum_variant")),
                           Star(Seq2(<<Lit(","), Rule("enum_variant")>>)), Lit("}"), Lit(";")>>),
      enum_variant |-> Seq2(<<Word, Lit("="), Word>>),
      array |-> Alt(<<Rule("array_variable"), Rule("array_fixed")>>),
      array_variable |-> Seq2(<<Lit("<"), Opt(Sub("array_length")), Lit(">")>>),
      array_fixed |-> Seq2(<<Lit("["), Sub("array_length"), Lit("]")>>),
      array_length |-> Alt(<<Digits, Rule("ident_const")>>),
      ident_const |-> Word,
      struct_type |-> Seq2(<<Lit("struct"), Word, Lit("{"), Star(Rule("struct_data_field")), Lit("}"), Lit(";")>>),
      struct_data_field |-> Sub("data_field"),
      union_data_field |-> Sub("data_field"),
      data_field |-> Seq2(<<TypeName, Alt(<<Rule("option"), Word>>), Opt(Sub("array")), Lit(";")>>),
      option |-> Seq2(<<Lit("*"), Word>>),
      union |-> Seq2(<<Lit("union"), Word, Lit("switch"), Lit("("), TypeName, Word, Lit(")"), Lit("{"),
                       Star(Alt(<<Rule("union_case"), Rule("union_default")>>)), Lit("}"), Lit(";")>>),
      union_case |-> Seq2(<<Lit("case"), Sub("union_case_value"), Lit(":"),
                            Opt(Alt(<<Rule("union_data_field"), Rule("union_void")>>))>>),
      union_case_value |-> Alt(<<Digits, Rule("ident_const")>>),
      union_void |-> Seq2(<<Lit("void"), Lit(";")>>),
      union_default |-> Seq2(<<Lit("default"), Lit(":"), Alt(<<Rule("union_data_field"), Rule("union_void")>>)>>),
      typedef |-> Seq2(<<Lit("typedef"), TypeName, Word, Opt(Sub("array")), Lit(";")>>),
      item |-> Seq2(<<Lit(""), Star(Alt(<<Rule("constant"), Rule("typedef"), Rule("enum_type"),
                                          Rule("struct_type"), Rule("union")>>)), Eoi>>) ]

TopLevel == {"constant", "typedef", "enum_type", "struct_type", "union"}

(***************************************************************************)
(* The lexis.  Positions are counts of characters before.                  *)
(***************************************************************************)
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
DigitChars == {"0","1","2","3","4","5","6","7","8","9"}
WordChars == Lower \cup Upper \cup DigitChars \cup {"_"}
SpaceChars == {" ", "\t", "\n", "\r"}

Size == Len(text)
Ch(p) == SubSeq(text, p + 1, p + 1)
Starts(p, s) == p + Len(s) <= Size /\ SubSeq(text, p + 1, p + Len(s)) = s

\* how many of the characters from p on are in the class
RunLen(p, Class) ==
    CHOOSE n \in 0..(Size - p) :
        /\ p + n = Size \/ Ch(p + n) \notin Class
        /\ \A m \in 0..(n - 1) : Ch(p + m) \in Class

\* the end of the comment that begins at p, -1: none does
CommentEnd(p) ==
    IF Starts(p, "//") THEN
        CHOOSE q \in (p + 2)..Size : /\ q = Size \/ Ch(q) \in {"\n", "\r"}
                                     /\ \A r \in (p + 2)..(q - 1) : Ch(r) \notin {"\n", "\r"}
    ELSE IF Starts(p, "/*") /\ \E q \in (p + 2)..(Size - 2) : Starts(q, "*/") THEN
        2 + CHOOSE q \in (p + 2)..(Size - 2) : /\ Starts(q, "*/")
                                               /\ \A r \in (p + 2)..(q - 1) : ~Starts(r, "*/")
    ELSE -1

IsBlank(p) == p < Size /\ (Ch(p) \in SpaceChars \/ CommentEnd(p) # -1)

Upto(n) == [ i \in 1..n |-> i ]

\* the end of the run of whitespace, or of the comment, that begins at q
BlankPiece(q) == IF Ch(q) \in SpaceChars THEN q + RunLen(q, SpaceChars) ELSE CommentEnd(q)

\* whitespace and comments from p on (there are at most so many of them)
BlankEnd(p) ==
    IF ~IsBlank(p) THEN p
    ELSE IF ~IsBlank(BlankPiece(p)) THEN BlankPiece(p)
    ELSE FoldLeft(LAMBDA q, i : IF IsBlank(q) THEN BlankPiece(q) ELSE q, p, Upto((Size - p) \div 2 + 1))

\* The built-in types whose names need no look-up.  `int` and `hyper` must be
\* followed by blank space, the others take the whitespace after them.
IntEnd(p) ==
    LET n == IF Starts(p, "int") THEN 3 ELSE IF Starts(p, "hyper") THEN 5 ELSE 0
    IN  IF n > 0 /\ IsBlank(p + n) THEN p + n ELSE -1

SpacedEnd(p, s) == IF Starts(p, s) /\ RunLen(p + Len(s), SpaceChars) > 0
                   THEN p + Len(s) + RunLen(p + Len(s), SpaceChars) ELSE -1

BasicEnd(p) ==
    LET c == IF p < Size THEN Ch(p) ELSE ""
        first == IF c = "u" /\ Starts(p, "unsigned") /\ IsBlank(p + 8) THEN IntEnd(BlankEnd(p + 8))
                 ELSE IF c \in {"i", "h"} THEN IntEnd(p) ELSE -1
    IN  IF first # -1 THEN first
        ELSE CASE c = "f" -> SpacedEnd(p, "float")
               [] c = "d" -> SpacedEnd(p, "double")
               [] c = "s" -> SpacedEnd(p, "string")
               [] c = "o" -> SpacedEnd(p, "opaque")
               [] OTHER -> -1

BasicType(p, q) ==
    IF Starts(p, "unsigned") THEN (IF SubSeq(text, q - 2, q) = "int" THEN "u32" ELSE "u64")
    ELSE CASE Starts(p, "int") -> "i32" [] Starts(p, "hyper") -> "i64" [] Starts(p, "float") -> "f32"
           [] Starts(p, "double") -> "f64" [] Starts(p, "string") -> "string" [] Starts(p, "opaque") -> "opaque"

(***************************************************************************)
(* From events to a declaration                                            *)
(***************************************************************************)
TypeOfWord(s) ==
    CASE s \in {"uint32_t", "u32", "unsigned"} -> [k |-> "u32", r |-> ""]
      [] s \in {"int", "int32_t", "i32"} -> [k |-> "i32", r |-> ""]
      [] s \in {"uint64_t", "u64"} -> [k |-> "u64", r |-> ""]
      [] s \in {"hyper", "int64_t", "i64"} -> [k |-> "i64", r |-> ""]
      [] s = "float" -> [k |-> "f32", r |-> ""]
      [] s = "double" -> [k |-> "f64", r |-> ""]
      [] s \in {"string", "opaque", "bool"} -> [k |-> s, r |-> ""]
      [] OTHER -> [k |-> "ref", r |-> s]

DigitVal == [ c \in DigitChars |-> CHOOSE n \in 0..9 : ToString(n) = c ]
HexVal == DigitVal @@ [ c \in {"a","A"} |-> 10 ] @@ [ c \in {"b","B"} |-> 11 ] @@ [ c \in {"c","C"} |-> 12 ]
          @@ [ c \in {"d","D"} |-> 13 ] @@ [ c \in {"e","E"} |-> 14 ] @@ [ c \in {"f","F"} |-> 15 ]

\* w * base + d, as a word; <<>> once it does not fit
Shift(w, base, d) ==
    IF w = <<>> THEN <<>>
    ELSE LET b4 == w[4] * base + d
             b3 == w[3] * base + b4 \div 256
             b2 == w[2] * base + b3 \div 256
             b1 == w[1] * base + b2 \div 256
         IN  IF b1 > 255 THEN <<>> ELSE <<b1, b2 % 256, b3 % 256, b4 % 256>>

\* the same with 8 bytes
ShiftWide(w, base, d) ==
    IF w = <<>> THEN <<>>
    ELSE LET sum == FoldRight(LAMBDA b, acc : << <<(b * base + acc[2]) % 256>> \o acc[1], (b * base + acc[2]) \div 256>>, w, << <<>>, d>>)
         IN  IF sum[2] # 0 THEN <<>> ELSE sum[1]

CharsOf(s) == [ i \in 1..Len(s) |-> SubSeq(s, i, i) ]
AllIn(s, Class) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in Class
DecWord(s) == IF s # "" /\ AllIn(s, DigitChars)
              THEN FoldLeft(LAMBDA w, c : Shift(w, 10, DigitVal[c]), Zero, CharsOf(s)) ELSE <<>>
DecWide(s) == FoldLeft(LAMBDA w, c : ShiftWide(w, 10, DigitVal[c]), Zero \o Zero, CharsOf(s))
HexWord(s) == IF s # "" /\ AllIn(s, DOMAIN HexVal)
              THEN FoldLeft(LAMBDA w, c : Shift(w, 16, HexVal[c]), Zero, CharsOf(s)) ELSE <<>>
NumWord(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 2) = "0x" THEN HexWord(SubSeq(s, 3, Len(s))) ELSE DecWord(s)

NoBound == [k |-> "none", w |-> <<>>, r |-> ""]
BoundOfText(s) == IF DecWord(s) # <<>> THEN [k |-> "lit", w |-> DecWord(s), r |-> ""]
                  ELSE [k |-> "const", w |-> <<>>, r |-> s]
LabelOfText(s) ==
    IF s = "" THEN [k |-> "default", s |-> "default", w |-> <<>>]
    ELSE IF AllIn(s, DigitChars) THEN [k |-> "num", s |-> s, w |-> IF DecWord(s) # <<>> THEN DecWord(s) ELSE DecWide(s)]
    ELSE [k |-> "id", s |-> s, w |-> <<>>]

\* Parse nodes.  y: "word" [s], "basic" [t], "void", or a rule's name with its
\* children c.
NodeType(n) == IF n.y = "word" THEN TypeOfWord(n.s) ELSE [k |-> n.t, r |-> ""]
Array(c) == IF c = <<>> THEN <<"none", NoBound>>
            ELSE LET a == c[1] IN << IF a.y = "array_fixed" THEN "fix" ELSE "var",
                                     IF a.c = <<>> THEN NoBound ELSE BoundOfText(a.c[1].s) >>

\* a field: type, name or option, array
FieldOf(c) ==
    LET o == c[2].y = "option"
        a == Array(SubSeq(c, 3, Len(c)))
    IN  [n |-> IF o THEN c[2].c[1].s ELSE c[2].s, t |-> NodeType(c[1]), a |-> a[1], b |-> a[2], o |-> o]

IsName(s) == TypeOfWord(s).k = "ref"

\* the arms of a union: labels gather until something is declared
ArmStep(acc, n) ==
    LET l == IF n.y = "union_default" THEN LabelOfText("") ELSE LabelOfText(n.c[1].s)
        labels == Append(acc.l, l)
        rest == IF n.y = "union_default" THEN n.c ELSE Tail(n.c)
    IN  IF rest = <<>> THEN [acc EXCEPT !.l = labels]
        ELSE IF rest[1].y = "union_void"
        THEN [acc EXCEPT !.l = <<>>, !.arms = Append(@, [l |-> labels, void |-> TRUE, n |-> "", t |-> [k |-> "u32", r |-> ""]])]
        ELSE LET f == FieldOf(rest[1].c)
             IN  [l |-> <<>>, ok |-> acc.ok /\ f.a = "none" /\ ~f.o /\ IsName(f.n),
                  arms |-> Append(acc.arms, [l |-> labels, void |-> FALSE, n |-> f.n, t |-> f.t])]

\* well: whether the declaration means something to fastxdr at all
Declaration(n) ==
    CASE n.y = "constant" ->
            [well |-> TRUE, d |-> [k |-> "const", n |-> n.c[1].s, w |-> NumWord(n.c[2].s), s |-> n.c[2].s]]
      [] n.y = "enum_type" ->
            LET m == [ i \in 1..(Len(n.c) - 1) |-> LET v == n.c[i + 1].c
                         IN  [n |-> v[1].s, w |-> NumWord(v[2].s), s |-> v[2].s] ]
            IN  [well |-> \A i \in DOMAIN m : m[i].w # <<>> /\ m[i].w[1] < 128 /\ IsName(m[i].n),
                 d |-> [k |-> "enum", n |-> n.c[1].s, m |-> m]]
      [] n.y = "struct_type" ->
            LET f == [ i \in 1..(Len(n.c) - 1) |-> FieldOf(n.c[i + 1].c) ]
            IN  [well |-> \A i \in DOMAIN f : IsName(f[i].n) /\ (f[i].o => f[i].a = "none"),
                 d |-> [k |-> "struct", n |-> n.c[1].s, f |-> f]]
      [] n.y = "union" ->
            LET a == FoldLeft(ArmStep, [l |-> <<>>, arms |-> <<>>, ok |-> TRUE], SubSeq(n.c, 4, Len(n.c)))
            IN  [well |-> a.ok /\ a.l = <<>>,
                 d |-> [k |-> "union", n |-> n.c[1].s, st |-> NodeType(n.c[2]), sn |-> n.c[3].s, arms |-> a.arms]]
      [] n.y = "typedef" ->
            LET a == Array(SubSeq(n.c, 3, Len(n.c)))
            IN  [well |-> TRUE,
                 d |-> [k |-> "typedef", n |-> n.c[2].s, t |-> NodeType(n.c[1]), a |-> a[1], b |-> a[2]]]

\* events: <<"(", rule>>, <<")">>, <<"word", s>>, <<"basic", t>>
Reduce(stack, ev) ==
    LET n == Len(stack)
        put(node, s) == [s EXCEPT ![Len(s)].c = Append(@, node)]
    IN  CASE ev[1] = "(" -> Append(stack, [y |-> ev[2], c |-> <<>>])
          [] ev[1] = "word" -> put([y |-> "word", s |-> ev[2]], stack)
          [] ev[1] = "basic" -> put([y |-> "basic", t |-> ev[2]], stack)
          [] ev[1] = ")" ->
                LET f == stack[n]
                    \* a constant's name stands for itself
                    node == IF f.y = "ident_const" THEN f.c[1] ELSE f
                IN  put(node, SubSeq(stack, 1, n - 1))

DeclarationOf(events) == Declaration(FoldLeft(Reduce, <<[y |-> "", c |-> <<>>]>>, events)[1].c[1])

(***************************************************************************)
(* The machine                                                             *)
(***************************************************************************)
Skip == [x |-> "skip"]
Cut == [x |-> "cut"]
Close(n) == [x |-> "close", n |-> n]
More(e) == [x |-> "more", e |-> e]

GrammarInit ==
    /\ at = 0
    /\ goals = <<Rule("item")>>
    /\ backs = <<>>
    /\ evs = <<>>
    /\ ph = "run"
    /\ decl = <<>>

Goal == goals[Len(goals)]
Below == SubSeq(goals, 1, Len(goals) - 1)

Go(gs, p, events) ==
    /\ goals' = gs
    /\ at' = p
    /\ evs' = events
    /\ decl' = <<>>
    /\ UNCHANGED <<backs, ph>>

Try(gs, else) ==
    /\ backs' = Append(backs, [goals |-> else, at |-> at, n |-> Len(evs)])
    /\ goals' = gs
    /\ decl' = <<>>
    /\ UNCHANGED <<at, evs, ph>>

FallBack ==
    /\ decl' = <<>>
    /\ IF backs = <<>> THEN ph' = "reject" /\ UNCHANGED <<at, goals, backs, evs>>
       ELSE LET b == backs[Len(backs)]
            IN  /\ goals' = b.goals
                /\ at' = b.at
                /\ evs' = SubSeq(evs, 1, b.n)
                /\ backs' = SubSeq(backs, 1, Len(backs) - 1)
                /\ UNCHANGED ph

\* a sequence's elements, last first, with blank space in between
Unfold(es) == [ i \in 1..(2 * Len(es) - 1) |->
                  IF i % 2 = 1 THEN es[Len(es) - (i - 1) \div 2] ELSE Skip ]

Running == ph = "run" /\ goals # <<>>

Step ==
    /\ Running
    /\ LET g == Goal
       IN  CASE g.x = "lit" -> IF Starts(at, g.s) THEN Go(Below, at + Len(g.s), evs) ELSE FallBack
             [] g.x = "word" ->
                    LET n == RunLen(at, WordChars)
                    IN  IF n > 0 /\ BasicEnd(at) = -1
                        THEN Go(Below, at + n, Append(evs, <<"word", SubSeq(text, at + 1, at + n)>>)) ELSE FallBack
             [] g.x = "digits" ->
                    LET n == RunLen(at, DigitChars)
                    IN  IF n > 0 THEN Go(Below, at + n, Append(evs, <<"word", SubSeq(text, at + 1, at + n)>>)) ELSE FallBack
             [] g.x = "basic" ->
                    LET q == BasicEnd(at)
                    IN  IF q # -1 THEN Go(Below, q, Append(evs, <<"basic", BasicType(at, q)>>)) ELSE FallBack
             [] g.x = "eoi" -> IF at = Size THEN Go(Below, at, evs) ELSE FallBack
             [] g.x = "skip" -> IF IsBlank(at) THEN Go(goals, BlankPiece(at), evs) ELSE Go(Below, at, evs)
             [] g.x = "seq" -> Go(Below \o Unfold(g.es), at, evs)
             [] g.x = "alt" ->
                    IF Len(g.es) = 1 THEN Go(Append(Below, g.es[1]), at, evs)
                    ELSE Try(Below \o <<Cut, g.es[1]>>, Append(Below, Alt(Tail(g.es))))
             [] g.x = "opt" -> Try(Below \o <<Cut, g.e>>, Below)
             [] g.x = "star" -> Try(Below \o <<More(g.e), Cut, g.e>>, Below)
             [] g.x = "plus" -> Go(Below \o <<More(g.e), g.e>>, at, evs)
             [] g.x = "more" -> Try(Below \o <<More(g.e), Cut, g.e, Skip>>, Below)
             [] g.x = "cut" -> /\ backs' = SubSeq(backs, 1, Len(backs) - 1)
                               /\ goals' = Below
                               /\ decl' = <<>>
                               /\ UNCHANGED <<at, evs, ph>>
             [] g.x = "sub" -> Go(Append(Below, GRAMMAR[g.n]), at, evs)
             [] g.x = "rule" ->
                    IF g.n = "item" THEN Go(Append(Below, GRAMMAR[g.n]), at, evs)
                    ELSE Go(Below \o <<Close(g.n), GRAMMAR[g.n]>>, at, Append(evs, <<"(", g.n>>))
             [] g.x = "close" ->
                    IF g.n \in TopLevel
                    THEN /\ decl' = <<DeclarationOf(Append(evs, <<")">>))>>
                         /\ goals' = Below
                         /\ evs' = <<>>
                         /\ UNCHANGED <<at, backs, ph>>
                    ELSE Go(Below, at, Append(evs, <<")">>))

Accept ==
    /\ ph = "run"
    /\ goals = <<>>
    /\ ph' = "accept"
    /\ decl' = <<>>
    /\ UNCHANGED <<at, goals, backs, evs>>

GrammarStep == Step \/ Accept
GrammarVars == <<at, goals, backs, evs, ph, decl>>
=============================================================================
