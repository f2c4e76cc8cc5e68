------------------------------- MODULE XdrPure -------------------------------
(***************************************************************************)
(* Code generation is a function of the declarations (C11).                *)
(*                                                                         *)
(* A group is a family of texts: layouts of the same tokens (line: TRUE)   *)
(* and permutations of the same declarations (line: FALSE).  The grammar   *)
(* machine reads every text of the group.  Those it reads as the           *)
(* declarations of the first one have to yield the items of the first one. *)
(*                                                                         *)
(* Then come the calls of Generator::generate, recorded in several         *)
(* processes, on Generator values of their own, shared, and shared between *)
(* threads.  A Generator has no state: all a call depends on is the text.  *)
(***************************************************************************)
EXTENDS XdrGrammar, Json, IOUtils

\* [id, sup, texts: << [text, line, st, items] >>, calls: << [t, o, by] >>]
GROUPS == TLCEval(ndJsonDeserialize(IOEnv.XDR_CASES))
G == GROUPS[src[1]]
T == G.texts[src[2]]
PureTextOf(s) == GROUPS[s[1]].texts[s[2]].text

VARIABLES
    ds,       \* declarations read in this text
    first,    \* what the first text says: [acc, ds]
    strays,   \* texts that are not read like the first
    wrong,    \* texts whose items are not those of the first
    memo,     \* text -> output, of the calls so far
    turn      \* calls replayed
purevars == <<src, at, goals, backs, evs, ph, decl, ds, first, strays, wrong, memo, turn>>

PureInit ==
    /\ src \in { <<g, 1>> : g \in DOMAIN GROUPS }
    /\ GrammarInit
    /\ ds = <<>>
    /\ first = [acc |-> FALSE, ds |-> <<>>]
    /\ strays = {}
    /\ wrong = {}
    /\ memo = <<>>
    /\ turn = 0

Read ==
    /\ ph = "run"
    /\ GrammarStep
    /\ ds' = (IF decl' = <<>> THEN ds ELSE Append(ds, decl'[1]))
    /\ UNCHANGED <<src, first, strays, wrong, memo, turn>>

Alike(a, b) == a.acc = b.acc /\ IF T.line THEN a.ds = b.ds
                                ELSE Len(a.ds) = Len(b.ds) /\ ToSet(a.ds) = ToSet(b.ds)

\* the text has been read
Compare ==
    /\ ph \in {"accept", "reject"}
    /\ LET r == [acc |-> ph = "accept", ds |-> IF ph = "accept" THEN ds ELSE <<>>]
       IN  IF src[2] = 1 THEN first' = r /\ UNCHANGED <<strays, wrong>>
           ELSE /\ UNCHANGED first
                /\ strays' = (IF Alike(r, first) THEN strays ELSE strays \cup {src[2]})
                /\ wrong' = (IF Alike(r, first) /\ (T.st # G.texts[1].st \/ T.items # G.texts[1].items)
                             THEN wrong \cup {src[2]} ELSE wrong)
    /\ IF src[2] < Len(G.texts)
       THEN /\ src' = <<src[1], src[2] + 1>>
            /\ at' = 0
            /\ goals' = <<Rule("item")>>
            /\ backs' = <<>>
            /\ evs' = <<>>
            /\ decl' = <<>>
            /\ ph' = "run"
       ELSE /\ ph' = "calls"
            /\ UNCHANGED <<src, at, goals, backs, evs, decl>>
    /\ ds' = <<>>
    /\ UNCHANGED <<memo, turn>>

\* memo: a sequence of <<text number, output>>
Before(t) == { i \in DOMAIN memo : memo[i][1] = t }
Call ==
    /\ ph = "calls"
    /\ turn < Len(G.calls)
    /\ turn' = turn + 1
    /\ LET c == G.calls[turn + 1]
           p == Before(c.t)
       IN  IF p = {} THEN memo' = Append(memo, <<c.t, c.o>>) /\ UNCHANGED wrong
           ELSE /\ UNCHANGED memo
                /\ wrong' = (IF \A i \in p : memo[i][2] = c.o THEN wrong ELSE wrong \cup {-(turn + 1)})
    /\ UNCHANGED <<src, at, goals, backs, evs, ph, decl, ds, first, strays>>

Judge ==
    /\ ph = "calls"
    /\ turn = Len(G.calls)
    /\ PrintT("P|" \o ToJson(<<G.id, [strays |-> strays, wrong |-> wrong, acc |-> first.acc, nd |-> Len(first.ds)]>>))
    /\ ph' = "judged"
    /\ UNCHANGED <<src, at, goals, backs, evs, decl, ds, first, strays, wrong, memo, turn>>

\* The rest follows from these: every step is determined.
PureView == <<src, at, goals, backs, ph, turn, Len(evs), Len(ds)>>

PureSpec == PureInit /\ [][Read \/ Compare \/ Call \/ Judge]_purevars

\* one output per text
PureOk == \A i, j \in DOMAIN memo : memo[i][1] = memo[j][1] => i = j
=============================================================================
