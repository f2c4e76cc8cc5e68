------------------------------ MODULE XdrSweep ------------------------------
(***************************************************************************)
(* Calls of the generated decoders for every word in a range.              *)
(*                                                                         *)
(* A sweep is [id, spec, ty, pre, post, segs, runs]: the type ty was given *)
(* pre \o w \o post for every word w of the segments <<lo, hi>>.  What was *)
(* observed is a list of runs: intervals, from a swept word lo to a swept  *)
(* word hi, on all swept words of which every call did the same.  They are *)
(* records as in XdrJudge with lo and hi in addition, and rel1, rel2: the  *)
(* error carries the word w itself (and it is left out of o1, o2).         *)
(*                                                                         *)
(* The machine compares a word only with the words of Special below: the   *)
(* two of bool and of markers, the ones of labels and members, the maxima, *)
(* and as a length with what the buffer holds.  All other words are alike  *)
(* to it, but for an error's payload.  So a run is right for all its words *)
(* when it is for its special words and for the others' first and last,    *)
(* and these are the behaviours explored here, each judged as a call.      *)
(***************************************************************************)
EXTENDS XdrJudge, FiniteSetsExt

SWEEPS == TLCEval(ndJsonDeserialize(IOEnv.XDR_SWEEPS))

Succ(w) ==
    IF w[4] < 255 THEN <<w[1], w[2], w[3], w[4] + 1>>
    ELSE IF w[3] < 255 THEN <<w[1], w[2], w[3] + 1, 0>>
    ELSE IF w[2] < 255 THEN <<w[1], w[2] + 1, 0, 0>>
    ELSE <<(w[1] + 1) % 256, 0, 0, 0>>
Pred(w) ==
    IF w[4] > 0 THEN <<w[1], w[2], w[3], w[4] - 1>>
    ELSE IF w[3] > 0 THEN <<w[1], w[2], w[3] - 1, 255>>
    ELSE IF w[2] > 0 THEN <<w[1], w[2] - 1, 255, 255>>
    ELSE <<(w[1] + 255) % 256, 255, 255, 255>>

ItemBounds(d) == { x.b : x \in ItemsOf(d) }
DeclWords(e, d) ==
    CASE d.k = "const" -> {d.w}
      [] d.k = "enum" -> { d.m[i].w : i \in DOMAIN d.m }
      [] d.k = "union" ->
            LET labels == { d.arms[p[1]].l[p[2]] : p \in { q \in ArmLabels(d) : d.arms[q[1]].l[q[2]].k # "default" } }
                words == { LabelWord(e, l) : l \in labels }
            IN  UNION { IF Len(w) = 8 THEN {SubSeq(w, 1, 4), SubSeq(w, 5, 8)} ELSE {w} : w \in words }
      [] OTHER -> { BoundOf(e, b) : b \in ItemBounds(d) }

Special(s) ==
    LET words == UNION { DeclWords(s.spec, DECL[s.spec][nm]) : nm \in DOMAIN DECL[s.spec] }
    IN  words \cup { Succ(w) : w \in words } \cup { WordOf(n) : n \in 0..(Len(s.post) + 4) }

In(w, r) == LeqWord(r.lo, w) /\ LeqWord(w, r.hi)
Swept(s, w) == \E i \in DOMAIN s.segs : LeqWord(s.segs[i][1], w) /\ LeqWord(w, s.segs[i][2])

SPECIAL == TLCEval([ i \in DOMAIN SWEEPS |-> TLCEval({ w \in Special(SWEEPS[i]) : Swept(SWEEPS[i], w) }) ])

\* The first and the last word of run r that are not special, if there are any.
\* (A swept word that is neither special nor the first of its segment or of
\* the run, nor follows a special word, follows another of its kind.)
STARTS == TLCEval([ i \in DOMAIN SWEEPS |-> LET s == SWEEPS[i] IN
    TLCEval(({ s.segs[k][1] : k \in DOMAIN s.segs } \cup { w \in { Succ(x) : x \in SPECIAL[i] } : Swept(s, w) }) \ SPECIAL[i]) ])
ENDS == TLCEval([ i \in DOMAIN SWEEPS |-> LET s == SWEEPS[i] IN
    TLCEval(({ s.segs[k][2] : k \in DOMAIN s.segs } \cup { w \in { Pred(x) : x \in SPECIAL[i] } : Swept(s, w) }) \ SPECIAL[i]) ])

Others(i, r) ==
    LET up == { w \in STARTS[i] \cup ({r.lo} \ SPECIAL[i]) : In(w, r) }
        down == { w \in ENDS[i] \cup ({r.hi} \ SPECIAL[i]) : In(w, r) }
        least == FoldSet(LAMBDA x, y : IF LeqWord(x, y) THEN x ELSE y, MaxWord, up)
        greatest == FoldSet(LAMBDA x, y : IF LeqWord(x, y) THEN y ELSE x, Zero, down)
    IN  IF up = {} THEN {} ELSE {least, greatest}

\* src: <<sweep, run, word>>
Representatives ==
    UNION { UNION { { <<i, j, w>> : w \in { x \in SPECIAL[i] : In(x, SWEEPS[i].runs[j]) }
                                          \cup Others(i, SWEEPS[i].runs[j]) }
                    : j \in DOMAIN SWEEPS[i].runs } : i \in DOMAIN SWEEPS }

RunOf(s) == SWEEPS[s[1]].runs[s[2]]
SweepSpecOf(s) == SWEEPS[s[1]].spec
SweepInpOf(s) == SWEEPS[s[1]].pre \o s[3] \o SWEEPS[s[1]].post
SweepEofOf(s) == TRUE
SweepQuirkOf(s) == FALSE
SweepObsOf(s) ==
    LET r == RunOf(s)
    IN  [ id |-> <<SWEEPS[s[1]].id, s[2], s[3]>>,
          o1 |-> IF r.rel1 THEN r.o1 \o s[3] ELSE r.o1, toks |-> r.toks, ws |-> r.ws,
          o2 |-> IF r.rel2 THEN r.o2 \o s[3] ELSE r.o2, left |-> r.left, eq |-> r.eq,
          leftok |-> r.leftok, vs |-> r.vs, al |-> r.al, lim |-> r.lim ]

\* The segments are in order, and every swept word is in a run: the runs begin
\* with the first, and after the end of each the next one swept begins another.
Tiled(s) ==
    LET n == Len(s.segs)
        starts == { s.runs[j].lo : j \in DOMAIN s.runs }
        after(w) == { i \in 1..n : LeqWord(s.segs[i][1], w) }
        seg(w) == CHOOSE i \in after(w) : \A k \in after(w) : k <= i
    IN  /\ \A i \in 1..n : LeqWord(s.segs[i][1], s.segs[i][2])
        /\ \A i \in 1..(n - 1) : LeqWord(Succ(s.segs[i][2]), s.segs[i + 1][1]) /\ s.segs[i][2] # MaxWord
        /\ s.segs[1][1] \in starts
        /\ \A j \in DOMAIN s.runs :
              LET r == s.runs[j]
              IN  /\ Swept(s, r.lo) /\ Swept(s, r.hi) /\ LeqWord(r.lo, r.hi)
                  /\ IF r.hi # s.segs[seg(r.hi)][2] THEN Succ(r.hi) \in starts
                     ELSE seg(r.hi) = n \/ s.segs[seg(r.hi) + 1][1] \in starts

ASSUME \A i \in DOMAIN SWEEPS : PrintT("T|" \o ToJson(<<SWEEPS[i].id, Tiled(SWEEPS[i]), Cardinality(SPECIAL[i])>>))

SweepInit ==
    /\ src \in Representatives
    /\ MachineInit(SWEEPS[src[1]].ty)
    /\ JudgeInit

SweepSpec == SweepInit /\ [][JudgeNext]_vars
SweepOk == InBounds
=============================================================================
