------------------------------ MODULE XdrBytes ------------------------------
(***************************************************************************)
(* Bytes, 32-bit words and UTF-8, as RFC 4506 sees them.                   *)
(*                                                                         *)
(* A byte is a number 0..255.  A 32-bit quantity is kept as the sequence   *)
(* of its four bytes ("word"): TLC's integers are 32-bit signed, so        *)
(* 4294967295 does not exist as a number, and most of what XDR does with a *)
(* word (compare it with a label, check it against a maximum) is a         *)
(* comparison of byte sequences anyway.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

BYTE == 0..255
MaxWord == <<255, 255, 255, 255>>
Zero == <<0, 0, 0, 0>>
One == <<0, 0, 0, 1>>

\* w1 <= w2 as unsigned numbers (the words have the same length)
LeqWord(w1, w2) ==
    \/ w1 = w2
    \/ \E i \in 1..Len(w1) :
          /\ w1[i] < w2[i]
          /\ \A j \in 1..(i - 1) : w1[j] = w2[j]

\* A number that no buffer of ours is as long as: words that do not fit a TLC
\* integer are only ever used as lengths and counts, and stand for it.
HUGE == 2147483647

NatOf(w) == IF w[1] > 127 THEN HUGE
            ELSE ((w[1] * 256 + w[2]) * 256 + w[3]) * 256 + w[4]

WordOf(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

\* Sign- and zero-extension to 64 bits
Wide(w) == Zero \o w

Pad(n) == (4 - (n % 4)) % 4

Slice(s, from, n) == SubSeq(s, from + 1, from + n)      \* zero-based offset

(***************************************************************************)
(* Well-formed UTF-8 (Unicode 3.9, table 3-7), as a fold over a small      *)
(* automaton: <<number of continuation bytes still due, least and greatest *)
(* value the next byte may have>>.                                         *)
(***************************************************************************)
Utf8Start == <<0, 0, 255>>
Utf8Dead == <<-1, 0, 0>>

Utf8Step(s, b) ==
    IF s[1] = -1 THEN Utf8Dead
    ELSE IF s[1] > 0 THEN
        IF s[2] <= b /\ b <= s[3] THEN
            IF s[1] = 1 THEN Utf8Start ELSE <<s[1] - 1, 128, 191>>
        ELSE Utf8Dead
    ELSE IF b < 128 THEN Utf8Start
    ELSE IF b \in 194..223 THEN <<1, 128, 191>>
    ELSE IF b = 224 THEN <<2, 160, 191>>
    ELSE IF b = 237 THEN <<2, 128, 159>>
    ELSE IF b \in 225..239 THEN <<2, 128, 191>>
    ELSE IF b = 240 THEN <<3, 144, 191>>
    ELSE IF b \in 241..243 THEN <<3, 128, 191>>
    ELSE IF b = 244 THEN <<3, 128, 143>>
    ELSE Utf8Dead

Utf8Valid(bytes) == FoldLeft(Utf8Step, Utf8Start, bytes)[1] = 0
=============================================================================
