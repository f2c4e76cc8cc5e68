----------------------------- MODULE XdrReaders -----------------------------
(***************************************************************************)
(* The contracts of the runtime's readers and size helpers (property C10). *)
(*                                                                         *)
(* A behaviour is a buffer and a sequence of calls of readers on it: each  *)
(* call either fails, and what it does to the buffer is unspecified (the   *)
(* behaviour ends), or returns a value and removes the bytes of its        *)
(* encoding, padding included, from the front of the buffer.  TLC          *)
(* enumerates the behaviours of the chosen FAMILY exhaustively and prints  *)
(* each with the results the contracts demand; the harness replays them on *)
(* `xdr::DeserialiserExt for Bytes`.                                       *)
(*                                                                         *)
(* Families: "fixed"    integers, floats, bool, read_bytes(n): all n, r    *)
(*           "counted"  read_variable_bytes, read_string, four element     *)
(*                      types of read_variable_array: all n, r, max        *)
(*           "utf8"     strings over an alphabet of UTF-8 boundary bytes   *)
(*           "sequence" up to XDR_DEPTH calls on one buffer                    *)
(*           "size"     wire_size() of values of std types                 *)
(*           "large"    payloads of 255 bytes to 16 MB: buffers and values *)
(*                      are given by their lengths                         *)
(***************************************************************************)
EXTENDS XdrBytes, Json, IOUtils

FAMILY == IOEnv.XDR_FAMILY
N == CHOOSE n \in 0..200 : ToString(n) = IOEnv.XDR_N          \* payload lengths 0..N

VARIABLES
    buf0,     \* the buffer at the start
    at,       \* bytes read
    hist,     \* <<call, result>>, ...
    phase     \* "run", "end", "done"
vars == <<buf0, at, hist, phase>>

Upto(n) == [ i \in 1..n |-> i ]
Filler(from, n) == [ i \in 1..n |-> ((from + i) * 7 + 13) % 251 ]
Letters(from, n) == [ i \in 1..n |-> 97 + ((from + i) % 26) ]

(***************************************************************************)
(* Calls.  [op, n, max]: max is the maximum, or <<>> for None; n the       *)
(* argument of read_bytes, or <<>> (printed "top") for one near the top of *)
(* the address space.  Both are of 4 bytes, or of 8 if it takes more.      *)
(***************************************************************************)
Call(op, n, max) == [op |-> op, n |-> n, max |-> max]
Fails == [ok |-> FALSE, val |-> <<>>, n |-> 0]
Gives(val, n) == [ok |-> TRUE, val |-> val, n |-> n]

Fixed(b, n) == IF Len(b) < n THEN Fails ELSE Gives(<<SubSeq(b, 1, n)>>, n)

Bool(b) ==
    IF Len(b) < 4 THEN Fails
    ELSE LET w == SubSeq(b, 1, 4)
         IN  IF w = Zero \/ w = One THEN Gives(<< <<w[4]>> >>, 4) ELSE Fails

\* n bytes from offset o, padding after them
Payload(b, o, n) ==
    IF n <= Len(b) - o /\ Pad(n) <= Len(b) - o - n
    THEN Gives(<<Slice(b, o, n)>>, o + n + Pad(n)) ELSE Fails

Bytes(b, n) == IF Len(n) # 4 THEN Fails ELSE Payload(b, 0, NatOf(n))

\* the count, if it may be used
Count(b, max) ==
    IF Len(b) < 4 THEN -1
    ELSE IF Len(max) = 4 /\ ~LeqWord(SubSeq(b, 1, 4), max) THEN -1
    ELSE NatOf(SubSeq(b, 1, 4))

VarBytes(b, max) ==
    LET n == Count(b, max) IN IF n < 0 THEN Fails ELSE Payload(b, 4, n)

Str(b, max) ==
    LET r == VarBytes(b, max) IN IF r.ok /\ ~Utf8Valid(r.val[1]) THEN Fails ELSE r

(***************************************************************************)
(* Elements.  "w4", "w8": 4 and 8 bytes; "b1": one byte, not padded (an    *)
(* element type of the caller's own: the array's elements are packed and   *)
(* the array as a whole is padded); "vb": a counted opaque.                *)
(***************************************************************************)
Elem(kind, b) ==
    CASE kind = "w4" -> Fixed(b, 4)
      [] kind = "w8" -> Fixed(b, 8)
      [] kind = "b1" -> Fixed(b, 1)
      [] kind = "vb" -> VarBytes(b, <<>>)

Array(kind, b, max) ==
    LET n == Count(b, max)
        Next(a, i) == IF ~a.ok THEN a
                      ELSE LET r == Elem(kind, SubSeq(b, a.n + 1, Len(b)))
                           IN  IF r.ok THEN Gives(a.val \o r.val, a.n + r.n) ELSE Fails
    IN  IF n < 0 \/ n > Len(b) THEN Fails
        ELSE LET a == FoldLeft(Next, Gives(<<>>, 4), Upto(n))
             IN  IF ~a.ok THEN Fails
                 ELSE IF Pad(a.n) > Len(b) - a.n THEN Fails
                 ELSE Gives(a.val, a.n + Pad(a.n))

Do(c, b) ==
    CASE c.op \in {"u32", "i32", "f32"} -> Fixed(b, 4)
      [] c.op \in {"u64", "i64", "f64"} -> Fixed(b, 8)
      [] c.op = "bool" -> Bool(b)
      [] c.op = "bytes" -> Bytes(b, c.n)
      [] c.op = "vbytes" -> VarBytes(b, c.max)
      [] c.op = "str" -> Str(b, c.max)
      [] OTHER -> Array(c.op, b, c.max)

(***************************************************************************)
(* Buffers and calls of the families                                       *)
(***************************************************************************)
Arrays == {"w4", "w8", "b1", "vb"}
Counted == {"vbytes", "str"} \cup Arrays
Prims == {"u32", "i32", "f32", "u64", "i64", "f64"}

BigWords == { <<128, 0, 0, 0>>, <<127, 255, 255, 255>>, <<255, 255, 255, 255>>, <<255, 255, 255, 252>>,
              <<255, 255, 255, 253>>, <<0, 1, 0, 0>>, <<1, 0, 0, 0>>, <<64, 0, 0, 0>>, <<32, 0, 0, 0>> }
\* beyond every count there is
WideWords == { <<0, 0, 0, 1, 0, 0, 0, 0>>, <<0, 0, 0, 1, 0, 0, 0, 3>>, <<127, 255, 255, 255, 255, 255, 255, 255>>,
               <<128, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 252>>, MaxWord \o MaxWord }
Maxima == { <<>> } \cup { WordOf(m) : m \in 0..(N + 1) }
SomeWords == { <<>>, Zero, WordOf(N), MaxWord }

PrimWords == { Zero, One, MaxWord, <<128, 0, 0, 0>>, <<127, 255, 255, 255>>, <<127, 128, 0, 0>>, <<127, 160, 0, 1>>,
               <<255, 192, 0, 1>>, <<127, 240, 0, 0>>, <<127, 244, 0, 1>>, <<1, 2, 3, 4>>, <<0, 0, 1, 0>>, <<1, 0, 0, 0>>,
               <<0, 1, 0, 0>>, <<128, 0, 0, 1>>, <<2, 0, 0, 0>> }
Boundary == { 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245, 255 }
Boundary4 == { 65, 128, 143, 144, 160, 191, 194, 224, 237, 240, 244 }


Zeros(n) == [ i \in 1..n |-> 0 ]
CountedBytes(op, n, r) ==
    LET pay == CASE op = "str" -> Letters(n, n)
                 [] op = "w4" -> Filler(n, 4 * n)
                 [] op = "w8" -> Filler(n, 8 * n)
                 [] op = "vb" -> FoldLeft(LAMBDA a, i : LET k == (i * 5 + n) % 6
                                           IN  a \o WordOf(k) \o Filler(i, k) \o Zeros(Pad(k)), <<>>, Upto(n))
                 [] OTHER -> Filler(n, n)
        all == WordOf(n) \o pay \o Zeros(Pad(Len(pay))) \o Filler(3, 8)
    IN  SubSeq(all, 1, IF r < Len(all) THEN r ELSE Len(all))

\* remaining lengths for a payload of n: every one up to a word or two more
\* than the encoding takes
Rooms(op, n) ==
    CASE op = "w8" -> 0..(8 * n + 8)
      [] op = "w4" -> 0..(4 * n + 8)
      [] op = "vb" -> 0..(9 * n + 12)
      [] OTHER -> 0..(N + 12)

\* array cells are larger: fewer elements
CountMax(op) == CASE op = "w8" -> N \div 4 [] op = "w4" -> N \div 2 [] op = "vb" -> N \div 4 [] OTHER -> N

FixedCells ==
    { <<Filler(r, r), Call(op, <<>>, <<>>)>> : op \in Prims \cup {"bool"}, r \in 0..20 }
    \cup { <<w \o v \o Filler(0, 3), Call(op, <<>>, <<>>)>> : op \in Prims \cup {"bool"}, w \in PrimWords, v \in {Zero, MaxWord, <<128, 0, 0, 1>>} }
    \cup { <<Filler(r, n) \o Zeros(r - n), Call("bytes", WordOf(n), <<>>)>> : n \in 0..N, r \in 0..(N + 8) }
    \cup { <<Filler(r, r), Call("bytes", w, <<>>)>> : w \in BigWords \cup {<<>>} \cup WideWords, r \in 0..9 }

BigCells ==
    { <<w \o Filler(r, r), Call(op, <<>>, m)>> : w \in BigWords, r \in 0..9, op \in Counted, m \in {<<>>, MaxWord, WordOf(3)} \cup WideWords }
    \cup { <<CountedBytes(op, n, 99), Call(op, <<>>, w)>> : w \in BigWords \cup WideWords, n \in 0..5, op \in Counted }

\* a maximum counts bytes, not characters
Chars == { <<65>>, <<0>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>> }
CharStrings == UNION { { FlattenSeq(f) : f \in [1..k -> Chars] } : k \in 0..4 }
MaxCells ==
    { <<WordOf(Len(s)) \o s \o Zeros(Pad(Len(s))) \o Filler(1, 4), Call("str", <<>>, WordOf(m))>> :
        s \in CharStrings, m \in 0..17 }

Utf8Cells ==
    { <<WordOf(Len(s)) \o s \o Zeros(Pad(Len(s))) \o Filler(1, 4), Call("str", <<>>, <<>>)>> :
        s \in [1..1 -> BYTE] \cup [1..2 -> Boundary] \cup [1..3 -> Boundary] \cup [1..4 -> Boundary4] }
    \cup MaxCells


SeqWords == { Zero, One, WordOf(3), WordOf(5), MaxWord }
SeqCalls == { Call(op, <<>>, <<>>) : op \in {"u32", "i64", "bool", "vbytes", "str", "w4", "b1", "vb"} }
            \cup { Call("bytes", WordOf(n), <<>>) : n \in {0, 1, 4, 5} }
            \cup { Call(op, <<>>, WordOf(2)) : op \in {"vbytes", "w4"} }
SeqBufs == { w \o v \o x \o t : w \in SeqWords, v \in SeqWords, x \in {<<>>} \cup SeqWords, t \in {<<>>, <<7>>, <<7, 0, 9>>} }
DEPTH == IF FAMILY = "sequence" THEN CHOOSE d \in 1..9 : ToString(d) = IOEnv.XDR_DEPTH ELSE 1

(***************************************************************************)
(* wire_size(): the size of the encoding of a value of a std type.  lens:  *)
(* the lengths of the strings and vectors it is made of.                   *)
(***************************************************************************)
Padded(n) == n + Pad(n)
Sum(f) == FoldLeft(LAMBDA a, x : a + x, 0, f)
SizeOf(ty, l) ==
    CASE ty \in {"u32", "i32", "f32", "bool", "box_u32"} -> 4
      [] ty \in {"u64", "i64", "f64"} -> 8
      [] ty \in {"string", "box_string", "vec_u8", "box_vec_u8"} -> 4 + Padded(l[1])
      [] ty = "slice_u8" -> Padded(l[1])
      [] ty \in {"vec_u32", "vec_bool", "vec_f32"} -> 4 + 4 * l[1]
      [] ty \in {"vec_u64", "vec_f64"} -> 4 + 8 * l[1]
      [] ty = "slice_u32" -> 4 * l[1]
      [] ty = "slice_i64" -> 8 * l[1]
      [] ty = "opt_u32" -> IF l = <<>> THEN 4 ELSE 8
      [] ty = "opt_box_u64" -> IF l = <<>> THEN 4 ELSE 12
      [] ty = "opt_string" -> IF l = <<>> THEN 4 ELSE 8 + Padded(l[1])
      [] ty = "opt_opt_bool" -> IF l = <<>> THEN 4 ELSE IF l[1] = 0 THEN 8 ELSE 12
      [] ty \in {"vec_string", "vec_vec_u8"} -> 4 + Sum([ i \in DOMAIN l |-> 4 + Padded(l[i]) ])
      [] ty = "slice_string" -> Sum([ i \in DOMAIN l |-> 4 + Padded(l[i]) ])
      [] ty = "vec_opt_u32" -> 4 + Sum([ i \in DOMAIN l |-> IF l[i] = 0 THEN 4 ELSE 8 ])
      [] ty = "vec_vec_u32" -> 4 + Sum([ i \in DOMAIN l |-> 4 + 4 * l[i] ])

Large == {255, 256, 257, 1023, 1024, 4095, 4096, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 131071, 262145,
          1048577, 16777213, 16777216, 16777219}
One1 == [1..1 -> 0..(N + 1) \cup Large]
None0 == {<<>>}
SizeArgs ==
    [ ty \in {"u32", "i32", "f32", "bool", "box_u32", "u64", "i64", "f64"} |-> None0 ]
    @@ [ ty \in {"string", "box_string", "vec_u8", "box_vec_u8", "slice_u8", "vec_u32", "vec_bool", "vec_f32",
                 "vec_u64", "vec_f64", "slice_u32", "slice_i64"} |-> One1 ]
    @@ [ ty \in {"opt_u32", "opt_box_u64", "opt_opt_bool"} |-> None0 \cup [1..1 -> 0..1] ]
    @@ [ ty \in {"opt_string"} |-> None0 \cup One1 ]
    @@ [ ty \in {"vec_string", "vec_vec_u8", "slice_string", "vec_vec_u32"} |-> UNION { [1..k -> 0..5] : k \in 0..3 } ]
    @@ [ ty \in {"vec_opt_u32"} |-> UNION { [1..k -> 0..1] : k \in 0..5 } ]
SizeCells == UNION { { <<l, Call(ty, <<>>, <<>>)>> : l \in SizeArgs[ty] } : ty \in DOMAIN SizeArgs }

(***************************************************************************)
(* Large payloads.  A cell is [op, n, r, max, ok, len, took]: a count of n *)
(* (bytes or elements) and r bytes after it, read under a maximum.         *)
(***************************************************************************)
Unit(op) == CASE op = "w4" -> 4 [] op = "w8" -> 8 [] OTHER -> 1
CountSize(op) == IF op = "bytes" THEN 0 ELSE 4
BigResult(op, n, r, max) ==
    LET size == n * Unit(op)
        good == (Len(max) # 4 \/ LeqWord(WordOf(n), max)) /\ Padded(size) <= r
    IN  [op |-> op, n |-> n, r |-> r, max |-> max, ok |-> good,
         len |-> IF good THEN size ELSE 0, took |-> IF good THEN CountSize(op) + Padded(size) ELSE 0]
BigMaxima(op, n) == IF op = "bytes" THEN {<<>>}
                    ELSE {<<>>, MaxWord, <<0, 0, 255, 255>>, <<0, 1, 0, 0>>, MaxWord \o MaxWord, <<0, 0, 0, 1, 0, 0, 0, 1>>} \cup { WordOf(m) : m \in (n - 1)..(n + 1) }
BigRooms(size) == { Padded(size) - 4, Padded(size) - 1, Padded(size), Padded(size) + 5, size, size - 1 }
LargeCells ==
    UNION { UNION { { BigResult(op, n, r, m) : r \in BigRooms(n * Unit(op)), m \in BigMaxima(op, n) } :
                n \in { x \in Large : x * Unit(op) <= (IF N > 100 THEN 17000000 ELSE 600000) } } :
        op \in {"bytes", "vbytes", "str", "b1", "w4", "w8"} }

(***************************************************************************)
(* Behaviours                                                              *)
(***************************************************************************)
\* the first call is part of the initial state: hist = <<call, pending>>
Start(cell) == /\ buf0 = cell[1]
               /\ hist = << <<cell[2], Do(cell[2], cell[1])>> >>
               /\ at = hist[1][2].n

Init ==
    /\ phase = "run"
    /\ CASE FAMILY = "fixed" -> \E c \in FixedCells \cup BigCells : Start(c)
         [] FAMILY = "counted" ->
                \E op \in Counted, m \in Maxima : \E n \in 0..CountMax(op) : \E r \in Rooms(op, n) :
                    Start(<<CountedBytes(op, n, r), Call(op, <<>>, m)>>)
         [] FAMILY = "utf8" -> \E c \in Utf8Cells : Start(c)
         [] FAMILY = "sequence" -> \E b \in SeqBufs, c \in SeqCalls : Start(<<b, c>>)
         [] FAMILY = "size" -> \E c \in SizeCells :
                buf0 = c[1] /\ hist = << <<c[2], Gives(<<>>, SizeOf(c[2].op, c[1]))>> >> /\ at = 0
         [] FAMILY = "large" -> \E c \in LargeCells : buf0 = <<c>> /\ hist = << <<c, Fails>> >> /\ at = 0

LastFailed == ~hist[Len(hist)][2].ok

CallAgain ==
    /\ phase = "run"
    /\ Len(hist) < DEPTH
    /\ ~LastFailed
    /\ \E c \in SeqCalls :
          LET r == Do(c, SubSeq(buf0, at + 1, Len(buf0)))
          IN  hist' = Append(hist, <<c, r>>) /\ at' = at + r.n
    /\ UNCHANGED <<buf0, phase>>

\* print the behaviour once, complete
Emit ==
    /\ phase = "run"
    /\ Len(hist) = DEPTH \/ LastFailed
    /\ IF FAMILY = "large" THEN PrintT("B|" \o ToJson(buf0)) ELSE PrintT("B|" \o ToJson(<<buf0, [ i \in DOMAIN hist |->
            <<hist[i][1].op, hist[i][1].n, hist[i][1].max, hist[i][2].ok, hist[i][2].val, hist[i][2].n>> ]>>))
    /\ phase' = "done"
    /\ UNCHANGED <<buf0, at, hist>>

Next == CallAgain \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the contracts say, on the model itself                             *)
(***************************************************************************)
\* a reader never takes more than there is, and whole words only; what it
\* returns lies inside of what it takes
Contract ==
    FAMILY \notin {"size", "large"} =>
        /\ at <= Len(buf0)
        /\ \A i \in DOMAIN hist :
              LET r == hist[i][2] IN r.ok =>
                /\ r.n % 4 = 0
                /\ Sum([ j \in DOMAIN r.val |-> Len(r.val[j]) ]) <= r.n
LargeContract ==
    FAMILY = "large" => LET c == buf0[1] IN c.ok => c.took % 4 = 0 /\ c.len <= c.took /\ c.took <= CountSize(c.op) + c.r
=============================================================================
