------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Bytes, text and numbers on an ISO 8583 wire.                            *)
(*                                                                         *)
(* bytes  = Seq(0..255)         text = Seq(code points)                    *)
(* A codec is one of the names in SingleByte, "utf8", "utf16be"; any other *)
(* name is an encoding that does not exist.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Codepages

Tab == [ascii |-> Tab_ascii, latin1 |-> Tab_latin1, cp500 |-> Tab_cp500,
        cp037 |-> Tab_cp037, cp1252 |-> Tab_cp1252, koi8r |-> Tab_koi8r,
        cp437 |-> Tab_cp437, cp273 |-> Tab_cp273]

SingleByte == {"ascii", "latin1", "cp500", "cp037", "cp1252", "koi8r", "cp437", "cp273"}
Codecs     == SingleByte \cup {"utf8", "utf16be"}
Failing    == "fails"         \* an encoding that exists and converts nothing

InvTab(t) == TLCEval([c \in {t[i] : i \in 1..256} \ {-1} |->
                        (CHOOSE i \in 1..256 : t[i] = c) - 1])
Inv == TLCEval([c \in SingleByte |-> InvTab(Tab[c])])
InvDom == TLCEval([c \in SingleByte |-> DOMAIN Inv[c]])

(* bytes k, k+1, ..., k+n-1 (0-based k), fewer at the end of s *)
Slice(s, k, n) == SubSeq(s, k + 1, IF k + n < Len(s) THEN k + n ELSE Len(s))

RECURSIVE FlattenBytes(_)
FlattenBytes(ss) == IF Len(ss) <= 24 THEN FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
                    ELSE FlattenBytes(SubSeq(ss, 1, Len(ss) \div 2)) \o FlattenBytes(SubSeq(ss, Len(ss) \div 2 + 1, Len(ss)))

NotText == <<-1>>            \* a dictionary value that is not a text string

(*------------------------------- UTF-8 ------------------------------------*)
Utf8Dec(bs) ==
  LET step(a, b) ==
        IF ~a.ok THEN a
        ELSE IF a.need = 0 THEN
          CASE b < 128              -> [a EXCEPT !.v = Append(@, b)]
            [] b >= 194 /\ b <= 223 -> [a EXCEPT !.need = 1, !.acc = b - 192, !.lo = 128]
            [] b >= 224 /\ b <= 239 -> [a EXCEPT !.need = 2, !.acc = b - 224, !.lo = 2048]
            [] b >= 240 /\ b <= 244 -> [a EXCEPT !.need = 3, !.acc = b - 240, !.lo = 65536]
            [] OTHER                -> [a EXCEPT !.ok = FALSE]
        ELSE IF b < 128 \/ b > 191 THEN [a EXCEPT !.ok = FALSE]
        ELSE LET c == a.acc * 64 + (b - 128) IN
             IF a.need > 1 THEN [a EXCEPT !.need = @ - 1, !.acc = c]
             ELSE IF c < a.lo \/ c > 1114111 \/ (c >= 55296 /\ c <= 57343)
                  THEN [a EXCEPT !.ok = FALSE]
                  ELSE [a EXCEPT !.need = 0, !.acc = 0, !.v = Append(@, c)]
      r == FoldLeft(step, [ok |-> TRUE, v |-> <<>>, need |-> 0, acc |-> 0, lo |-> 0], bs)
  IN [ok |-> r.ok /\ r.need = 0, v |-> r.v]

Utf8Chr(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Surrogate(c) == c >= 55296 /\ c <= 57343

(*------------------------------- UTF-16 BE --------------------------------*)
Utf16Dec(bs) ==
  IF Len(bs) % 2 = 1 THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET u == TLCEval([i \in 1..(Len(bs) \div 2) |-> bs[2*i - 1] * 256 + bs[2*i]])
           step(a, w) ==
             IF ~a.ok THEN a
             ELSE IF a.hi = 0
                  THEN IF w >= 55296 /\ w <= 56319 THEN [a EXCEPT !.hi = w]
                       ELSE IF Surrogate(w) THEN [a EXCEPT !.ok = FALSE]
                       ELSE [a EXCEPT !.v = Append(@, w)]
                  ELSE IF w >= 56320 /\ w <= 57343
                       THEN [a EXCEPT !.hi = 0,
                             !.v = Append(@, 65536 + (a.hi - 55296) * 1024 + (w - 56320))]
                       ELSE [a EXCEPT !.ok = FALSE]
           r == FoldLeft(step, [ok |-> TRUE, v |-> <<>>, hi |-> 0], u)
       IN [ok |-> r.ok /\ r.hi = 0, v |-> r.v]

Utf16Chr(c) ==
  IF c < 65536 THEN <<c \div 256, c % 256>>
  ELSE LET d == c - 65536
           h == 55296 + (d \div 1024)
           l == 56320 + (d % 1024)
       IN <<h \div 256, h % 256, l \div 256, l % 256>>

(*--------------------------- text <-> bytes -------------------------------*)
(* why: "" converted, "codec" unknown encoding, "badtext" not convertible   *)
AreBytes(bs) == \A i \in 1..Len(bs) : bs[i] >= 0 /\ bs[i] <= 255

DecodeText(codec, bs) ==
  IF ~AreBytes(bs)            \* something observed in place of bytes
  THEN [ok |-> FALSE, v |-> <<>>, why |-> IF codec \in Codecs \cup {Failing} THEN "badtext" ELSE "codec"]
  ELSE IF codec \in SingleByte THEN
    LET t == Tab[codec]
        v == TLCEval([i \in 1..Len(bs) |-> t[bs[i] + 1]])
    IN IF \A i \in 1..Len(bs) : t[bs[i] + 1] # -1
       THEN [ok |-> TRUE, v |-> v, why |-> ""]
       ELSE [ok |-> FALSE, v |-> <<>>, why |-> "badtext"]
  ELSE IF codec = "utf8" THEN
    LET r == Utf8Dec(bs) IN [ok |-> r.ok, v |-> r.v, why |-> IF r.ok THEN "" ELSE "badtext"]
  ELSE IF codec = "utf16be" THEN
    LET r == Utf16Dec(bs) IN [ok |-> r.ok, v |-> r.v, why |-> IF r.ok THEN "" ELSE "badtext"]
  ELSE [ok |-> FALSE, v |-> <<>>, why |-> IF codec = Failing THEN "badtext" ELSE "codec"]

EncodeText(codec, tx) ==
  IF tx = NotText THEN [ok |-> FALSE, v |-> <<>>, why |-> "badtext"]
  ELSE IF codec \in SingleByte THEN
    LET t == Inv[codec] IN
    IF \A i \in 1..Len(tx) : tx[i] \in InvDom[codec]
    THEN [ok |-> TRUE, v |-> TLCEval([i \in 1..Len(tx) |-> t[tx[i]]]), why |-> ""]
    ELSE [ok |-> FALSE, v |-> <<>>, why |-> "badtext"]
  ELSE IF codec \in {"utf8", "utf16be"} THEN
    IF \E i \in 1..Len(tx) : Surrogate(tx[i])
    THEN [ok |-> FALSE, v |-> <<>>, why |-> "badtext"]
    ELSE [ok |-> TRUE, why |-> "",
          v |-> FlattenBytes(TLCEval([i \in 1..Len(tx) |->
                  IF codec = "utf8" THEN Utf8Chr(tx[i]) ELSE Utf16Chr(tx[i])]))]
  ELSE [ok |-> FALSE, v |-> <<>>, why |-> IF codec = Failing THEN "badtext" ELSE "codec"]

(*-------------------------------- hex -------------------------------------*)
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE -1
HexDig(n) == IF n < 0 THEN 63 ELSE IF n < 10 THEN 48 + n ELSE 55 + n           \* upper case
IsHex(tx) == \A i \in 1..Len(tx) : HexVal(tx[i]) # -1
HexOf(bs) == TLCEval([i \in 1..(2 * Len(bs)) |->
                LET b == bs[(i + 1) \div 2]
                IN HexDig(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)])
BytesOfHex(tx) == TLCEval([i \in 1..(Len(tx) \div 2) |-> HexVal(tx[2*i - 1]) * 16 + HexVal(tx[2*i])])
Upper(tx) == TLCEval([i \in 1..Len(tx) |-> IF tx[i] >= 97 /\ tx[i] <= 122 THEN tx[i] - 32 ELSE tx[i]])

(*------------------------------ decimals ----------------------------------*)
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<n>> ELSE Append(Dec(n \div 10), n % 10)
ZeroPad(d, w) == IF Len(d) >= w THEN d ELSE TLCEval([i \in 1..(w - Len(d)) |-> 0]) \o d
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ Head(d) = 0 THEN StripZeros(Tail(d)) ELSE d
DecStr(d) == FoldLeft(LAMBDA a, x : a \o ToString(x), "", d)

(* Lengths may exceed TLC's integers: Sat is an upper bound stand-in that is *)
(* larger than any maximum length; the digits are kept for messages.         *)
Sat == 1000000000
DigitsValue(d) == IF Len(d) > 9 THEN Sat ELSE FoldLeft(LAMBDA a, x : a * 10 + x, 0, d)
(* decimal digits of the big-endian number bs *)
RECURSIVE MulAdd(_, _, _)
MulAdd(d, m, c) ==          \* d * m + c on decimal digits
  IF d = <<>> THEN IF c = 0 THEN <<>> ELSE Dec(c)
  ELSE LET x == d[Len(d)] * m + c
       IN Append(MulAdd(SubSeq(d, 1, Len(d) - 1), m, x \div 10), x % 10)
BinDigits(bs) == StripZeros(<<0>> \o FoldLeft(LAMBDA a, b : MulAdd(a, 256, b), <<>>, bs))

RECURSIVE ToBase256(_, _)
ToBase256(n, w) == IF w = 0 THEN <<>> ELSE Append(ToBase256(n \div 256, w - 1), n % 256)
FitsBase256(n, w) == IF w = 1 THEN n < 256 ELSE IF w = 2 THEN n < 65536
                     ELSE IF w = 3 THEN n < 16777216 ELSE w >= 4

(*--------------------------- length prefixes ------------------------------*)
(* The prefix announcing n in encoding le and w bytes.                       *)
LenPrefix(le, w, n) ==
  IF le = "b" THEN
    IF FitsBase256(n, w) THEN [ok |-> TRUE, v |-> ToBase256(n, w), why |-> ""]
    ELSE [ok |-> FALSE, v |-> <<>>, why |-> "lenfit"]
  ELSE IF le = "bcd" THEN
    LET d == ZeroPad(Dec(n), 2 * w)
    IN IF Len(d) > 2 * w THEN [ok |-> FALSE, v |-> <<>>, why |-> "lenfit"]
       ELSE [ok |-> TRUE, v |-> BytesOfHex(TLCEval([i \in 1..Len(d) |-> 48 + d[i]])), why |-> ""]
  ELSE
    LET d == ZeroPad(Dec(n), w)
        e == EncodeText(le, TLCEval([i \in 1..Len(d) |-> 48 + d[i]]))
    IN IF ~e.ok THEN [ok |-> FALSE, v |-> <<>>, why |-> IF e.why = "codec" THEN "lencodec" ELSE "lenbad"]
       ELSE IF Len(e.v) > w THEN [ok |-> FALSE, v |-> <<>>, why |-> "lenfit"]
       ELSE [ok |-> TRUE, v |-> e.v, why |-> ""]

(* The number announced by prefix bs (all of its bytes present, w >= 1).     *)
ParseLen(le, bs) ==
  IF le = "b" THEN
    LET d == BinDigits(bs) IN [ok |-> TRUE, n |-> DigitsValue(d), d |-> d, why |-> ""]
  ELSE IF le = "bcd" THEN
    LET h == HexOf(bs)
        d == StripZeros(TLCEval([i \in 1..Len(h) |-> HexVal(h[i])]))
    IN IF \A i \in 1..Len(h) : IsDigit(h[i])
       THEN [ok |-> TRUE, n |-> DigitsValue(d), d |-> d, why |-> ""]
       ELSE [ok |-> FALSE, n |-> 0, d |-> <<>>, why |-> "lenbcd"]
  ELSE
    LET t == DecodeText(le, bs)
        d == StripZeros(TLCEval([i \in 1..Len(t.v) |-> t.v[i] - 48]))
    IN IF ~t.ok THEN [ok |-> FALSE, n |-> 0, d |-> <<>>,
                      why |-> IF t.why = "codec" THEN "lencodec" ELSE "lentext"]
       ELSE IF Len(t.v) > 0 /\ \A i \in 1..Len(t.v) : IsDigit(t.v[i])
       THEN [ok |-> TRUE, n |-> DigitsValue(d), d |-> d, why |-> ""]
       ELSE [ok |-> FALSE, n |-> 0, d |-> <<>>, why |-> "lennum"]
=============================================================================
