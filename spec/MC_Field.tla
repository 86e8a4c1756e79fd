------------------------------ MODULE MC_Field ------------------------------
(***************************************************************************)
(* One field (number 2, or the header) in every configuration with small   *)
(* sizes, every short value and every short wire.                          *)
(***************************************************************************)
EXTENDS Design

Pads == {<<>>, <<48>>, <<70>>, <<97>>}          \* none, "0", "F", "a"
Mk(de, le, lt, ml, nib, lp, rp) ==
  [de |-> de, le |-> le, lt |-> lt, ml |-> ml, nib |-> nib, lp |-> lp, rp |-> rp, desc |-> <<>>]

LenConfigs == {<<0, "ascii">>} \cup ({1, 2} \X {"b", "bcd", "ascii", "cp500"}) \cup {<<2, "utf16be">>, <<4, "utf16be">>}
SmallFields ==
  {Mk(de, lc[2], lc[1], ml, FALSE, <<>>, <<>>) : de \in {"b", "ascii", "cp500", "utf8"}, lc \in LenConfigs, ml \in 0..3}
  \cup {Mk("b", lc[2], lc[1], ml, TRUE, lp, rp) : lc \in LenConfigs, ml \in 0..5, lp \in Pads, rp \in Pads}
  \cup {Mk(de, lc[2], lc[1], ml, TRUE, <<48>>, <<>>) : de \in {"ascii", "utf8"}, lc \in LenConfigs, ml \in 0..5}
  \cup {Mk("?none", "ascii", 1, 3, FALSE, <<>>, <<>>), Mk("ascii", "?none", 1, 3, FALSE, <<>>, <<>>)}
(* fields whose lengths reach the limits of their prefixes *)
LongFields ==
  {Mk(de, lc[2], lc[1], ml, nib, <<48>>, <<>>) : de \in {"b", "ascii"}, lc \in LenConfigs, ml \in {9, 10, 99, 100, 255, 256, 300},
                                                 nib \in BOOLEAN}

(* values: "" 0 9 A a G e-acute superscript-2 *)
Alphabet == {48, 57, 65, 97, 71, 233, 178}
Short == UNION {[1..n -> Alphabet] : n \in 0..3} \cup [1..5 -> {48, 97}]
Long == {TLCEval([i \in 1..n |-> c]) : n \in {9, 10, 11, 18, 20, 99, 100, 101, 198, 200, 202, 255, 256, 257, 300, 510, 511, 512},
                              c \in {48, 65}}

Plain(de, ml) == Mk(de, "ascii", 0, ml, FALSE, <<>>, <<>>)
SpecAt(k, fs) == (H :> (IF k = H THEN fs ELSE Plain("ascii", 0))) @@ (T :> Plain("ascii", 4)) @@ (P :> Plain("b", 8))
                 @@ (1 :> Plain("b", 8)) @@ (2 :> (IF k = 2 THEN fs ELSE Plain("ascii", 1)))
DocAt(k, v) == (T :> <<48, 50, 48, 48>>) @@ (k :> v)

(* wires: prefix bytes, then data bytes *)
PrefixBytes(fs) == CASE fs.le = "b" -> {0, 1, 2, 3, 5, 255}
                     [] fs.le = "bcd" -> {0, 1, 2, 3, 5, 16, 10}
                     [] fs.le = "utf16be" -> {0, 48, 50, 6}
                     [] fs.le = "cp500" -> {240, 241, 242, 243, 245, 64, 49}
                     [] OTHER -> {48, 49, 50, 51, 53, 32, 43}
DataBytes == {0, 15, 240, 18, 65, 250, 195}
Seqs(S, n) == [1..n -> S]
UpTo(S, n) == UNION {Seqs(S, i) : i \in 0..n}
Wires(fs) == {pr \o da : pr \in UpTo(PrefixBytes(fs), fs.lt), da \in UpTo(DataBytes, IF Num("FULL") = 1 THEN 3 ELSE 2)}
WireAt(k, w) == IF k = H THEN w \o <<48, 50, 48, 48>> \o TLCEval([i \in 1..8 |-> 0])
                ELSE <<48, 50, 48, 48, 64>> \o TLCEval([i \in 1..7 |-> 0]) \o w

Places(fs) == IF fs.ml > 0 THEN {2, H} ELSE {2}

MCInit ==
  \/ \E fs \in Pick(Num("SPECS"), SmallFields) : \E v \in Pick(Num("VALUES"), Short) : \E k \in Pick(1, Places(fs)) :
        StartWith(EncInit(SpecAt(k, fs), DocAt(k, v), <<>>))
  \/ \E fs \in Pick(Num("LONG"), LongFields) : \E v \in Pick(12 * Num("LONG"), Long) : \E k \in Pick(1, Places(fs)) :
        StartWith(EncInit(SpecAt(k, fs), DocAt(k, v), <<>>))
  \/ \E fs \in Pick(Num("SPECS"), SmallFields) : \E w \in Pick(Num("WIRES"), Wires(fs)) : \E k \in Pick(1, Places(fs)) :
        StartWith(DecInit(SpecAt(k, fs), WireAt(k, w)))
MCSpec == MCInit /\ [][MCNext]_mcVars
=============================================================================
