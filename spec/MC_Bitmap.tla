----------------------------- MODULE MC_Bitmap -----------------------------
(***************************************************************************)
(* Bitmaps: every field alone, every pair of fields (sampled), every set   *)
(* of fields around the edges of the three bitmaps, all fields but one;    *)
(* stale bitmap keys in the caller's dictionary; every encoding of the     *)
(* primary and of the secondary bitmap; bitmaps announcing anything.       *)
(***************************************************************************)
EXTENDS Design

Flat(de, ml) == [de |-> de, le |-> "ascii", lt |-> 0, ml |-> ml, nib |-> FALSE, lp |-> <<>>, rp |-> <<>>, desc |-> <<>>]
Size(be) == IF be = "b" THEN 8 ELSE 16
BmEncs == {"b", "ascii", "cp500", "utf8", "cp037"}
SpecFor(hl, pe, se, F) ==
  (H :> Flat("ascii", hl)) @@ (T :> Flat("ascii", 4)) @@ (P :> Flat(pe, Size(pe))) @@ (1 :> Flat(se, Size(se)))
  @@ TLCEval([k \in F |-> Flat("ascii", 1)])

Edges == {2, 63, 64, 66, 128, 129, 130, 192}
All   == FieldKeys \ {65}
(* one byte repeated at the head or the tail of a bitmap *)
Texture(b, c, tail, off) == {k \in All : /\ k > off /\ k <= off + 64
                                         /\ IF tail THEN k > off + 8 * (8 - c) ELSE k <= off + 8 * c
                                         /\ (b \div (2 ^ (7 - ((k - 1) % 8)))) % 2 = 1}
Textures == {Texture(b, c, tail, off) : b \in {1, 2, 9, 10, 15, 32, 48, 64, 128, 170, 240, 255}, c \in 2..7, tail \in BOOLEAN, off \in {0, 64, 128}}
FieldSets(n) == CASE n = 1 -> SUBSET Edges
                  [] n = 2 -> {{i} : i \in All}
                  [] n = 3 -> {{i, j} : i, j \in All}
                  [] n = 6 -> Textures
                  [] n = 4 -> {All \ {i} : i \in All}
                  [] n = 5 -> {{i \in All : lo <= i /\ i <= hi} : lo, hi \in {2, 3, 8, 9, 64, 66, 67, 72, 128, 129, 130, 191, 192}}

Junk == <<74, 85>>
Ones == [i \in 1..16 |-> 70]
Stales == {<<>>, (P :> Ones), (1 :> Ones), (65 :> Junk), (P :> Junk) @@ (1 :> Junk) @@ (65 :> Junk), (1 :> NotText), (65 :> <<>>) @@ (1 :> <<>>)}

DocFor(F, hl, st) == (T :> <<48, 50, 48, 48>>) @@ TLCEval([k \in F |-> <<48 + (k % 75)>>])
                     @@ (IF hl > 0 THEN (H :> [i \in 1..hl |-> 72]) ELSE <<>>) @@ st

Lower(tx) == TLCEval([i \in 1..Len(tx) |-> IF 65 <= tx[i] /\ tx[i] <= 90 THEN tx[i] + 32 ELSE tx[i]])
(* the text of a bitmap: upper case, lower case or spoiled *)
Style(tx, n) == CASE n = 2 -> Lower(tx)
                  [] n = 3 -> [tx EXCEPT ![3] = 71]
                  [] n = 4 -> [tx EXCEPT ![16] = 32]
                  [] n = 5 -> [tx EXCEPT ![1] = 43]
                  [] OTHER -> tx
Bits(fs, B, off, style) == IF fs.de = "b" THEN BitmapOf(B, off)
                           ELSE EncodeText(fs.de, Style(HexOf(BitmapOf(B, off)), style)).v

(* B: bits announced, 1 and 65 included *)
WireFor(sp, B, style, tail) ==
  LET eff == {k \in B : k <= 64 \/ 1 \in B}
      eff2 == {k \in eff : k <= 128 \/ 65 \in eff}
      F == eff2 \ {1, 65}
  IN [i \in 1..sp[H].ml |-> 72] \o <<48, 50, 48, 48>>
     \o Bits(sp[P], B, 0, style)
     \o (IF 1 \in B THEN Bits(sp[1], B, 64, IF style > 5 THEN style - 5 ELSE 1) ELSE <<>>)
     \o (IF 1 \in B /\ 65 \in B THEN Bits(sp[1], B, 128, IF style > 10 THEN style - 10 ELSE 1) ELSE <<>>)
     \o (LET n == Cardinality(F) + tail IN IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> 65 + (i % 26)])

Markers == {{}, {1}, {1, 65}, {65}}
Styles == {1, 1, 2, 3, 4, 5, 7, 8, 12, 14}

MCInit ==
  \E n \in 1..6 : \E F \in Pick(IF n \in {4, 5} THEN 1 + Num("SETS") \div 60 ELSE Num("SETS"), FieldSets(n)) :
  \E pe \in Pick(IF n \in {4, 5} THEN 1 ELSE 3, BmEncs) : \E se \in (IF n \in {4, 5} THEN {} ELSE {pe}) \cup Pick(1, BmEncs) : \E hl \in Pick(1, {0, 3}) :
    \/ \E st \in Pick(IF n \in {4, 5} THEN 1 ELSE 2, Stales) : StartWith(EncInit(SpecFor(hl, pe, se, F), DocFor(F, hl, st), <<>>))
    \/ n \notin {4, 5} /\ \E M \in Pick(2, Markers) : \E style \in {1} \cup Pick(1, Styles) : \E tail \in {0} \cup Pick(1, {-1, 1}) :
       \E sp \in {SpecFor(hl, pe, se, F)} : StartWith(DecInit(sp, WireFor(sp, F \cup M, style, tail)))
    \* the marker bits as the fields call for them
    \/ \E sp \in {SpecFor(hl, pe, se, F)} : \E style \in Pick(1, Styles) :
         StartWith(DecInit(sp, WireFor(sp, F \cup (IF HasSecondary(F) THEN {1} ELSE {}) \cup (IF HasTertiary(F) THEN {65} ELSE {}), style, 0)))
MCSpec == MCInit /\ [][MCNext]_mcVars
=============================================================================
