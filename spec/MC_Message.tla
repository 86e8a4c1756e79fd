----------------------------- MODULE MC_Message -----------------------------
(***************************************************************************)
(* Whole messages: header, type, bitmaps and fields 2, 66 and 130 under    *)
(* specifications that may lack any of them.                               *)
(*   encode: every combination of absent, good, too long, inconvertible    *)
(*   and non-text values, stale bitmap keys and dictionary key problems;   *)
(*   decode: every good message with every truncation, every extension and *)
(*   every replacement of one byte.                                        *)
(***************************************************************************)
EXTENDS Design

Mk(de, le, lt, ml, nib, lp) ==
  [de |-> de, le |-> le, lt |-> lt, ml |-> ml, nib |-> nib, lp |-> lp, rp |-> <<>>, desc |-> <<>>]
Flat(de, ml) == Mk(de, "ascii", 0, ml, FALSE, <<>>)

Headers == {Flat("ascii", 0),                        \* none
            Mk("ascii", "ascii", 2, 0, FALSE, <<>>), \* disabled, prefix or not
            Flat("ascii", 2),
            Mk("b", "b", 1, 3, FALSE, <<>>)}
TypeEncs == {"ascii", "b", "cp500"}
BitmapEncs == {"b", "ascii", "cp500"}
F2   == Mk("ascii", "ascii", 1, 3, FALSE, <<>>)
F66  == Mk("b", "bcd", 1, 3, TRUE, <<48>>)
F130 == Flat("utf8", 2)

BitmapSize(be) == IF be = "b" THEN 8 ELSE 16
FullSpec(h, te, be, ce) ==
  (H :> h) @@ (T :> Flat(te, 4)) @@ (P :> Flat(be, BitmapSize(be))) @@ (1 :> Flat(ce, BitmapSize(ce)))
  @@ (2 :> F2) @@ (66 :> F66) @@ (130 :> F130)

(* values: 0 absent, 1 good, 2 too long, 3 inconvertible, 4 not text *)
Values(fs, k) ==
  CASE k = H -> IF fs.de = "b" THEN <<<<48, 65, 49, 98>>, <<48, 48, 48, 48, 48, 48, 48, 48>>, <<48, 71>>, NotText>>
                ELSE <<<<72, 104>>, <<72, 72, 72>>, <<72, 233>>, NotText>>
    [] k = T -> <<<<48, 50, 48, 48>>, <<48, 50, 48, 48, 48, 48>>, IF fs.de = "b" THEN <<48, 50, 71, 48>> ELSE <<48, 50, 48, 8364>>, NotText>>
    [] k = 2 -> <<<<65, 98>>, <<65, 66, 67, 68>>, <<8364>>, NotText>>
    [] k = 66 -> <<<<49, 50, 97>>, <<49, 50, 51, 52, 53>>, <<49, 103>>, NotText>>
    [] OTHER -> <<<<233>>, <<97, 98, 99>>, <<55296>>, NotText>>
Keys == {H, T, 2, 66, 130}
DocFor(sp, ch, stale) ==
  TLCEval([k \in {j \in Keys : ch[j] # 0} |-> Values(sp[k], k)[ch[k]]]) @@ stale

Junk == <<74, 85, 78, 75>>
Stales == {<<>>, (P :> Junk), (1 :> Junk), (65 :> Junk), (1 :> NotText) @@ (65 :> NotText) @@ (P :> NotText),
           (0 :> Junk), (193 :> Junk), (193 :> Junk) @@ (0 :> Junk) @@ (1000 :> Junk)}
Str(v) == [t |-> "str", v |-> v]
Extras == {<<>>, <<Str(<<120>>)>>, <<Str(<<48, 50>>)>>, <<Str(<<178>>)>>, <<Str(<<1635>>)>>, <<Str(<<45, 49>>)>>,
           <<Str(<<>>)>>, <<[t |-> "obj", v |-> <<53>>]>>, <<Str(<<48, 48>>), Str(<<50, 46, 48>>)>>,
           <<[t |-> "obj", v |-> <<50>>], Str(<<32, 50>>)>>}
Missing(n) == CASE n = 1 -> {1} [] n = 2 -> {2} [] n = 3 -> {66} [] n = 4 -> {130} [] n = 5 -> {1, 66} [] OTHER -> {}

Picks == [Keys -> 0..4]
(* at most one or two things wrong: the good ones are worth most *)
Wrong(ch) == Cardinality({k \in Keys : ch[k] > 1 \/ (ch[k] = 0 /\ k \in {H, T})})
Mild == {ch \in Picks : Wrong(ch) <= 2}

GoodDocs == {ch \in [Keys -> 0..1] : ch[H] = 1 /\ ch[T] = 1}

Marks == {0, 1, 47, 57, 58, 64, 71, 103, 127, 128, 195, 240, 250, 255}
Cuts(w) == {w} \cup {SubSeq(w, 1, n) : n \in 0..(Len(w) - 1)} \cup {Append(w, b) : b \in {0, 48, 255}}
Swaps(w, I) ==
  UNION {{[w EXCEPT ![i] = b] : b \in Marks \cup {(w[i] + 1) % 256, (w[i] + 255) % 256, (w[i] + 128) % 256, (w[i] + 32) % 256}}
         : i \in I}
(* positions of a bitmap in an encoded message *)
BitmapAt(e) ==
  LET at == TLCEval([k \in DOMAIN e |-> Len(Wire(OnlyKeys(e, {j \in DOMAIN e : j < k})))])
  IN UNION {(at[k] + 1)..(at[k] + Len(e[k].data)) : k \in (DOMAIN e) \cap {P, 1}}

MCInit ==
  \E h \in Headers : \E te \in TypeEncs : \E be \in BitmapEncs : \E ce \in {be, "b", "ascii"} : \E sp \in {FullSpec(h, te, be, ce)} :
    \/ \E ch \in Pick(Num("DOCS"), Mild) : \E st \in Pick(1, Stales) : \E ex \in Pick(1, Extras) :
       \E mi \in Pick(1, 1..16) :
         StartWith(EncInit(Drop(sp, Missing(mi)), DocFor(sp, ch, st), ex))
    \/ \E ch \in GoodDocs : \E st \in Pick(Num("DOCS") \div 4, Stales) : \E ex \in {<<>>} \cup Pick(1, Extras) : \E mi \in Pick(1, 1..25) :
         StartWith(EncInit(Drop(sp, Missing(mi)), DocFor(sp, ch, st), ex))
    \/ \E ch \in GoodDocs : \E m \in {Encode(sp, DocFor(sp, ch, <<>>), <<>>)} : \E B \in {BitmapAt(m.enc)} :
       \E w \in Pick(Num("WIRES"), Cuts(m.raw)) \cup Pick(Num("WIRES"), Swaps(m.raw, 1..Len(m.raw) \ B)) \cup Pick(Num("WIRES") \div 2, Swaps(m.raw, B)) :
       \E mi \in Pick(1, 1..25) : StartWith(DecInit(Drop(sp, Missing(mi)), w))
MCSpec == MCInit /\ [][MCNext]_mcVars
=============================================================================
