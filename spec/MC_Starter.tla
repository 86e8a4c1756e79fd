----------------------------- MODULE MC_Starter -----------------------------
(***************************************************************************)
(* The two starter specifications (C18): every field alone at every size   *)
(* around its documented limits, sets of fields together, all fields at    *)
(* their maximum; messages as they would arrive.  Replayed under the       *)
(* specifications as shipped.                                              *)
(***************************************************************************)
EXTENDS Design

Names == {"default", "default_ascii"}
Rich(name) == LET t == Starter(name) IN TLCEval([k \in DOMAIN t |-> t[k] @@ ("desc" :> <<>>)])
Spec1 == Rich("default")
Spec2 == Rich("default_ascii")
SpecNamed(n) == IF n = "default" THEN Spec1 ELSE Spec2
(* printed instead of the specification: which of the two *)
WhichSpec(sp) == [k |-> <<IF sp[P].de = "b" THEN 1 ELSE 2>>, v |-> <<>>]

Usual == (2..128) \ {65}

ASSUME \A n \in Names :
  LET t == Starter(n) IN
  /\ DOMAIN t = {H, T, P} \cup (1..128)
  /\ t[H].ml = 0 /\ t[T].ml = 4
  /\ \A k \in Usual : t[k].ml >= 1 /\ t[k].lt \in {0, 2, 3} /\ (t[k].lt > 0 => t[k].ml < 10 ^ t[k].lt)
  /\ \A k \in {P, 1} : t[k].ml = BitmapLen(t[k])
(* both describe the same fields: binary ones take twice the room as text *)
ASSUME \A k \in Usual : LET a == Starter("default")[k]
                            b == Starter("default_ascii")[k]
                        IN a.lt = b.lt /\ b.ml = (IF a.de = "b" THEN 2 * a.ml ELSE a.ml)

(* n units of content *)
Pattern == <<48, 65, 57, 70, 51, 66, 49>>
Filler(fs, n, j) == TLCEval([i \in 1..(IF fs.de = "b" THEN 2 * n ELSE n) |-> Pattern[1 + ((i + j) % 7)]])
Units(fs, tx) == IF fs.de = "b" THEN Len(tx) \div 2 ELSE Len(tx)
Around(fs) == {n \in {0, 1, 2, fs.ml - 1, fs.ml, fs.ml + 1, fs.ml + 2, 99, 100, 101, 255, 256} : n >= 0 /\ n <= fs.ml + 2}

Tx == <<48, 50, 48, 48>>
DocOne(sp, k, n) == (T :> Tx) @@ (k :> Filler(sp[k], n, k))
DocAll(sp, F, full) == (T :> Tx) @@ TLCEval([k \in F |-> Filler(sp[k], IF full \/ sp[k].lt = 0 THEN sp[k].ml ELSE ((k * 7) % 30) % (sp[k].ml + 1), k)])

(* a message put together by hand *)
Carried(fs, n, j) == (IF fs.lt = 0 THEN <<>> ELSE LenPrefix(fs.le, fs.lt, n).v) \o LET tx == Filler(fs, n, j) IN IF fs.de = "b" THEN BytesOfHex(tx) ELSE tx
Bits(sp, B, off) == LET b == BitmapOf(B, off) IN IF sp[P].de = "b" THEN b ELSE HexOf(b)
WireOne(sp, k, n) == Tx \o Bits(sp, {k} \cup (IF k > 64 THEN {1} ELSE {}), 0) \o (IF k > 64 THEN Bits(sp, {k}, 64) ELSE <<>>)
                     \o Carried(sp[k], n, k)
Sendable(fs, n) == fs.lt = 0 \/ n < 10 ^ fs.lt

MCInit ==
  \/ \E name \in Names : \E k \in Pick(Num("FIELDS"), Usual) : \E n \in Pick(Num("SIZES"), Around(SpecNamed(name)[k])) :
        StartWith(EncInit(SpecNamed(name), DocOne(SpecNamed(name), k, n), <<>>))
  \/ \E name \in Names : \E k \in Pick(Num("FIELDS"), Usual) : \E n \in Pick(Num("SIZES"), Around(SpecNamed(name)[k])) :
        /\ Sendable(SpecNamed(name)[k], n)
        /\ StartWith(DecInit(SpecNamed(name), WireOne(SpecNamed(name), k, n)))
  \/ \E name \in Names : \E F \in {Usual, Usual \cap (2..64), Usual \ (2..64)} \cup {Usual \ {k} : k \in Pick(Num("BUT"), Usual)} :
        StartWith(EncInit(SpecNamed(name), DocAll(SpecNamed(name), F, FALSE), <<>>))
  \/ \E name \in Names : StartWith(EncInit(SpecNamed(name), DocAll(SpecNamed(name), Usual, TRUE), <<>>))
MCSpec == MCInit /\ [][MCNext]_mcVars

(* a document is accepted exactly if every field keeps its documented size *)
Keeps(fs, tx) == IF fs.lt = 0 THEN Units(fs, tx) = fs.ml ELSE Units(fs, tx) <= fs.ml
Documented ==
  (Finished /\ mcCall.op = "enc") =>
     LET doc == mcPast[Len(mcPast)].arg IN
     ~MErr(mcCall) <=> \A k \in DOMAIN doc \cap Usual : Keeps(mcCall.spec[k], doc[k])
=============================================================================
