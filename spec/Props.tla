------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties C01..C22 as judgements on one observed call.             *)
(*                                                                         *)
(* An observed outcome o is a record                                       *)
(*   k    "ok", "DecodeError", "EncodeError", "TypeError", other exception *)
(*   d, dx   decoded document (for encode: the caller's dictionary after   *)
(*           the call): canonical keys and other keys                      *)
(*   e, ex   encoded document, other keys in it                            *)
(*   raw     encode: the message; failed decode: the error's input         *)
(*   f, pos, msg, txt   attributes and text of an error                    *)
(*   own     the error carries the very object that was passed             *)
(*   ty      type names (C22)                                              *)
(* m is the machine's outcome of the same call (Decode / Encode).          *)
(*                                                                         *)
(* Each judgement is [h, c]: whether the property says anything about this *)
(* call and the set of violated clauses.  Divergences from the machine are *)
(* attributed by what was observed, so that a defect is reported by the    *)
(* properties it breaks and not by others.                                 *)
(***************************************************************************)
EXTENDS PrettyPrint, Starter

NA   == [h |-> FALSE, c |-> {}]
V(c) == [h |-> TRUE, c |-> c]
If(b, name) == IF b THEN {name} ELSE {}

ExtraMsg == "Extra data after last field"
HeaderOn(spec) == spec[H].ml > 0
IsText(fs) == fs.de # "b"
BadF == -99                      \* error names something that is no field

OnlyKeys(f, S) == TLCEval([k \in (DOMAIN f) \cap S |-> f[k]])

(***************************************************************************)
(* decode                                                                  *)
(***************************************************************************)
(* elements announced by the bitmaps, in wire order (m got past them) *)
Announced(m) == SortKeys({T, P} \cup m.bits \cup (IF HeaderOn(m.spec) THEN {H} ELSE {})
                         \cup (IF 1 \in DOMAIN m.dec THEN {1} ELSE {}))
IsInitial(K, sq) == Cardinality(K) <= Len(sq) /\ K = {sq[i] : i \in 1..Cardinality(K)}

MErr(m) == m.res.k # "ok"
AtBitmap(m) == MErr(m) /\ m.res.f \in {P, 1} /\ m.res.why # "extra"
(* neither a result nor the documented error: nothing was decided *)
Foreign(spec, o, err) == WellFormed(spec) /\ o.k \notin {"ok", err}
Raised(o) == V({"raised-" \o o.k})

DecC04(m, o) ==
  IF Foreign(m.spec, o, "DecodeError")
  THEN IF ~MErr(m) \/ AtBitmap(m) THEN Raised(o) ELSE NA
  ELSE IF m.plan
  THEN LET A == Announced(m)
           K == DOMAIN o.d
           KE == DOMAIN o.e
       IN IF o.k = "ok"
          THEN V(If(o.dx # <<>> \/ o.ex # <<>> \/ K # {A[i] : i \in 1..Len(A)} \/ KE # K, "keys")
                 \cup If(\E k \in {P, 1} \cap K \cap DOMAIN m.dec : o.d[k] # m.dec[k], "bitmap-value"))
          ELSE IF o.k = "DecodeError"
          THEN V(If(o.f \in {P, 1} /\ o.msg # ExtraMsg, "good-bitmap-refused")
                 \cup If(o.dx # <<>> \/ ~IsInitial(K, A) \/ ~IsInitial(KE, A), "keys-on-error")
                 \cup If(o.msg = ExtraMsg /\ Cardinality(K) # Len(A), "unparsed")
                 \cup If(o.f \notin {A[i] : i \in 1..Len(A)}, "unannounced"))
          ELSE NA
  ELSE IF AtBitmap(m)
  THEN V(If(o.k = "ok" \/ (o.k = "DecodeError" /\ o.f \in FieldKeys), "bad-bitmap-accepted"))
  ELSE NA

DecC05(s, o) ==
  IF o.k # "ok" THEN NA
  ELSE V(If(o.ex # <<>> \/ o.dx # <<>> \/ DOMAIN o.d # DOMAIN o.e, "keys")
         \cup If(Wire(o.e) # s, "bytes"))

(* the size a field announces on the wire, from its own bytes *)
Declared(fs, len) == IF fs.lt = 0 THEN [ok |-> TRUE, n |-> fs.ml] ELSE
                     IF Len(len) # fs.lt THEN [ok |-> FALSE, n |-> 0]
                     ELSE LET p == ParseLen(fs.le, len) IN [ok |-> p.ok /\ p.n <= fs.ml, n |-> p.n]
Sized(fs, e) ==
  LET n == Declared(fs, e.len)
  IN n.ok /\ (fs.lt = 0 => e.len = <<>>) /\ Len(e.data) = BytesFor(fs.nib, n.n)
     /\ (fs.nib /\ IsText(fs) => n.n % 2 = 0)

Elements(spec, S) == (S \cap DOMAIN spec) \cap ({H, T} \cup FieldKeys)

DecC07(spec, s, m, o) ==
  IF Foreign(spec, o, "DecodeError")
  THEN IF ~MErr(m) \/ m.res.why \in LenCauses THEN Raised(o) ELSE NA
  ELSE IF o.k = "ok"
  THEN V(If(\E k \in Elements(spec, DOMAIN o.e) \ {T} : ~Sized(spec[k], o.e[k]), "size")
         \cup If(T \in DOMAIN o.e /\ Len(o.e[T].data) # TypeLen(spec[T]), "type-size")
         \cup If(P \in DOMAIN o.e /\ Len(o.e[P].data) # BitmapLen(spec[P]), "bitmap-size")
         \cup If(MErr(m) /\ ~AtBitmap(m) /\ m.res.why \in LenCauses, "accepted-" \o m.res.why)
         \cup If(Len(Wire(o.e)) # Len(s), "not-consumed"))
  ELSE IF o.k = "DecodeError"
  THEN LET K == Elements(spec, DOMAIN o.e \cap m.done)
           wrong == {k \in K : o.e[k] # m.enc[k]}
       IN V(If(DecC04(m, o).c = {} /\ wrong # {}, "wrong-bytes")
            \cup If(o.f \in m.done /\ o.f \in Elements(spec, DOMAIN spec) /\ o.f \notin DOMAIN o.e /\ o.msg # ExtraMsg, "refused")
         \cup If(o.msg = ExtraMsg /\ ~MErr(m) /\ wrong = {} /\ DecC04(m, o).c = {}, "all-consumed-refused")
            \cup If(MErr(m) /\ m.res.why \in LenCauses /\ m.res.f \in Elements(spec, DOMAIN spec)
                    /\ m.res.why # "extra"
                    /\ o.f # BadF /\ o.f > m.res.f, "accepted-" \o m.res.why))
  ELSE NA

(* value of binary element k: its hex digits, one pad digit taken off *)
BinaryValue(fs, e) ==
  LET hx == HexOf(e.data)
      n  == Declared(fs, e.len)
  IN IF fs.nib /\ n.ok /\ n.n % 2 = 1
     THEN IF hx = <<>> THEN [ok |-> FALSE, v |-> <<>>] ELSE Unpad(fs, hx)
     ELSE [ok |-> TRUE, v |-> hx]

Refused(m, o, S) ==      \* an element the machine takes was refused after its bytes were taken
  o.k = "DecodeError" /\ o.f \in S /\ o.f \in m.done /\ o.msg # ExtraMsg
  /\ o.f \in DOMAIN o.e /\ o.e[o.f] = m.enc[o.f]

TextKeys(spec, S) == {k \in Elements(spec, S) : IsText(spec[k])}
BinKeys(spec, S)  == {k \in Elements(spec, S) : ~IsText(spec[k])}

UnicodeErrors == {"UnicodeDecodeError", "UnicodeEncodeError", "UnicodeError", "LookupError"}
DecC08(spec, m, o) ==
  IF Foreign(spec, o, "DecodeError")
  THEN IF o.k \in UnicodeErrors \/ (MErr(m) /\ m.res.why \in TextCauses /\ m.res.f \in TextKeys(spec, DOMAIN spec))
       THEN Raised(o) ELSE NA
  ELSE IF o.k = "ok"
  THEN LET ks == TextKeys(spec, DOMAIN o.e \cap DOMAIN o.d)
           bad(k) == LET t == DecodeText(spec[k].de, o.e[k].data)
                     IN o.e[k].data # <<>> /\ (~t.ok \/ t.v # o.d[k])
           badE(k) == o.e[k].data = <<>> /\ o.d[k] # <<>>
       IN V(If(\E k \in ks : bad(k) \/ badE(k), "value"))
  ELSE IF o.k = "DecodeError"
  THEN V(If(Refused(m, o, TextKeys(spec, DOMAIN spec)), "refused")
         \cup If(MErr(m) /\ m.res.why \in TextCauses /\ m.res.f \in TextKeys(spec, DOMAIN spec)
                 /\ o.f # BadF /\ o.f > m.res.f, "accepted"))
  ELSE NA

BinKeyValue(spec, k, e) == IF k = T THEN [ok |-> TRUE, v |-> HexOf(e.data)] ELSE BinaryValue(spec[k], e)

DecC09(spec, m, o) ==
  IF Foreign(spec, o, "DecodeError") THEN IF MErr(m) /\ m.res.why = "pad" THEN Raised(o) ELSE NA
  ELSE IF o.k = "ok"
  THEN LET ks == BinKeys(spec, DOMAIN o.e \cap DOMAIN o.d)
           bad(k) == LET t == BinKeyValue(spec, k, o.e[k]) IN ~t.ok \/ t.v # o.d[k]
       IN IF ks = {} THEN NA ELSE V(If(\E k \in ks : bad(k), "value"))
  ELSE IF o.k = "DecodeError"
  THEN V(If(Refused(m, o, BinKeys(spec, DOMAIN spec)), "refused")
         \cup If(MErr(m) /\ m.res.why = "pad" /\ o.f # BadF /\ o.f > m.res.f, "accepted"))
  ELSE NA

DecC10(spec, o) == IF ~WellFormed(spec) THEN NA
                   ELSE V(If(o.k \notin {"ok", "DecodeError"}, "raised-" \o o.k))

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

DecC12(s, m, o) ==
  IF MErr(m) /\ Foreign(m.spec, o, "DecodeError") THEN Raised(o)
  ELSE IF o.k # "DecodeError" \/ ~MErr(m) THEN NA
  ELSE V(If(o.f # m.res.f, "field") \cup If(o.pos # m.res.pos, "pos") \cup If(o.msg # m.res.msg, "msg")
         \cup If(o.f # BadF /\ o.txt # o.msg \o ": field " \o KeyName(o.f) \o " pos " \o ToString(o.pos), "text")
         \cup If(~o.own, "input")
         \cup If(\E k \in m.done : k \notin DOMAIN o.d \/ k \notin DOMAIN o.e, "partial-missing")
         \cup If(\E k \in m.done : k \in DOMAIN o.d /\ o.d[k] # m.dec[k], "partial-value")
         \cup If(\E k \in m.done : k \in DOMAIN o.e /\ o.e[k] # m.enc[k], "partial-bytes")
         \cup If(o.dx # <<>> \/ o.ex # <<>> \/ ((DOMAIN o.d \cup DOMAIN o.e) \ m.done) \ {m.res.f} # {}, "partial-later")
         \cup If(~IsPrefixOf(Wire(o.e), s), "partial-prefix"))

(* the type and the primary bitmap are those that follow the header *)
Follows(m, o) == If(\E k \in {T, P} \cap m.done : k \in DOMAIN o.e /\ o.f # k /\ o.e[k].data # m.enc[k].data, "type-follows")
DecC19(spec, s, m, o) ==
  IF Foreign(spec, o, "DecodeError") THEN IF MErr(m) /\ m.res.f = H THEN Raised(o) ELSE NA
  ELSE IF HeaderOn(spec)
  THEN IF o.k = "ok"
       THEN V(If(H \notin DOMAIN o.d \/ H \notin DOMAIN o.e, "missing")
              \cup If(H \notin m.done, "accepted")
              \cup If(H \in m.done /\ H \in DOMAIN o.e /\ o.e[H] # m.enc[H], "bytes")
              \cup If(H \in m.done /\ H \in DOMAIN o.d /\ o.d[H] # m.dec[H], "value")
              \cup Follows(m, o))
       ELSE IF o.k = "DecodeError"
       THEN V(If(o.f = H /\ H \in m.done, "refused")
              \cup Follows(m, o)
              \cup If(o.f # H /\ MErr(m) /\ m.res.f = H, "accepted"))
       ELSE NA
  ELSE IF o.k \in {"ok", "DecodeError"}
       THEN V(If(H \in DOMAIN o.d \/ H \in DOMAIN o.e \/ (o.k = "DecodeError" /\ o.f = H), "read")
              \cup If(T \in DOMAIN o.e /\ ~IsPrefixOf(o.e[T].data, s), "type-first"))
       ELSE NA

DecC22(o) ==
  IF o.k # "ok" THEN NA
  ELSE V(If(o.ty.doc # "dict" \/ o.ty.enc # "dict", "dict")
         \cup If(\E i \in 1..Len(o.ty.dk) : o.ty.dk[i] # "str", "doc-keys")
         \cup If(\E i \in 1..Len(o.ty.dv) : o.ty.dv[i] # "str", "doc-values")
         \cup If(\E i \in 1..Len(o.ty.ek) : o.ty.ek[i] # "str", "enc-keys")
         \cup If(\E i \in 1..Len(o.ty.ev) : o.ty.ev[i] # "dict(data:bytes,len:bytes)", "enc-values"))
EncC22(o) ==
  IF o.k # "ok" THEN NA
  ELSE V(If(o.ty.enc # "dict", "dict") \cup If(o.ty.raw # "bytearray", "raw")
         \cup If(\E i \in 1..Len(o.ty.ek) : o.ty.ek[i] # "str", "enc-keys")
         \cup If(\E i \in 1..Len(o.ty.ev) : o.ty.ev[i] # "dict(data:bytes,len:bytes)", "enc-values")
         \cup If(\E k \in {P, 1} \cap DOMAIN o.d : o.d[k] = NotText, "bitmap-values"))

(***************************************************************************)
(* encode; doc, x: the dictionary before the call                          *)
(***************************************************************************)
EncC03(spec, doc, m, o) ==
  IF ~MErr(m) /\ Foreign(spec, o, "EncodeError") THEN Raised(o)     \* no bitmaps at all
  ELSE IF o.k # "ok" THEN NA
  ELSE LET F   == Fields(doc)
           bm(k) == IF k = P THEN BitmapOf(PrimaryBits(F), 0)
                    ELSE BitmapOf(SecondaryBits(F), 64)
                         \o (IF HasTertiary(F) THEN BitmapOf(TertiaryBits(F), 128) ELSE <<>>)
           wire(k) == IF spec[k].de = "b" THEN bm(k) ELSE EncodeText(spec[k].de, HexOf(bm(k))).v
           B == {P} \cup (IF HasSecondary(F) THEN {1} ELSE {})
           at == (IF H \in DOMAIN o.e THEN Len(o.e[H].len) + Len(o.e[H].data) ELSE 0)
                 + (IF T \in DOMAIN o.e THEN Len(o.e[T].data) ELSE 0)
           w  == wire(P) \o (IF 1 \in B /\ 1 \in DOMAIN spec THEN wire(1) ELSE <<>>)
       IN IF 1 \in B /\ 1 \notin DOMAIN spec THEN NA
          ELSE V(If(\E k \in B : k \notin DOMAIN o.d \/ k \notin DOMAIN o.e, "missing")
                 \cup If(\E k \in {1} \ B : k \in DOMAIN o.d \/ k \in DOMAIN o.e, "stale-secondary")
                 \cup If(65 \in DOMAIN o.d \/ 65 \in DOMAIN o.e, "stale-65")
                 \cup If(\E k \in B \cap DOMAIN o.d : o.d[k] # HexOf(bm(k)), "hex")
                 \cup If(\E k \in B \cap DOMAIN o.e : o.e[k] # [len |-> <<>>, data |-> wire(k)], "bytes")
                 \cup If(Slice(o.raw, at, Len(w)) # w, "raw"))

EncC05(spec, o) ==
  IF o.k # "ok" THEN NA
  ELSE LET D == (DOMAIN o.d) \ (IF HeaderOn(spec) THEN {} ELSE {H})
       IN V(If(o.ex # <<>> \/ DOMAIN o.e # D, "keys") \cup If(Wire(o.e) # o.raw, "bytes"))

(* size of the data of element k in its unit, from the value and its bytes *)
UnitsOf(fs, tx, data) == IF ~fs.nib THEN Len(data)
                         ELSE IF IsText(fs) THEN 2 * Len(data) ELSE Len(tx)
FitsAs(fs, tx, e) ==
  LET n  == UnitsOf(fs, tx, e.data)
      lp == LenPrefix(fs.le, fs.lt, n)
  IN IF fs.lt = 0 THEN n = fs.ml /\ e.len = <<>>
     ELSE n <= fs.ml /\ lp.ok /\ e.len = lp.v

EncC06(spec, doc, m, o) ==
  IF Foreign(spec, o, "EncodeError")
  THEN IF MErr(m) /\ m.res.why \in ESizeCauses THEN Raised(o) ELSE NA
  ELSE IF o.k = "ok"
  THEN LET ks == Elements(spec, DOMAIN o.e \cap DOMAIN doc) \ {T}
       IN V(If(\E k \in ks : doc[k] # NotText /\ ~FitsAs(spec[k], doc[k], o.e[k]), "length")
            \cup If(T \in DOMAIN o.e /\ (Len(o.e[T].data) # TypeLen(spec[T]) \/ o.e[T].len # <<>>), "type-length")
            \cup If(MErr(m) /\ m.res.why \in ESizeCauses, "accepted-" \o m.res.why))
  ELSE IF o.k = "EncodeError"
  THEN V(If(o.f \in m.done /\ o.f \in Elements(spec, DOMAIN spec) /\ o.f \in DOMAIN o.e
            /\ o.e[o.f].data = m.enc[o.f].data, "refused")
         \cup If(MErr(m) /\ m.res.why \in ESizeCauses /\ o.f # BadF /\ o.f > m.res.f
                 /\ m.res.f \in DOMAIN o.e, "accepted-" \o m.res.why))
  ELSE NA

EncRefused(m, o, S) ==   \* a convertible value was refused
  o.k = "EncodeError" /\ o.f \in S /\ o.f \in m.done
  /\ (o.f \notin DOMAIN o.e \/ o.e[o.f].data # m.enc[o.f].data)

EncConv(spec, doc, m, o, S, causes) ==
  IF Foreign(spec, o, "EncodeError")
  THEN IF MErr(m) /\ m.res.why \in causes /\ m.res.f \in S THEN Raised(o) ELSE NA
  ELSE IF o.k = "ok"
  THEN LET ks == S \cap DOMAIN o.e \cap DOMAIN doc
           nib(k) == k # T /\ spec[k].nib
           bad(k) == LET e == EncodeValue(spec[k], doc[k], nib(k))
                     IN ~e.ok \/ e.v # o.e[k].data
       IN IF ks = {} THEN NA ELSE V(If(\E k \in ks : bad(k), "value"))
  ELSE IF o.k = "EncodeError"
  THEN V(If(EncRefused(m, o, S), "refused")
         \cup If(MErr(m) /\ m.res.why \in causes /\ m.res.f \in S
                 /\ o.f # BadF /\ o.f > m.res.f /\ m.res.f \in DOMAIN o.e, "accepted"))
  ELSE NA
EncC08(spec, doc, m, o) == EncConv(spec, doc, m, o, TextKeys(spec, DOMAIN spec), TextCauses)
EncC09(spec, doc, m, o) == EncConv(spec, doc, m, o, BinKeys(spec, DOMAIN spec), BinCauses)

EncC11(spec, o) == IF ~WellFormed(spec) THEN NA
                   ELSE V(If(o.k \notin {"ok", "EncodeError"}, "raised-" \o o.k))

(* messages that quote the offending keys are compared up to the quotation *)
MsgOk(want, got, why) ==
  IF why \in {"badkey", "lenbad"} THEN Len(got) >= Len(want) /\ SubSeq(got, 1, Len(want)) = want
  ELSE IF why = "range" /\ want = "Dictionary contains fields outside of 1-192 range"
  THEN Len(got) >= Len(want) /\ SubSeq(got, 1, Len(want)) = want
  ELSE got = want

EncC13(m, o) ==
  IF MErr(m) /\ Foreign(m.spec, o, "EncodeError") THEN Raised(o)
  ELSE IF o.k # "EncodeError" \/ ~MErr(m) THEN NA
  ELSE V(If(o.f # m.res.f, "field") \cup If(~MsgOk(m.res.msg, o.msg, m.res.why), "msg")
         \cup If(o.f # BadF /\ o.txt # o.msg \o ": field " \o KeyName(o.f), "text")
         \cup If(~o.own, "dictionary")
         \cup If(\E k \in m.done : k \notin DOMAIN o.e, "partial-missing")
         \cup If(\E k \in m.done : k \in DOMAIN o.e /\ o.e[k] # m.enc[k], "partial-bytes")
         \cup If(o.ex # <<>> \/ (DOMAIN o.e \ m.done) \ {m.res.f} # {}, "partial-later"))

Bitmaps == {P, 1, 65}
EncC14(doc, x, o) ==
  V(If(Drop(o.d, Bitmaps) # Drop(doc, Bitmaps), "caller-fields") \cup If(o.dx # x, "caller-keys"))

EncC19(spec, doc, m, o) ==
  IF Foreign(spec, o, "EncodeError") THEN IF MErr(m) /\ m.res.f = H THEN Raised(o) ELSE NA
  ELSE IF HeaderOn(spec)
  THEN IF o.k = "ok"
       THEN V(If(H \notin DOMAIN o.e, "missing")
              \cup If(H \notin m.done, "accepted")
              \cup If(H \in m.done /\ H \in DOMAIN o.e /\ o.e[H] # m.enc[H], "bytes")
              \cup If(H \in DOMAIN o.e /\ T \in DOMAIN o.e
                      /\ ~IsPrefixOf(o.e[H].len \o o.e[H].data \o o.e[T].data, o.raw), "first"))
       ELSE IF o.k = "EncodeError"
       THEN V(If(o.f = H /\ H \in m.done, "refused")
              \cup If(o.f # H /\ MErr(m) /\ m.res.f = H, "accepted"))
       ELSE NA
  ELSE IF o.k \in {"ok", "EncodeError"}
       THEN V(If(H \in DOMAIN o.e \/ (o.k = "EncodeError" /\ o.f = H), "written")
              \cup If(o.k = "ok" /\ T \in DOMAIN o.e /\ ~IsPrefixOf(o.e[T].data, o.raw), "type-first")
              \cup If((H \in DOMAIN doc) # (H \in DOMAIN o.d) \/ (H \in DOMAIN doc /\ o.d[H] # doc[H]), "touched"))
       ELSE NA

(* without the observations of values that are not text *)
OtherKeys(x) == SelectSeq(x, LAMBDA r : r.v = <<>> \/ r.v[1] # 0)
KeyCauses == {"badkey", "range"}
EncC21(doc, x, m, o) ==
  IF Foreign(m.spec, o, "EncodeError")
  THEN IF MErr(m) /\ m.res.why \in KeyCauses THEN Raised(o) ELSE NA
  ELSE IF o.k = "ok"
  THEN V(If(MErr(m) /\ m.res.why \in KeyCauses, "accepted-" \o m.res.why)
         \cup If({k \in DOMAIN o.e : k \in FieldKeys} # Fields(doc) \/ o.ex # <<>>, "fields")
         \cup If(OtherKeys(o.dx) # OtherKeys(x), "other-keys"))
  ELSE IF o.k = "EncodeError"
  THEN V(If(MErr(m) /\ m.res.why \in KeyCauses
            /\ ((\E k \in {P, 1} \cup FieldKeys : k \in DOMAIN o.e) \/ o.f \in FieldKeys), "accepted-" \o m.res.why)
         \cup If(T \in m.done /\ ~(MErr(m) /\ m.res.why \in KeyCauses)
                 /\ o.f = P /\ P \notin DOMAIN o.e /\ P \in m.done, "refused")
         \cup If(OtherKeys(o.dx) # OtherKeys(x), "other-keys"))
  ELSE NA

(***************************************************************************)
(* round trips                                                             *)
(***************************************************************************)
EncC01(spec, m, o) == IF ~Usable(spec) \/ MErr(m) THEN NA ELSE V(If(o.k # "ok", "not-encoded"))

(* doc was encoded with outcome oe, its message decoded with outcome od *)
(* accepted although it should not fit: then it has to come back all the same *)
Squeezed(spec, doc, me) ==
  /\ me.res.why \in {"fixed", "toolong", "lenfit"}
  /\ OnWire(spec, doc) \subseteq DOMAIN spec
  /\ \A k \in OnWire(spec, doc) : doc[k] # NotText /\ (spec[k].de = "b" => IsHex(doc[k]))
RoundC01(spec, doc, me, oe, od) ==
  IF ~Usable(spec) \/ (MErr(me) /\ ~Squeezed(spec, doc, me)) \/ oe.k # "ok" THEN NA
  ELSE IF od.k # "ok" THEN V({"not-decoded"})
  ELSE LET W == OnWire(spec, doc)
           B == {P} \cup (IF HasSecondary(Fields(doc)) THEN {1} ELSE {})
       IN V(If(DOMAIN od.d # W \cup B \/ od.dx # <<>>, "fields")
            \cup If(\E k \in W \cap DOMAIN od.d : od.d[k] # Norm(spec[k], doc[k]), "values")
            \cup If(\E k \in B \cap DOMAIN od.d : k \notin DOMAIN oe.d \/ od.d[k] # oe.d[k], "bitmaps")
            \cup If(od.e # oe.e \/ od.ex # oe.ex, "encoded-dict"))

Canonical(spec, s, m) == ~MErr(m) /\ LET r == Encode(spec, m.dec, <<>>)
                                     IN r.res.k = "ok" /\ r.raw = s
(* s was decoded with outcome od (machine: md), the result encoded: oe *)
AgainC02(spec, s, md, od, oe) ==
  IF ~Usable(spec) \/ od.k # "ok" THEN NA
  ELSE V(If(oe.k # "ok", "not-encoded")
         \cup If(oe.k = "ok" /\ Canonical(spec, s, md) /\ oe.raw # s, "not-reproduced"))
(* ... and the re-encoded message decoded again: od2 *)
StableC02(spec, od, oe, od2) ==
  IF ~Usable(spec) \/ od.k # "ok" \/ oe.k # "ok" THEN NA
  ELSE V(If(od2.k # "ok", "not-decoded")
         \cup If(od2.k = "ok" /\ Drop(od2.d, {P, 1}) # Drop(od.d, {P, 1}), "values"))

(***************************************************************************)
(* pretty print, starter specifications                                    *)
(***************************************************************************)
PrintC16(tx, doc, spec, dw, lw) ==
  IF tx = PrintDoc(doc, spec, dw, lw) THEN V({}) ELSE V(PrintedContent(tx, doc, spec))
(* a number that does not fit the cell of three columns has no layout to keep *)
PrintC17(tx, doc, spec, dw, lw) ==
  IF \E k \in DOMAIN doc : k > 999 THEN NA ELSE
  IF tx = PrintDoc(doc, spec, dw, lw) THEN V({}) ELSE V(PrintedLayout(tx, doc, spec, dw, lw))

EncC18(m, o) == V(If((m.res.k = "ok") # (o.k = "ok"), IF o.k = "ok" THEN "accepted" ELSE "refused")
                  \cup If(m.res.k = "ok" /\ o.k = "ok" /\ m.raw # o.raw, "format"))
DecC18(m, o) == V(If((m.res.k = "ok") # (o.k = "ok"), IF o.k = "ok" THEN "accepted" ELSE "refused")
                  \cup If(m.res.k = "ok" /\ o.k = "ok" /\ m.dec # o.d, "values"))

(***************************************************************************)
JudgeDec(p, spec, s, m, o) ==
  CASE p = "C04" -> DecC04(m, o)
    [] p = "C05" -> DecC05(s, o)
    [] p = "C07" -> DecC07(spec, s, m, o)
    [] p = "C08" -> DecC08(spec, m, o)
    [] p = "C09" -> DecC09(spec, m, o)
    [] p = "C10" -> DecC10(spec, o)
    [] p = "C12" -> DecC12(s, m, o)
    [] p = "C19" -> DecC19(spec, s, m, o)
    [] p = "C22" -> DecC22(o)
    [] OTHER -> NA

JudgeEnc(p, spec, doc, x, m, o) ==
  CASE p = "C01" -> EncC01(spec, m, o)
    [] p = "C03" -> EncC03(spec, doc, m, o)
    [] p = "C05" -> EncC05(spec, o)
    [] p = "C06" -> EncC06(spec, doc, m, o)
    [] p = "C08" -> EncC08(spec, doc, m, o)
    [] p = "C09" -> EncC09(spec, doc, m, o)
    [] p = "C11" -> EncC11(spec, o)
    [] p = "C13" -> EncC13(m, o)
    [] p = "C14" -> EncC14(doc, x, o)
    [] p = "C19" -> EncC19(spec, doc, m, o)
    [] p = "C21" -> EncC21(doc, x, m, o)
    [] p = "C22" -> EncC22(o)
    [] OTHER -> NA
=============================================================================
