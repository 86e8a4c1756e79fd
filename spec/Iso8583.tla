------------------------------ MODULE Iso8583 ------------------------------
(***************************************************************************)
(* The ISO 8583 codec as a machine: one step per message element.          *)
(*                                                                         *)
(* Message elements ("keys") are numbered in wire order:                   *)
(*    H header, T message type, P primary bitmap, 1 secondary bitmap (with *)
(*    its tertiary extension), 2..192 data fields.                         *)
(* A specification is a function from keys to field specifications         *)
(*    [de, le, lt, ml, nib, lp, rp, desc]:  data encoding, length encoding,*)
(*    bytes in the length prefix, maximum (or fixed) length, length counted*)
(*    in nibbles?, left pad and right pad (text).                          *)
(* A decoded document is a function from keys to text, an encoded document *)
(* a function from keys to [len, data] byte strings.                       *)
(*                                                                         *)
(* A call is a record m; Step(m) is the next record.  m.pc = "done" ends a *)
(* call, m.res is then its outcome.                                        *)
(***************************************************************************)
EXTENDS Codec

H == -3
T == -2
P == -1
FieldKeys == 2..192

KeyName(k) == IF k = H THEN "h" ELSE IF k = T THEN "t" ELSE IF k = P THEN "p" ELSE ToString(k)

Put(f, k, v) == (k :> v) @@ f
Drop(f, S) == TLCEval([k \in (DOMAIN f) \ S |-> f[k]])
SortKeys(S) == SetToSortSeq(S, <)

UnitName(nib) == IF nib THEN "nibbles" ELSE "bytes"
BytesFor(nib, n) == IF nib THEN (n + 1) \div 2 ELSE n

TypeLen(fs) == IF fs.de = "b" THEN 2 ELSE 4
BitmapLen(fs) == IF fs.de = "b" THEN 8 ELSE 16

(* elements set in a bitmap of 8 bytes, first element off + 1 *)
BitsOf(bm, off) == {off + n : n \in {i \in 1..64 :
                      (bm[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2 = 1}}
BitmapOf(S, off) ==
  TLCEval([b \in 1..8 |->
     LET bit(i) == IF (off + 8 * (b - 1) + i) \in S THEN 2 ^ (8 - i) ELSE 0
     IN bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6) + bit(7) + bit(8)])

NoRes == [k |-> "", f |-> 0, pos |-> 0, msg |-> "", why |-> ""]

(* Outcome of a failing call.  why names the cause; every cause belongs to *)
(* one of the classes below.                                               *)
ShortCauses  == {"short", "shortlen"}
LenCauses    == {"short", "shortlen", "lennum", "lentext", "lenbcd", "lencodec",
                 "toolong", "extra", "oddtext"}
TextCauses   == {"badtext", "codec"}
BinCauses    == {"pad", "nonhex", "oddhex", "oddnib"}
Fail(m, kind, f, pos, msg, why) ==
  [m EXCEPT !.pc = "done", !.res = [k |-> kind, f |-> f, pos |-> pos, msg |-> msg, why |-> why]]

(***************************************************************************)
(* DECODE                                                                  *)
(***************************************************************************)
DecInit(spec, s) ==
  [op |-> "dec", pc |-> "D.hdr", spec |-> spec, s |-> s, idx |-> 0,
   dec |-> <<>>, enc |-> <<>>, done |-> {}, bits |-> {}, plan |-> FALSE, todo |-> <<>>,
   cur |-> T, n |-> 0, d |-> <<>>, res |-> NoRes]

DFail(m, f, pos, msg, why) == Fail(m, "DecodeError", f, pos, msg, why)

TextWhyMsg(why) == IF why = "codec" THEN "Failed to decode field, unknown encoding specified"
                   ELSE "Failed to decode field, invalid data"

(* the header is on the wire exactly if the specification gives it a size *)
D_Header(m) == IF m.spec[H].ml <= 0 THEN [m EXCEPT !.pc = "D.type"]
               ELSE [m EXCEPT !.pc = "D.len", !.cur = H]

D_Type(m) ==
  LET fs == m.spec[T]
      w  == TypeLen(fs)
      d  == Slice(m.s, m.idx, w)
      m1 == [m EXCEPT !.dec = Put(@, T, <<>>), !.enc = Put(@, T, [len |-> <<>>, data |-> d])]
      tx == IF fs.de = "b" THEN [ok |-> TRUE, v |-> HexOf(d), why |-> ""] ELSE DecodeText(fs.de, d)
  IN IF Len(d) # w
     THEN DFail(m1, T, m.idx, "Field data is " \o ToString(Len(d)) \o " bytes, expecting " \o ToString(w), "short")
     ELSE IF ~tx.ok THEN DFail(m1, T, m.idx, TextWhyMsg(tx.why), tx.why)
     ELSE [m1 EXCEPT !.pc = "D.bm1", !.dec = Put(@, T, tx.v), !.done = @ \cup {T}, !.idx = @ + w]

UndefMsg == "Field is not defined in specifications"

(* one bitmap of 64 bits; ext: it extends the one just read for key k *)
D_Bitmap(m, k, off, ext, pcNext) ==
  IF k \notin DOMAIN m.spec THEN DFail(m, k, m.idx, UndefMsg, "undef")
  ELSE
  LET fs == m.spec[k]
      w  == BitmapLen(fs)
      d  == Slice(m.s, m.idx, w)
      ed == IF ext THEN m.enc[k].data \o d ELSE d
      m1 == [m EXCEPT !.enc = Put(@, k, [len |-> <<>>, data |-> ed]),
                      !.dec = IF ext THEN @ ELSE Put(@, k, <<>>),
                      !.done = @ \ {k}]
      tx == IF fs.de = "b" THEN [ok |-> TRUE, v |-> HexOf(d), why |-> ""] ELSE DecodeText(fs.de, d)
      nt == IF ext THEN m.dec[k] \o tx.v ELSE tx.v
  IN IF Len(d) # w
     THEN DFail(m1, k, m.idx, "Field data is " \o ToString(Len(ed)) \o " bytes, expecting "
                              \o ToString(IF ext THEN 2 * w ELSE w), "short")
     ELSE IF ~tx.ok THEN DFail(m1, k, m.idx, TextWhyMsg(tx.why), tx.why)
     ELSE IF ~(Len(tx.v) = 16 /\ IsHex(tx.v))
     THEN DFail([m1 EXCEPT !.dec = Put(@, k, nt)], k, m.idx, "Failed to decode field, non-hex data", "nonhex")
     ELSE [m1 EXCEPT !.pc = pcNext, !.dec = Put(@, k, nt), !.idx = @ + w, !.cur = k, !.done = @ \cup {k},
                     !.bits = @ \cup BitsOf(BytesOfHex(tx.v), off)]

D_Primary(m)   == D_Bitmap(m, P, 0, FALSE, "D.bm2")
D_Secondary(m) == IF 1 \notin m.bits THEN [m EXCEPT !.pc = "D.bm3"]
                  ELSE LET r == D_Bitmap(m, 1, 64, FALSE, "D.bm3")
                       IN [r EXCEPT !.bits = @ \ {1}]
D_Tertiary(m)  == IF 65 \notin m.bits THEN [m EXCEPT !.pc = "D.plan"]
                  ELSE LET r == D_Bitmap(m, 1, 128, TRUE, "D.plan")
                       IN [r EXCEPT !.bits = @ \ {65}]
D_Plan(m) == [m EXCEPT !.todo = SortKeys(m.bits), !.plan = TRUE, !.pc = "D.next"]

D_Next(m) == IF m.todo = <<>> THEN [m EXCEPT !.pc = "D.end"]
             ELSE [m EXCEPT !.cur = Head(m.todo), !.todo = Tail(m.todo), !.pc = "D.len"]

(* length of the current element: its prefix, or its fixed size *)
D_Len(m) ==
  LET k == m.cur IN
  IF k \notin DOMAIN m.spec THEN DFail(m, k, m.idx, UndefMsg, "undef")
  ELSE
  LET fs == m.spec[k]
      lb == Slice(m.s, m.idx, fs.lt)
      m1 == [m EXCEPT !.dec = Put(@, k, <<>>), !.enc = Put(@, k, [len |-> lb, data |-> <<>>])]
      p  == IF fs.lt = 0 THEN [ok |-> TRUE, n |-> fs.ml, d |-> Dec(fs.ml), why |-> ""]
            ELSE ParseLen(fs.le, lb)
      msg == CASE p.why = "lenbcd"   -> "Failed to decode field length, invalid BCD data"
               [] p.why = "lencodec" -> "Failed to decode field length, unknown encoding specified"
               [] p.why = "lentext"  -> "Failed to decode field length, invalid data"
               [] p.why = "lennum"   -> "Failed to decode field length, non-numeric data"
               [] OTHER -> ""
  IN IF Len(lb) # fs.lt
     THEN DFail(m1, k, m.idx, "Field length is " \o ToString(Len(lb)) \o " bytes wide, expecting " \o ToString(fs.lt), "shortlen")
     ELSE IF ~p.ok THEN DFail(m1, k, m.idx, msg, p.why)
     ELSE IF p.n > fs.ml
     THEN DFail(m1, k, m.idx, "Field data is " \o DecStr(p.d) \o " " \o UnitName(fs.nib)
                              \o ", larger than maximum " \o ToString(fs.ml), "toolong")
     ELSE [m1 EXCEPT !.pc = "D.data", !.idx = @ + fs.lt, !.n = p.n, !.d = p.d]

PadDigit(p) == IF p = <<>> THEN <<>> ELSE <<p[1]>>

(* strip one pad digit from odd nibble data: left pad, else right pad *)
Unpad(fs, tx) ==
  LET l == Upper(PadDigit(fs.lp))
      r == Upper(PadDigit(fs.rp))
  IN IF Len(l) = 1 /\ tx[1] = l[1] THEN [ok |-> TRUE, v |-> Tail(tx)]
     ELSE IF Len(r) = 1 /\ tx[Len(tx)] = r[1] THEN [ok |-> TRUE, v |-> SubSeq(tx, 1, Len(tx) - 1)]
     ELSE [ok |-> FALSE, v |-> <<>>]

D_Data(m) ==
  LET k  == m.cur
      fs == m.spec[k]
      w  == BytesFor(fs.nib, m.n)
      d  == Slice(m.s, m.idx, w)
      odd == fs.nib /\ m.n % 2 = 1
      have == IF fs.nib THEN 2 * Len(d) ELSE Len(d)
      m1 == [m EXCEPT !.enc = Put(@, k, [len |-> m.enc[k].len, data |-> d])]
      next == IF k = H THEN "D.type" ELSE "D.next"
      tx == IF fs.de = "b" THEN [ok |-> TRUE, v |-> HexOf(d), why |-> ""] ELSE DecodeText(fs.de, d)
      u  == IF fs.de = "b" /\ odd THEN Unpad(fs, tx.v) ELSE [ok |-> TRUE, v |-> tx.v]
      miss == "Field data is " \o ToString(have) \o " " \o UnitName(fs.nib) \o ", expecting " \o DecStr(m.d)
  IN IF m.n = 0 THEN [m EXCEPT !.pc = next, !.done = @ \cup {k}]
     ELSE IF Len(d) # w THEN DFail(m1, k, m.idx, miss, "short")
     ELSE IF fs.de # "b" /\ odd THEN DFail(m1, k, m.idx, miss, "oddtext")
     ELSE IF ~tx.ok THEN DFail(m1, k, m.idx, TextWhyMsg(tx.why), tx.why)
     ELSE IF ~u.ok THEN DFail([m1 EXCEPT !.dec = Put(@, k, tx.v)], k, m.idx, miss, "pad")
     ELSE [m1 EXCEPT !.dec = Put(@, k, u.v), !.idx = @ + w, !.done = @ \cup {k}, !.pc = next]

D_End(m) ==
  IF m.idx # Len(m.s) THEN DFail(m, m.cur, m.idx, "Extra data after last field", "extra")
  ELSE [m EXCEPT !.pc = "done", !.res = [NoRes EXCEPT !.k = "ok"]]

(***************************************************************************)
(* ENCODE                                                                  *)
(* doc: the dictionary's canonical keys; extra: its other keys, each       *)
(* [t, v] with t = "str" or "obj" and v the text of a string key.          *)
(***************************************************************************)
EncInit(spec, doc, extra) ==
  [op |-> "enc", pc |-> "E.start", spec |-> spec, doc |-> doc, extra |-> extra,
   enc |-> <<>>, raw |-> <<>>, done |-> {}, fset |-> {}, todo |-> <<>>, cur |-> T,
   n |-> 0, res |-> NoRes]

EFail(m, f, msg, why) == Fail(m, "EncodeError", f, 0, msg, why)

ETextMsg(why) == IF why = "codec" THEN "Failed to encode field, unknown encoding specified"
                 ELSE "Failed to encode field, invalid data"

(* bitmaps are generated, never taken from the caller *)
E_Start(m) == [m EXCEPT !.doc = Drop(@, {1, 65}), !.pc = "E.hdr"]

E_Header(m) ==
  IF m.spec[H].ml <= 0 THEN [m EXCEPT !.pc = "E.type"]
  ELSE IF H \notin DOMAIN m.doc
       THEN EFail(m, H, "Field data is required according to specifications", "need")
       ELSE [m EXCEPT !.cur = H, !.pc = "E.data"]

Pad(fs, tx) == IF fs.lp # <<>> THEN <<fs.lp[1]>> \o tx
               ELSE IF fs.rp # <<>> THEN Append(tx, fs.rp[1])
               ELSE tx

(* value -> [ok, v, n, why, msg]: wire bytes and size in the field's unit *)
EncodeValue(fs, tx, nib) ==
  IF fs.de = "b" THEN
    LET odd == Len(tx) % 2 = 1
        px  == IF nib /\ odd THEN Pad(fs, tx) ELSE tx
    IN IF tx = NotText
       THEN [ok |-> FALSE, v |-> <<>>, n |-> 0, why |-> "badtext", msg |-> ETextMsg("badtext")]
       ELSE IF Len(px) % 2 = 1
       THEN IF nib THEN [ok |-> FALSE, v |-> <<>>, n |-> 0, why |-> "oddnib",
                         msg |-> "Failed to encode field, odd-length nibble data, specify pad"]
            ELSE [ok |-> FALSE, v |-> <<>>, n |-> 0, why |-> "oddhex",
                  msg |-> "Failed to encode field, odd-length hex data"]
       ELSE IF ~IsHex(px)
       THEN [ok |-> FALSE, v |-> <<>>, n |-> 0, why |-> "nonhex", msg |-> "Failed to encode field, non-hex data"]
       ELSE [ok |-> TRUE, v |-> BytesOfHex(px), n |-> IF nib THEN Len(tx) ELSE Len(px) \div 2,
             why |-> "", msg |-> ""]
  ELSE
    LET e == EncodeText(fs.de, tx)
    IN IF ~e.ok THEN [ok |-> FALSE, v |-> <<>>, n |-> 0, why |-> e.why, msg |-> ETextMsg(e.why)]
       ELSE [ok |-> TRUE, v |-> e.v, n |-> IF nib THEN 2 * Len(e.v) ELSE Len(e.v), why |-> "", msg |-> ""]

E_Type(m) ==
  IF T \notin DOMAIN m.doc THEN EFail(m, T, "Field data is required", "need")
  ELSE
  LET fs == m.spec[T]
      w  == TypeLen(fs)
      e  == EncodeValue(fs, m.doc[T], FALSE)
      m1 == [m EXCEPT !.enc = Put(@, T, [len |-> <<>>, data |-> e.v])]
  IN IF ~e.ok THEN EFail(m1, T, e.msg, e.why)
     ELSE IF e.n # w
     THEN EFail(m1, T, "Field data is " \o ToString(e.n) \o " bytes, expecting " \o ToString(w), "fixed")
     ELSE [m1 EXCEPT !.raw = @ \o e.v, !.done = @ \cup {T}, !.pc = "E.keys"]

InRanges(c, R) == \E i \in 1..Len(R) : R[i][1] <= c /\ c <= R[i][2]
IsNumeric(tx) == tx # <<>> /\ \A i \in 1..Len(tx) : InRanges(tx[i], NumericRanges)
(* plain decimal spelling too large for the integer keys used here *)
BigNumber(tx) == Len(tx) <= 4300 /\ tx[1] # 48 /\ \A i \in 1..Len(tx) : IsDigit(tx[i])

E_Keys(m) ==
  LET objs  == {i \in 1..Len(m.extra) : m.extra[i].t # "str"}
      nums  == {i \in 1..Len(m.extra) : m.extra[i].t = "str" /\ IsNumeric(m.extra[i].v)}
      alias == {i \in nums : ~BigNumber(m.extra[i].v)}
      F     == {k \in DOMAIN m.doc : k >= 0}
      out   == {k \in F : k \notin 1..192}
      outs  == SortKeys(out)
      list  == FoldLeft(LAMBDA a, i : IF a = "" THEN ToString(i) ELSE a \o ", " \o ToString(i), "", outs)
  IN IF objs # {} THEN EFail(m, P, "Dictionary contains invalid fields", "badkey")
     ELSE IF alias # {} THEN EFail(m, P, "Dictionary contains invalid fields", "badkey")
     ELSE IF nums # {} THEN EFail(m, P, "Dictionary contains fields outside of 1-192 range", "range")
     ELSE IF out # {} THEN EFail(m, P, "Dictionary contains fields outside of 1-192 range [" \o list \o "]", "range")
     ELSE [m EXCEPT !.fset = F, !.pc = "E.bm1"]

(* bits: what the bitmap announces *)
E_Bitmap(m, k, bits, off, ext, pcNext) ==
  IF k \notin DOMAIN m.spec THEN EFail(m, k, UndefMsg, "undef")
  ELSE
  LET fs == m.spec[k]
      bm == BitmapOf(bits, off)
      hx == HexOf(bm)
      e  == IF fs.de = "b" THEN [ok |-> TRUE, v |-> bm, why |-> ""] ELSE EncodeText(fs.de, hx)
      m1 == [m EXCEPT !.doc = Put(@, k, IF ext THEN m.doc[k] \o hx ELSE hx),
                      !.enc = IF ext THEN @ ELSE Put(@, k, [len |-> <<>>, data |-> <<>>]),
                      !.done = @ \ {k}]
      old == IF ext THEN m.enc[k].data ELSE <<>>
  IN IF ~e.ok THEN EFail(m1, k, ETextMsg(e.why), e.why)
     ELSE [m1 EXCEPT !.enc = Put(@, k, [len |-> <<>>, data |-> old \o e.v]),
                     !.raw = @ \o e.v, !.done = @ \cup {k}, !.pc = pcNext]

HasSecondary(F) == \E k \in F : k >= 65
HasTertiary(F)  == \E k \in F : k >= 129
PrimaryBits(F)   == {k \in F : k <= 64} \cup (IF HasSecondary(F) THEN {1} ELSE {})
SecondaryBits(F) == {k \in F : 65 <= k /\ k <= 128} \cup (IF HasTertiary(F) THEN {65} ELSE {})
TertiaryBits(F)  == {k \in F : 129 <= k}

E_Primary(m)   == E_Bitmap(m, P, PrimaryBits(m.fset), 0, FALSE, "E.bm2")
E_Secondary(m) == IF HasSecondary(m.fset)
                  THEN E_Bitmap(m, 1, SecondaryBits(m.fset), 64, FALSE, "E.bm3")
                  ELSE [m EXCEPT !.pc = "E.bm3"]
E_Tertiary(m)  == IF HasTertiary(m.fset)
                  THEN E_Bitmap(m, 1, TertiaryBits(m.fset), 128, TRUE, "E.plan")
                  ELSE [m EXCEPT !.pc = "E.plan"]
E_Plan(m) == [m EXCEPT !.todo = SortKeys(m.fset), !.pc = "E.next"]

E_Next(m) == IF m.todo = <<>>
             THEN [m EXCEPT !.pc = "done", !.res = [NoRes EXCEPT !.k = "ok"]]
             ELSE [m EXCEPT !.cur = Head(m.todo), !.todo = Tail(m.todo), !.pc = "E.data"]

E_Data(m) ==
  LET k == m.cur IN
  IF k \notin DOMAIN m.spec THEN EFail(m, k, UndefMsg, "undef")
  ELSE
  LET fs == m.spec[k]
      e  == EncodeValue(fs, m.doc[k], fs.nib)
      m1 == [m EXCEPT !.enc = Put(@, k, [len |-> <<>>, data |-> e.v])]
  IN IF ~e.ok THEN EFail(m1, k, e.msg, e.why)
     ELSE [m1 EXCEPT !.n = e.n, !.pc = "E.len"]

E_Len(m) ==
  LET k  == m.cur
      fs == m.spec[k]
      lp == IF fs.lt = 0 THEN [ok |-> TRUE, v |-> <<>>, why |-> ""] ELSE LenPrefix(fs.le, fs.lt, m.n)
      msg == IF lp.why = "lencodec" THEN "Failed to encode field length, unknown encoding specified"
             ELSE IF lp.why = "lenbad" THEN "Failed to encode field length, "    \* and what the encoding says
             ELSE "Failed to encode field length, field length does not fit into configured field size"
      got == "Field data is " \o ToString(m.n) \o " " \o UnitName(fs.nib)
  IN IF fs.lt = 0 /\ m.n # fs.ml THEN EFail(m, k, got \o ", expecting " \o ToString(fs.ml), "fixed")
     ELSE IF fs.lt > 0 /\ m.n > fs.ml
     THEN EFail(m, k, got \o ", larger than maximum " \o ToString(fs.ml), "toolong")
     ELSE IF ~lp.ok THEN EFail(m, k, msg, lp.why)
     ELSE [m EXCEPT !.enc = Put(@, k, [len |-> lp.v, data |-> m.enc[k].data]),
                    !.raw = @ \o lp.v \o m.enc[k].data,
                    !.done = @ \cup {k},
                    !.pc = IF k = H THEN "E.type" ELSE "E.next"]

ESizeCauses == {"fixed", "toolong", "lenfit", "lencodec", "lenbad"}

(***************************************************************************)
Step(m) ==
  CASE m.pc = "D.hdr"  -> D_Header(m)
    [] m.pc = "D.type" -> D_Type(m)
    [] m.pc = "D.bm1"  -> D_Primary(m)
    [] m.pc = "D.bm2"  -> D_Secondary(m)
    [] m.pc = "D.bm3"  -> D_Tertiary(m)
    [] m.pc = "D.plan" -> D_Plan(m)
    [] m.pc = "D.next" -> D_Next(m)
    [] m.pc = "D.len"  -> D_Len(m)
    [] m.pc = "D.data" -> D_Data(m)
    [] m.pc = "D.end"  -> D_End(m)
    [] m.pc = "E.start" -> E_Start(m)
    [] m.pc = "E.hdr"  -> E_Header(m)
    [] m.pc = "E.type" -> E_Type(m)
    [] m.pc = "E.keys" -> E_Keys(m)
    [] m.pc = "E.bm1"  -> E_Primary(m)
    [] m.pc = "E.bm2"  -> E_Secondary(m)
    [] m.pc = "E.bm3"  -> E_Tertiary(m)
    [] m.pc = "E.plan" -> E_Plan(m)
    [] m.pc = "E.next" -> E_Next(m)
    [] m.pc = "E.data" -> E_Data(m)
    [] m.pc = "E.len"  -> E_Len(m)

RECURSIVE Run(_)
Run(m) == IF m.pc = "done" THEN m ELSE Run(TLCEval(Step(m)))

Decode(spec, s) == Run(DecInit(spec, s))
Encode(spec, doc, extra) == Run(EncInit(spec, doc, extra))

(***************************************************************************)
(* Notions used by the properties                                          *)
(***************************************************************************)
(* encodings in which every hex digit is one byte *)
ByteWide(c) == c \in SingleByte \cup {"utf8"}

WellFormed(spec) == {H, T, P} \subseteq DOMAIN spec

UsableField(fs) ==
  /\ fs.de = "b" \/ fs.de \in Codecs
  /\ fs.lt = 0 \/ fs.le \in {"b", "bcd"} \/ ByteWide(fs.le)
  /\ \A pad \in {fs.lp, fs.rp} : pad = <<>> \/ HexVal(pad[1]) # -1
Usable(spec) ==
  /\ WellFormed(spec)
  /\ \A k \in DOMAIN spec : UsableField(spec[k])
  /\ spec[P].de = "b" \/ ByteWide(spec[P].de)
  /\ 1 \in DOMAIN spec => (spec[1].de = "b" \/ ByteWide(spec[1].de))

Fields(doc) == {k \in DOMAIN doc : k \in FieldKeys /\ k # 65}
OnWire(spec, doc) == Fields(doc) \cup {T} \cup (IF spec[H].ml > 0 THEN {H} ELSE {})

(* the value decode returns for an encoded value *)
Norm(fs, tx) == IF fs.de = "b" THEN Upper(tx) ELSE tx

(* bytes of an encoded document in wire order *)
Wire(enc) == LET ks == SortKeys(DOMAIN enc)
             IN FlattenBytes(TLCEval([i \in 1..(2 * Len(ks)) |->
                  LET e == enc[ks[(i + 1) \div 2]] IN IF i % 2 = 1 THEN e.len ELSE e.data]))
=============================================================================
