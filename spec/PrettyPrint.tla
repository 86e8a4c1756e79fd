---------------------------- MODULE PrettyPrint ----------------------------
(***************************************************************************)
(* What pp writes for a decoded or encoded document.                       *)
(*                                                                         *)
(* Text is Seq(code points).  A printable value is [b, v]: b tells bytes   *)
(* from text.  An element to print is [k, len, val]: key, length bytes     *)
(* (<<>> for none) and value.                                              *)
(***************************************************************************)
EXTENDS Iso8583

SQ == 39     \* '
DQ == 34     \* "
BS == 92     \* \
NL == 10
SP == 32

LoDig(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE LoHex(_, _)
LoHex(n, w) == IF w = 0 THEN <<>> ELSE Append(LoHex(n \div 16, w - 1), LoDig(n % 16))

Spaces(n) == TLCEval([i \in 1..(IF n > 0 THEN n ELSE 0) |-> SP])
Has(tx, c) == \E i \in 1..Len(tx) : tx[i] = c

PrintableChar(c) == IF c < 128 THEN c >= 32 /\ c < 127
                    ELSE ~InRanges(c, UnprintableRanges)

EscChar(c, q, isb) ==
  CASE c = BS \/ c = q -> <<BS, c>>
    [] c = 9  -> <<BS, 116>>
    [] c = NL -> <<BS, 110>>
    [] c = 13 -> <<BS, 114>>
    [] c >= 32 /\ c < 127 -> <<c>>
    [] c < 32 \/ c = 127 \/ isb -> <<BS, 120>> \o LoHex(c, 2)
    [] OTHER -> IF PrintableChar(c) THEN <<c>>
                ELSE IF c < 256 THEN <<BS, 120>> \o LoHex(c, 2)
                ELSE IF c < 65536 THEN <<BS, 117>> \o LoHex(c, 4)
                ELSE <<BS, 85>> \o LoHex(c, 8)

QuoteOf(tx) == IF Has(tx, SQ) /\ ~Has(tx, DQ) THEN DQ ELSE SQ

Repr(x) ==
  LET q == QuoteOf(x.v)
  IN (IF x.b THEN <<98>> ELSE <<>>) \o <<q>>
     \o FlattenBytes(TLCEval([i \in 1..Len(x.v) |-> EscChar(x.v[i], q, x.b)])) \o <<q>>

(*--------------------- reading printed literals back ----------------------*)
(* tx: literals with blanks in between -> [ok, v]: sequence of [b, v]        *)
ReadLiterals(tx) ==
  LET init == [m |-> "gap", b |-> FALSE, q |-> 0, cur |-> <<>>, need |-> 0, acc |-> 0,
               out |-> <<>>]
      take(a, c) == [a EXCEPT !.m = "lit", !.cur = Append(@, c)]
      step(a, c) ==
        CASE a.m = "bad" -> a
          [] a.m = "gap" ->
               IF c \in {SP, NL} THEN a
               ELSE IF c \in {SQ, DQ} THEN [a EXCEPT !.m = "lit", !.b = FALSE, !.q = c, !.cur = <<>>]
               ELSE IF c = 98 THEN [a EXCEPT !.m = "b"]
               ELSE [a EXCEPT !.m = "bad"]
          [] a.m = "b" ->
               IF c \in {SQ, DQ} THEN [a EXCEPT !.m = "lit", !.b = TRUE, !.q = c, !.cur = <<>>]
               ELSE [a EXCEPT !.m = "bad"]
          [] a.m = "lit" ->
               IF c = a.q THEN [a EXCEPT !.m = "gap", !.out = Append(@, [b |-> a.b, v |-> a.cur])]
               ELSE IF c = BS THEN [a EXCEPT !.m = "esc"]
               ELSE IF c \in {NL, 13, 0} \/ (a.b /\ c > 127) THEN [a EXCEPT !.m = "bad"]
               ELSE take(a, c)
          [] a.m = "esc" ->
               CASE c \in {BS, SQ, DQ} -> take(a, c)
                 [] c = 116 -> take(a, 9)
                 [] c = 110 -> take(a, NL)
                 [] c = 114 -> take(a, 13)
                 [] c = 120 -> [a EXCEPT !.m = "hex", !.need = 2, !.acc = 0]
                 [] c = 117 /\ ~a.b -> [a EXCEPT !.m = "hex", !.need = 4, !.acc = 0]
                 [] c = 85 /\ ~a.b -> [a EXCEPT !.m = "hex", !.need = 8, !.acc = 0]
                 [] OTHER -> [a EXCEPT !.m = "bad"]
          [] a.m = "hex" ->
               LET h == HexVal(c)
                   n == a.acc * 16 + h
               IN IF h = -1 \/ a.acc > 2000000 THEN [a EXCEPT !.m = "bad"]
                  ELSE IF a.need = 1 THEN take([a EXCEPT !.need = 0], n)
                  ELSE [a EXCEPT !.need = @ - 1, !.acc = n]
      r == FoldLeft(step, init, tx)
  IN [ok |-> r.m = "gap", v |-> r.out]

(*------------------------------ layout ------------------------------------*)
KeyText(k) == IF k = H THEN <<104>> ELSE IF k = T THEN <<116>> ELSE IF k = P THEN <<112>>
              ELSE LET d == Dec(k) IN TLCEval([i \in 1..Len(d) |-> 48 + d[i]])
Cell(tx, w) == SubSeq(tx, 1, IF Len(tx) < w THEN Len(tx) ELSE w) \o Spaces(w - Len(tx))

(* everything before the value *)
HeadOf(e, desc, dw) ==
  KeyText(e.k) \o Spaces(3 - Len(KeyText(e.k)))
  \o (IF dw > 0 THEN <<SP>> \o Cell(desc, dw) ELSE <<>>)
  \o <<58, SP>>
  \o (IF e.len # <<>> THEN Append(Repr([b |-> TRUE, v |-> e.len]), SP) ELSE <<>>)

(* pieces a value is folded into, when folded *)
FoldText(v, width) ==
  LET w == IF width > 3 THEN width - 2 ELSE 1
  IN TLCEval([i \in 1..((Len(v) + w - 1) \div w) |-> Slice(v, (i - 1) * w, w)])
ReprLen(v) == Len(Repr([b |-> TRUE, v |-> v]))
FoldBytes(v, width) ==
  LET step(a, b) ==
        LET c == Append(a.cur, b)
        IN IF ReprLen(c) > width
           THEN [out |-> IF a.cur # <<>> THEN Append(a.out, a.cur) ELSE a.out, cur |-> <<b>>]
           ELSE [a EXCEPT !.cur = c]
      r == FoldLeft(step, [out |-> <<>>, cur |-> <<>>], v)
  IN IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)

Pieces(e, indent, lw) ==
  IF Len(Repr(e.val)) + indent <= lw \/ Len(e.val.v) <= 1 THEN <<e.val.v>>
  ELSE IF e.val.b THEN FoldBytes(e.val.v, lw - indent) ELSE FoldText(e.val.v, lw - indent)

PrintElement(e, desc, dw, lw) ==
  LET head == HeadOf(e, desc, dw)
      ps   == Pieces(e, Len(head), lw)
  IN head \o FlattenBytes(TLCEval([i \in 1..Len(ps) |->
               (IF i > 1 THEN <<NL>> \o Spaces(Len(head)) ELSE <<>>)
               \o Repr([b |-> e.val.b, v |-> ps[i]])])) \o <<NL>>

(* keys printed, in order *)
PrintedKeys(dom, spec) ==
  SortKeys({k \in dom : k >= 0 \/ k \in {T, P} \/ (k = H /\ spec[H].ml > 0)})

(* doc: key -> [len, val] *)
PrintDoc(doc, spec, dw, lw) ==
  LET ks == PrintedKeys(DOMAIN doc, spec)
      desc(k) == IF k \in DOMAIN spec THEN spec[k].desc ELSE <<>>
  IN FlattenBytes(TLCEval([i \in 1..Len(ks) |->
        PrintElement([k |-> ks[i], len |-> doc[ks[i]].len, val |-> doc[ks[i]].val],
                     desc(ks[i]), dw, lw)]))

(*------------------------- judging printed text ---------------------------*)
Lines(tx) ==
  LET r == FoldLeft(LAMBDA a, c : IF c = NL THEN [out |-> Append(a.out, a.cur), cur |-> <<>>]
                                  ELSE [a EXCEPT !.cur = Append(@, c)],
                    [out |-> <<>>, cur |-> <<>>], tx)
  IN [ok |-> r.cur = <<>>, v |-> r.out]

Indented(ln) == ln = <<>> \/ ln[1] = SP
(* lines grouped by printed element: each group starts with an unindented line *)
Groups(lines) ==
  FoldLeft(LAMBDA a, ln : IF Indented(ln) /\ a # <<>>
                          THEN [a EXCEPT ![Len(a)] = Append(@, ln)]
                          ELSE Append(a, <<ln>>), <<>>, lines)

StartsWith(tx, p) == Len(tx) >= Len(p) /\ SubSeq(tx, 1, Len(p)) = p
JoinLines(ls) == FlattenBytes(TLCEval([i \in 1..Len(ls) |-> ls[i] \o <<NL>>]))

(* The literals of a group: the text behind the first ": " that reads as    *)
(* literals only.                                                           *)
GroupLiterals(g) ==
  LET tx == JoinLines(g)
      C  == {i \in 1..(Len(g[1]) - 1) : g[1][i] = 58 /\ g[1][i + 1] = SP
                                        /\ ReadLiterals(SubSeq(tx, i + 2, Len(tx))).ok}
  IN IF C = {} THEN <<>>
     ELSE ReadLiterals(SubSeq(tx, (CHOOSE i \in C : \A j \in C : i <= j) + 2, Len(tx))).v

(* C16: exactly the expected elements, in order, each readable as its value *)
PrintedContent(tx, doc, spec) ==
  LET ks == PrintedKeys(DOMAIN doc, spec)
      ls == Lines(tx)
      gs == Groups(ls.v)
      good(i) ==
        LET k  == ks[i]
            kt == KeyText(k)
            g  == gs[i]
            ln == g[1]
            keyok == StartsWith(ln, kt) /\ Len(ln) > Len(kt) /\ ln[Len(kt) + 1] \in {SP, 58}
            lits == GroupLiterals(g)
            skip == IF doc[k].len # <<>> THEN 1 ELSE 0
        IN /\ keyok
           /\ Len(lits) > skip
           /\ skip = 1 => lits[1] = [b |-> TRUE, v |-> doc[k].len]
           /\ \A j \in (skip + 1)..Len(lits) : lits[j].b = doc[k].val.b
           /\ FlattenBytes(TLCEval([j \in 1..(Len(lits) - skip) |-> lits[j + skip].v])) = doc[k].val.v
  IN IF ~ls.ok \/ Len(gs) # Len(ks) THEN {"elements"}
     ELSE IF \A i \in 1..Len(ks) : good(i) THEN {} ELSE {"value"}

(* C17: columns, indents and widths of text whose elements are as expected *)
LineRoom(ln, val, lits, lw) ==
  Len(ln) <= lw
  \/ (Len(lits) = 1 /\ (Len(lits[1].v) <= 1
                        \/ (~val.b /\ Len(Repr(lits[1])) # Len(lits[1].v) + 2)))
PrintedLayout(tx, doc, spec, dw, lw) ==
  LET ks == PrintedKeys(DOMAIN doc, spec)
      ls == Lines(tx)
      gs == Groups(ls.v)
      desc(k) == IF k \in DOMAIN spec THEN spec[k].desc ELSE <<>>
      bad(i) ==
        LET k    == ks[i]
            e    == [k |-> k, len |-> doc[k].len, val |-> doc[k].val]
            head == HeadOf(e, desc(k), dw)
            g    == gs[i]
            n    == Len(head)
            cont == Spaces(n)
            body(j) == SubSeq(g[j], n + 1, Len(g[j]))
            lits(j) == ReadLiterals(body(j)).v
            fits == Len(Repr(e.val)) + n <= lw
        IN IF ~StartsWith(g[1], head) THEN {"head"}
           ELSE IF \E j \in 2..Len(g) : ~StartsWith(g[j], cont) \/ body(j) = <<>> \/ body(j)[1] = SP
           THEN {"indent"}
           ELSE IF body(1) = <<>> \/ body(1)[1] = SP \/ \E j \in 1..Len(g) : Len(lits(j)) # 1
           THEN {"column"}
           ELSE IF fits /\ Len(g) > 1 THEN {"folded"}
           ELSE IF ~fits /\ Len(e.val.v) > 0 /\ \E j \in 1..Len(g) : ~LineRoom(g[j], e.val, lits(j), lw)
           THEN {"width"} ELSE {}
  IN IF Len(gs) # Len(ks)
     THEN IF \E i \in 1..Len(ls.v) : ls.v[i] # <<>> /\ ls.v[i][1] \in {SQ, DQ, 98} THEN {"indent"} ELSE {}
     ELSE UNION {bad(i) : i \in 1..Len(ks)}
=============================================================================
