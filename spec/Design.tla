------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* Model checking of the codec machine itself.                             *)
(*                                                                         *)
(* A behaviour is a chain of calls in which each call consumes the result  *)
(* of the one before: encode, decode, encode, decode, ...  TLC takes the   *)
(* machine of Iso8583 step by step, checks the invariants below in every   *)
(* state and the properties C01..C22 on every outcome.  Finished chains    *)
(* are printed; the harness replays them in the implementation and         *)
(* compares every outcome with the one printed.                            *)
(*                                                                         *)
(* MC_Field, MC_Message and MC_Bitmap supply the initial states.           *)
(***************************************************************************)
EXTENDS Show

VARIABLES mcCall,      \* the machine of the call in progress
          mcPast       \* the finished calls of the chain
mcVars == <<mcCall, mcPast>>

MaxChain == 3

(***************************************************************************)
(* chains                                                                  *)
(***************************************************************************)
Finished == mcCall.pc = "done"
LastCall == Finished /\ (MErr(mcCall) \/ Len(mcPast) >= MaxChain)

Follow == IF mcCall.op = "dec" THEN EncInit(mcCall.spec, mcCall.dec, <<>>)
          ELSE DecInit(mcCall.spec, mcCall.raw)

(* what is kept of a finished call: its arguments and its outcome *)
Kept(m, arg) == [op |-> m.op, arg |-> arg, o |-> Seen(m)]

Chain(past) == [sp |-> ShowSpec(mcCall.spec), op |-> past[1].op,
                s |-> IF past[1].op = "dec" THEN past[1].arg ELSE <<>>,
                d |-> IF past[1].op = "enc" THEN KV(past[1].arg) ELSE KV(<<>>),
                x |-> past[1].o.dx,
                out |-> TLCEval([i \in 1..Len(past) |-> ShowOut(past[i].o)])]

(* one step of the call in progress *)
Work == /\ ~Finished
        /\ \E m \in {Step(mcCall)} :
             /\ mcCall' = m
             /\ IF m.pc # "done" THEN UNCHANGED mcPast
                ELSE \E arg \in {IF m.op = "dec" THEN m.s ELSE mcPast[Len(mcPast)].arg} :
                       mcPast' = [mcPast EXCEPT ![Len(mcPast)] = Kept(m, arg)]
             /\ (m.pc = "done" /\ (MErr(m) \/ Len(mcPast) >= MaxChain)) => PrintT(<<"R", ToJson(Chain(mcPast'))>>)
(* the next call of the chain *)
GoOn == /\ Finished /\ ~LastCall
        /\ mcCall' = Follow
        /\ mcPast' = Append(mcPast, [op |-> Follow.op, arg |-> IF Follow.op = "dec" THEN Follow.s ELSE Follow.doc, o |-> <<>>])

StartWith(m) == /\ mcCall = m
                /\ mcPast = <<[op |-> m.op, arg |-> IF m.op = "dec" THEN m.s ELSE m.doc, o |-> <<>>]>>
MCNext == Work \/ GoOn

(***************************************************************************)
(* invariants                                                              *)
(***************************************************************************)
DoneWire(m) == Wire(OnlyKeys(m.enc, m.done))

(* decode: what was taken is what was consumed; encode: what was written is *)
(* what is recorded (C05, C07, C12)                                         *)
Tiling ==
  IF mcCall.op = "dec"
  THEN /\ IsPrefixOf(Wire(mcCall.enc), mcCall.s)
       /\ mcCall.pc \in {"D.hdr", "D.type", "D.bm1", "D.bm2", "D.bm3", "D.plan", "D.next", "D.end"}
            => DoneWire(mcCall) = SubSeq(mcCall.s, 1, mcCall.idx)
       /\ mcCall.pc = "D.data" => DoneWire(mcCall) \o mcCall.enc[mcCall.cur].len = SubSeq(mcCall.s, 1, mcCall.idx)
  ELSE mcCall.raw = DoneWire(mcCall)

(* elements are worked on in wire order, each once, and only announced ones *)
InOrder ==
  /\ \A i \in 1..Len(mcCall.todo) : \A j \in 1..Len(mcCall.todo) : i < j => mcCall.todo[i] < mcCall.todo[j]
  /\ \A k \in mcCall.done : \A i \in 1..Len(mcCall.todo) : k < mcCall.todo[i]
  /\ mcCall.op = "dec" /\ mcCall.plan
       => {k \in DOMAIN mcCall.dec : k \in FieldKeys} \subseteq mcCall.bits
  /\ 65 \notin DOMAIN mcCall.enc
  /\ mcCall.done \subseteq DOMAIN mcCall.enc

(* fields that are done never change again *)
Frozen == [][\/ Len(mcPast') # Len(mcPast)
             \/ \A k \in mcCall.done \ {1} : k \in mcCall'.done /\ mcCall'.enc[k] = mcCall.enc[k]]_mcVars

(* every step brings the end of the call nearer *)
Rank(m) ==
  LET left == 3 * Len(m.todo) + 10 IN
  CASE m.pc = "done" -> 0
    [] m.pc \in {"D.end"} -> 9
    [] m.pc \in {"D.next", "E.next"} -> left
    [] m.pc \in {"D.len", "E.data"} -> IF m.cur = H THEN 1999 ELSE left + 2
    [] m.pc \in {"D.data", "E.len"} -> IF m.cur = H THEN 1998 ELSE left + 1
    [] m.pc = "E.start" -> 2001
    [] m.pc \in {"D.hdr", "E.hdr"} -> 2000
    [] m.pc \in {"D.type", "E.type"} -> 1990
    [] m.pc = "E.keys" -> 1985
    [] m.pc \in {"D.bm1", "E.bm1"} -> 1980
    [] m.pc \in {"D.bm2", "E.bm2"} -> 1970
    [] m.pc \in {"D.bm3", "E.bm3"} -> 1960
    [] m.pc \in {"D.plan", "E.plan"} -> 1950
Progress == [][Len(mcPast') # Len(mcPast) \/ Rank(mcCall') < Rank(mcCall)]_mcVars

DecProps == {"C04", "C05", "C07", "C08", "C09", "C10", "C12", "C19", "C22"}
EncProps == {"C01", "C03", "C05", "C06", "C08", "C09", "C11", "C13", "C14", "C19", "C21", "C22"}

(* the machine's own outcomes satisfy every property *)
Satisfied ==
  Finished =>
    LET n == Len(mcPast)
        c == mcPast[n]
    IN /\ c.op = "dec" => \A p \in DecProps : JudgeDec(p, mcCall.spec, c.arg, mcCall, c.o).c = {}
       /\ c.op = "enc" => \A p \in EncProps : JudgeEnc(p, mcCall.spec, c.arg, c.o.dx, mcCall, c.o).c = {}
       /\ (c.op = "dec" /\ n > 1)
             => RoundC01(mcCall.spec, mcPast[n-1].arg, Encode(mcCall.spec, mcPast[n-1].arg, <<>>), mcPast[n-1].o, c.o).c = {}
       /\ (c.op = "enc" /\ n > 1)
             => AgainC02(mcCall.spec, mcPast[n-1].arg, Decode(mcCall.spec, mcPast[n-1].arg), mcPast[n-1].o, c.o).c = {}
       /\ (c.op = "dec" /\ n > 2) => StableC02(mcCall.spec, mcPast[n-2].o, mcPast[n-1].o, c.o).c = {}

(* what encode means, said in one breath: the message of a document        *)
FieldOf(fs, tx) ==
  LET e == EncodeValue(fs, tx, fs.nib)
      lp == IF fs.lt = 0 THEN [ok |-> e.n = fs.ml, v |-> <<>>] ELSE LenPrefix(fs.le, fs.lt, e.n)
  IN IF ~e.ok THEN [ok |-> FALSE, v |-> <<>>]
     ELSE [ok |-> lp.ok /\ e.n <= fs.ml, v |-> IF lp.ok THEN lp.v \o e.v ELSE <<>>]
TypeOf(fs, tx) == LET e == EncodeValue(fs, tx, FALSE) IN [ok |-> e.ok /\ Len(e.v) = TypeLen(fs), v |-> e.v]
BitmapText(fs, B, off) == IF fs.de = "b" THEN [ok |-> TRUE, v |-> BitmapOf(B, off)] ELSE EncodeText(fs.de, HexOf(BitmapOf(B, off)))
Meaning(spec, doc, extra) ==
  LET F  == {k \in DOMAIN doc : k >= 0} \ {1, 65}
      F2 == {k \in F : k > 64} # {}
      F3 == {k \in F : k > 128} # {}
      two  == F2 => 1 \in DOMAIN spec
      head == IF spec[H].ml > 0 THEN (IF H \in DOMAIN doc THEN FieldOf(spec[H], doc[H]) ELSE [ok |-> FALSE]) ELSE [ok |-> TRUE, v |-> <<>>]
      type == IF T \in DOMAIN doc THEN TypeOf(spec[T], doc[T]) ELSE [ok |-> FALSE]
      b1 == BitmapText(spec[P], F \cup (IF F2 THEN {1} ELSE {}), 0)
      b2 == IF F2 THEN BitmapText(spec[1], F \cup (IF F3 THEN {65} ELSE {}), 64) ELSE [ok |-> TRUE, v |-> <<>>]
      b3 == IF F3 THEN BitmapText(spec[1], F, 128) ELSE [ok |-> TRUE, v |-> <<>>]
      fields == TLCEval([k \in F |-> FieldOf(spec[k], doc[k])])
      parts == <<head.v, type.v, b1.v, b2.v, b3.v>>
      order == SortKeys(F)
  IN IF /\ head.ok /\ type.ok
        /\ \A i \in 1..Len(extra) : extra[i].t = "str" /\ ~IsNumeric(extra[i].v)
        /\ F \subseteq FieldKeys /\ F \subseteq DOMAIN spec /\ two
        /\ b1.ok /\ b2.ok /\ b3.ok /\ \A k \in F : fields[k].ok
     THEN [ok |-> TRUE, v |-> FlattenBytes(parts) \o FlattenBytes(TLCEval([i \in 1..Len(order) |-> fields[order[i]].v]))]
     ELSE [ok |-> FALSE, v |-> <<>>]
Meant ==
  (Finished /\ mcCall.op = "enc") =>
    \E e \in {Meaning(mcCall.spec, mcPast[Len(mcPast)].arg, mcCall.extra)} :
      e.ok = ~MErr(mcCall) /\ (e.ok => e.v = mcCall.raw)

(* chains under a usable specification never break (C01, C02) *)
Unbroken == (Finished /\ Len(mcPast) > 1 /\ Usable(mcCall.spec)) => ~MErr(mcCall)
=============================================================================
