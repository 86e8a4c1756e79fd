-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* Outcomes of the machine as an observer sees them, and their printed     *)
(* form, read by harness/models.py.  Sizes come from the environment.      *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils, Randomization

Num(name) == atoi(IOEnv[name])
(* n elements of S at random (TLC's -seed), all of them for n = 0 *)
Pick(n, S) == IF n = 0 \/ n >= Cardinality(S) THEN S ELSE RandomSubset(n, S)

GoodTypes == [doc |-> "dict", enc |-> "dict", raw |-> "bytearray", dk |-> <<"str">>, dv |-> <<"str">>,
              ek |-> <<"str">>, ev |-> <<"dict(data:bytes,len:bytes)">>]
ErrText(m) == m.res.msg \o ": field " \o KeyName(m.res.f)
              \o (IF m.op = "dec" THEN " pos " \o ToString(m.res.pos) ELSE "")
Seen(m) ==
  [k |-> m.res.k, d |-> IF m.op = "dec" THEN m.dec ELSE m.doc,
   dx |-> IF m.op = "dec" THEN <<>> ELSE m.extra,
   e |-> m.enc, ex |-> <<>>,
   raw |-> IF m.op = "dec" THEN (IF MErr(m) THEN m.s ELSE <<>>) ELSE (IF MErr(m) THEN <<>> ELSE m.raw),
   f |-> m.res.f, pos |-> m.res.pos, msg |-> m.res.msg,
   txt |-> IF MErr(m) THEN ErrText(m) ELSE "", own |-> TRUE, ty |-> GoodTypes]

KV(f) == LET ks == SortKeys(DOMAIN f) IN [k |-> ks, v |-> TLCEval([i \in 1..Len(ks) |-> f[ks[i]]])]
ShowOut(o) == LET e == SortKeys(DOMAIN o.e) IN
  [k |-> o.k, d |-> KV(o.d), ek |-> e, el |-> TLCEval([i \in 1..Len(e) |-> o.e[e[i]].len]),
   ed |-> TLCEval([i \in 1..Len(e) |-> o.e[e[i]].data]), raw |-> o.raw, f |-> o.f, pos |-> o.pos, msg |-> o.msg]
ShowFs(f) == [de |-> f.de, le |-> f.le, lt |-> f.lt, ml |-> f.ml, nib |-> f.nib, lp |-> f.lp, rp |-> f.rp]
ShowSpec(sp) == LET ks == SortKeys(DOMAIN sp) IN [k |-> ks, v |-> TLCEval([i \in 1..Len(ks) |-> ShowFs(sp[ks[i]])])]
=============================================================================
