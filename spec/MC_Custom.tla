------------------------------ MODULE MC_Custom ------------------------------
(***************************************************************************)
(* Own specifications (C18).  A caller starts from a starter               *)
(* specification, copies it, adapts entries of the copy one after another, *)
(* copies the copy, and uses any of them in between.  An adaptation        *)
(* changes one entry of one specification and nothing else; a message of   *)
(* untouched fields is the one the starter gives.  The harness performs    *)
(* the printed actions on the specifications as shipped.                   *)
(***************************************************************************)
EXTENDS Show

VARIABLES mcArena,     \* the specifications: both starters, then the copies
          mcTouched,   \* per specification, the keys adapted since it left the starter, and that starter
          mcLog
mcVars == <<mcArena, mcTouched, mcLog>>

Rich(name) == LET t == Starter(name) IN TLCEval([k \in DOMAIN t |-> t[k] @@ ("desc" :> <<>>)])
Shipped == <<Rich("default"), Rich("default_ascii")>>

Usual == (2..128) \ {65}
Later == {129, 130, 160, 191, 192}
Entry(de, le, lt, ml) == [de |-> de, le |-> le, lt |-> lt, ml |-> ml, nib |-> FALSE, lp |-> <<>>, rp |-> <<>>, desc |-> <<>>]
Entries == {Entry("ascii", "ascii", 2, 20), Entry("b", "b", 1, 9), Entry("cp500", "bcd", 1, 12), Entry("b", "ascii", 0, 3)}

(* one attribute of an entry and its new value *)
Changes == [at : {"ml"}, n : {0, 1, 2, 5, 8, 33}, c : {""}]
           \cup [at : {"lt"}, n : {0, 1, 2, 3, 4}, c : {""}]
           \cup [at : {"de"}, n : {0}, c : {"ascii", "b", "cp500"}]
           \cup [at : {"le"}, n : {0}, c : {"ascii", "b", "bcd", "cp500"}]
           \cup [at : {"nib"}, n : {0, 1}, c : {""}]
           \cup [at : {"lp", "rp"}, n : {48, 70}, c : {""}]
Adapted(f, ch) ==
  CASE ch.at = "ml" -> [f EXCEPT !.ml = ch.n]
    [] ch.at = "lt" -> [f EXCEPT !.lt = ch.n]
    [] ch.at = "de" -> [f EXCEPT !.de = ch.c]
    [] ch.at = "le" -> [f EXCEPT !.le = ch.c]
    [] ch.at = "nib" -> [f EXCEPT !.nib = ch.n = 1]
    [] ch.at = "lp" -> [f EXCEPT !.lp = <<ch.n>>]
    [] ch.at = "rp" -> [f EXCEPT !.rp = <<ch.n>>]

Step0 == [a |-> "", i |-> 0, key |-> 0, at |-> "", n |-> 0, c |-> "", d |-> KV(<<>>), out |-> <<>>]

(* content that fits an entry, if any does *)
Pattern == <<48, 65, 57, 70, 51, 66, 49>>
Roomy(f, top) == LET ok == {n \in 0..(IF f.ml < top THEN f.ml ELSE top) : LenPrefix(f.le, f.lt, n).ok} IN
                  IF ok = {} THEN 0 ELSE CHOOSE n \in ok : \A j \in ok : j <= n
Content(f, j) ==
  LET cap == IF f.lt = 0 THEN f.ml ELSE Roomy(f, 17 + (j % 3))
      chars == IF f.de = "b" THEN (IF f.nib THEN cap ELSE 2 * cap) ELSE (IF f.nib THEN cap \div 2 ELSE cap)
  IN TLCEval([i \in 1..chars |-> Pattern[1 + ((i + j) % 7)]])
Tx == <<48, 50, 48, 48>>
Message(sp, F) == TLCEval([k \in ({T} \cup (F \cap DOMAIN sp) \cup (IF sp[H].ml > 0 THEN {H} ELSE {})) |-> IF k = T THEN Tx ELSE Content(sp[k], k)])

Own == 3..Len(mcArena)
Changeable(sp) == DOMAIN sp \ {65}

Copy == /\ Len(mcArena) < Num("COPIES") + 2
        /\ \E i \in Pick(Num("BRANCH"), 1..Len(mcArena)) : \E way \in Pick(Num("BRANCH"), {"deepcopy", "json"}) :
             /\ mcArena' = Append(mcArena, mcArena[i])
             /\ mcTouched' = Append(mcTouched, mcTouched[i])
             /\ mcLog' = Append(mcLog, [Step0 EXCEPT !.a = way, !.i = i])
Adapt == \E i \in Pick(1, Own) : \E k \in Pick(Num("KEYS"), Changeable(mcArena[i])) \cup Pick(1, {H, P, 1}) : \E ch \in Pick(Num("BRANCH"), Changes) :
           /\ mcArena' = [mcArena EXCEPT ![i][k] = Adapted(@, ch)]
           /\ mcTouched' = [mcTouched EXCEPT ![i].keys = @ \cup {k}]
           /\ mcLog' = Append(mcLog, [Step0 EXCEPT !.a = "set", !.i = i, !.key = k, !.at = ch.at, !.n = ch.n, !.c = ch.c])
Define == \E i \in Pick(1, Own) : \E k \in Pick(1, Usual \cup Later) : \E f \in Pick(1, Entries) :
           /\ mcArena' = [mcArena EXCEPT ![i] = (k :> f) @@ @]
           /\ mcTouched' = [mcTouched EXCEPT ![i].keys = @ \cup {k}]
           /\ mcLog' = Append(mcLog, [Step0 EXCEPT !.a = "put", !.i = i, !.key = k, !.at = f.de, !.c = f.le, !.n = 1000 * f.lt + f.ml])
Withdraw == \E i \in Pick(1, Own) : \E k \in Pick(1, DOMAIN mcArena[i] \cap (Usual \cup Later)) :
           /\ mcArena' = [mcArena EXCEPT ![i] = [j \in DOMAIN @ \ {k} |-> @[j]]]
           /\ mcTouched' = [mcTouched EXCEPT ![i].keys = @ \cup {k}]
           /\ mcLog' = Append(mcLog, [Step0 EXCEPT !.a = "drop", !.i = i, !.key = k])
(* a message under one of them: adapted fields, their neighbours, others *)
Send(i, F, dropped) ==
  \E doc \in {Message(mcArena[i], F) @@ TLCEval([k \in dropped |-> <<49>>])} : \E o \in {Seen(Encode(mcArena[i], doc, <<>>))} :
     \E back \in {IF o.k = "ok" THEN Seen(Decode(mcArena[i], o.raw)) ELSE o} :
     mcLog' = Append(mcLog, [Step0 EXCEPT !.a = "use", !.i = i, !.d = KV(doc),
                                          !.out = [k |-> o.k, f |-> o.f, raw |-> o.raw, back |-> back.k, same |-> back.d = o.d]])
Use == /\ \E i \in Pick(Num("BRANCH"), 1..Len(mcArena)) :
            LET near == {k + d : k \in mcTouched[i].keys, d \in {-1, 0, 1}} \cap (Usual \cup Later)
            IN \E F \in Pick(1, {near \cup RandomSubset(5, Usual), near \cup RandomSubset(12, Usual), near, Usual \ near, RandomSubset(3, Usual)}) : \E gone \in {{}, near \ DOMAIN mcArena[i]} : Send(i, F, gone)
       /\ UNCHANGED <<mcArena, mcTouched>>

(* actions come in rounds: copy, adapt, use, adapt, use, ... *)
Turn(n) == mcLog # <<>> /\ Len(mcLog) % 3 = n
MCNext ==
  /\ Len(mcLog) < Num("STEPS")
  /\ \/ (mcLog = <<>> \/ Turn(0)) /\ Copy
     \/ mcLog # <<>> /\ Turn(0) /\ (Define \/ Withdraw)
     \/ Turn(1) /\ (Adapt \/ Define)
     \/ Turn(2) /\ Use
  /\ Len(mcLog') = Num("STEPS") => PrintT(<<"R", ToJson(mcLog')>>)
MCInit == mcArena = Shipped /\ mcTouched = <<[keys |-> {}, base |-> 1], [keys |-> {}, base |-> 2]>> /\ mcLog = <<>>
MCSpec == MCInit /\ [][MCNext]_mcVars

(* the starters stay what they are; a copy differs from its starter in the adapted entries only *)
Based == /\ mcArena[1] = Shipped[1] /\ mcArena[2] = Shipped[2]
         /\ \A i \in 1..Len(mcArena) : LET b == Shipped[mcTouched[i].base] IN
              \A k \in (DOMAIN b \cup DOMAIN mcArena[i]) \ mcTouched[i].keys : k \in DOMAIN mcArena[i] /\ k \in DOMAIN b /\ mcArena[i][k] = b[k]
(* untouched fields go on the wire as the starter sends them *)
Untouched ==
  (mcLog # <<>> /\ mcLog[Len(mcLog)].a = "use") =>
     LET e == mcLog[Len(mcLog)]
         ds == {e.d.k[j] : j \in 1..Len(e.d.k)}
         doc == TLCEval([k \in ds |-> e.d.v[CHOOSE j \in 1..Len(e.d.k) : e.d.k[j] = k]])
         t == mcTouched[e.i]
     IN (ds \cup {H, P, 1}) \cap t.keys = {} => e.out.raw = Seen(Encode(Shipped[t.base], doc, <<>>)).raw
(* an adaptation concerns one entry of one specification *)
Single == [][\A i \in 1..Len(mcArena) : \/ mcArena'[i] = mcArena[i]
                                        \/ /\ i > 2 /\ \A j \in 1..Len(mcArena) : j # i => mcArena'[j] = mcArena[j]
                                           /\ Cardinality({k \in DOMAIN mcArena[i] \cup DOMAIN mcArena'[i] :
                                                k \notin DOMAIN mcArena[i] \/ k \notin DOMAIN mcArena'[i] \/ mcArena[i][k] # mcArena'[i][k]}) = 1]_mcVars
=============================================================================
