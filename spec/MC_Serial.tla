------------------------------ MODULE MC_Serial ------------------------------
(***************************************************************************)
(* Serialization (C20).  A specification, an error or a decoded document   *)
(* travels: it is written as JSON, pickled, copied, any number of times in *)
(* a row, and used afterwards.  Travelling changes nothing: the content    *)
(* that arrives is the content that left, and a call made with it ends as  *)
(* the call made with the original.  The harness sends the real objects on *)
(* the printed journeys.                                                   *)
(***************************************************************************)
EXTENDS Show

VARIABLES mcCase,      \* the call: operation, specification, argument
          mcSpecWays,  \* how the specification travelled
          mcWays,      \* how the outcome travelled
          mcContent,   \* what is held now
          mcPhase
mcVars == <<mcCase, mcSpecWays, mcWays, mcContent, mcPhase>>

Fs(de, le, lt, ml, nib, lp, rp) == [de |-> de, le |-> le, lt |-> lt, ml |-> ml, nib |-> nib, lp |-> lp, rp |-> rp, desc |-> <<>>]
Plain(de, ml) == Fs(de, "ascii", 0, ml, FALSE, <<>>, <<>>)
Version(n) ==
  (H :> IF n = 2 THEN Fs("cp500", "bcd", 1, 5, FALSE, <<>>, <<>>) ELSE Plain("ascii", 0))
  @@ (T :> Plain(IF n = 3 THEN "b" ELSE "ascii", 4)) @@ (P :> Plain(IF n = 2 THEN "ascii" ELSE "b", IF n = 2 THEN 16 ELSE 8))
  @@ (1 :> Plain("b", 8)) @@ (2 :> IF n = 3 THEN Fs("utf8", "b", 2, 9, TRUE, <<>>, <<>>) ELSE Fs("ascii", "ascii", 2, 9, FALSE, <<>>, <<>>))
  @@ (66 :> Fs("b", "bcd", 1, 4, TRUE, IF n = 1 THEN <<70>> ELSE <<>>, IF n = 1 THEN <<>> ELSE <<48>>))
  @@ (IF n = 3 THEN <<>> ELSE (130 :> Plain("cp500", 2)))
Versions == 1..3

Tx == <<48, 50, 48, 48>>
Docs == {(T :> Tx), (T :> Tx) @@ (H :> <<72, 68>>),
         (T :> Tx) @@ (2 :> <<65, 233>>) @@ (H :> <<72>>), (T :> Tx) @@ (2 :> <<>>) @@ (66 :> <<49, 50, 51>>) @@ (H :> <<>>),
         (T :> Tx) @@ (2 :> <<65>>) @@ (66 :> <<49, 50>>) @@ (130 :> <<120, 121>>) @@ (H :> <<72>>),
         (T :> Tx) @@ (2 :> <<65>>) @@ (66 :> <<49, 71>>) @@ (H :> <<72>>), (T :> Tx) @@ (130 :> NotText) @@ (H :> <<72>>),
         (T :> <<48>>) @@ (H :> <<72>>), (2 :> <<65>>) @@ (H :> <<72>>), (T :> Tx) @@ (66 :> <<49, 50, 51, 52, 53>>) @@ (H :> <<72>>)}
Extras == {<<>>, <<[t |-> "str", v |-> <<48, 50>>, y |-> "'x'"]>>, <<[t |-> "obj", v |-> <<55>>, y |-> "'x'"]>>}
Wires == LET ok(n, d) == Encode(Version(n), d, <<>>).raw
             good == {ok(n, d) : n \in Versions, d \in Docs} \ {<<>>}
         IN good \cup {SubSeq(w, 1, IF j < Len(w) THEN j ELSE Len(w)) : w \in good, j \in {0, 3, 7, 13}} \cup {w \o <<0>> : w \in good}
                 \cup {[w EXCEPT ![j] = 255] : w \in {x \in good : Len(x) > 8}, j \in {1, 5, 8}}

JsonWay == {"json"}
CopyWays == {"copy", "deepcopy", "pickle-0", "pickle-1", "pickle-2", "pickle-3", "pickle-4", "pickle-5"}
SpecWays == JsonWay \cup (CopyWays \ {"copy"})
WaysFor(o) == IF o.k = "ok" THEN JsonWay \cup CopyWays ELSE CopyWays

Outcome(c) == IF c.op = "dec" THEN Seen(Decode(c.spec, c.s)) ELSE Seen(Encode(c.spec, c.doc, c.x))
Case(op, n, s, doc, x) == [op |-> op, n |-> n, spec |-> Version(n), s |-> s, doc |-> doc, x |-> x]

(* the specification travels, then the call is made, then its outcome travels, then it is used *)
TravelSpec == /\ mcPhase = "spec" /\ Len(mcSpecWays) < Num("SPECTRIPS")
              /\ \E way \in Pick(Num("CHOICE"), SpecWays) : mcSpecWays' = Append(mcSpecWays, way)
              /\ UNCHANGED <<mcCase, mcWays, mcContent, mcPhase>>
Call == /\ mcPhase = "spec"
        /\ mcPhase' = "out"
        /\ \E o \in {Outcome(mcCase)} : mcContent' = o
        /\ UNCHANGED <<mcCase, mcSpecWays, mcWays>>
Travel == /\ mcPhase = "out" /\ Len(mcWays) < Num("TRIPS")
          /\ \E way \in Pick(Num("CHOICE"), WaysFor(mcContent)) : mcWays' = Append(mcWays, way)
          /\ UNCHANGED <<mcCase, mcSpecWays, mcContent, mcPhase>>
(* a decoded document that arrived is encoded again *)
Use == /\ mcPhase = "out" /\ Len(mcWays) = Num("TRIPS")
       /\ mcPhase' = "done"
       /\ \E o \in {IF mcContent.k = "ok" THEN Seen(Encode(mcCase.spec, mcContent.d, mcContent.dx)) ELSE mcContent} : mcContent' = o
       /\ UNCHANGED <<mcCase, mcSpecWays, mcWays>>
       /\ PrintT(<<"R", ToJson([sp |-> ShowSpec(mcCase.spec), op |-> mcCase.op, s |-> mcCase.s, d |-> KV(mcCase.doc), x |-> mcCase.x,
                                specways |-> mcSpecWays, ways |-> mcWays, k |-> mcContent'.k])>>)

MCInit ==
  /\ mcSpecWays = <<>> /\ mcWays = <<>> /\ mcContent = <<>> /\ mcPhase = "spec"
  /\ \/ \E n \in Versions : \E d \in Pick(Num("DOCS"), Docs) : \E x \in Extras : mcCase = Case("enc", n, <<>>, d, x)
     \/ \E n \in Versions : \E w \in Pick(Num("WIRES"), Wires) : mcCase = Case("dec", n, w, <<>>, <<>>)
MCNext == TravelSpec \/ Call \/ Travel \/ Use
MCSpec == MCInit /\ [][MCNext]_mcVars

(* what is held after the call is the outcome of the call, however often it travelled *)
Kept == mcPhase = "out" => mcContent = Outcome(mcCase)
(* an accepted document is encoded to its own bytes again; one that was decoded, to bytes that mean the same *)
Returns == (mcPhase = "done" /\ mcContent.k = "ok") =>
             \E o \in {Outcome(mcCase)} :
               IF mcCase.op = "enc" THEN mcContent.raw = o.raw
               ELSE Seen(Decode(mcCase.spec, mcContent.raw)).d = o.d
=============================================================================
