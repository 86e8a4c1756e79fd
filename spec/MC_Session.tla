----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* A caller who holds documents, encoded documents, messages and a         *)
(* specification, calls decode and encode on them and edits them in place. *)
(* Object 1 is the specification, 2 a document, 3 a message; every call    *)
(* makes two new objects.  After every action the contents of all objects  *)
(* are known; the harness performs the actions and compares.               *)
(***************************************************************************)
EXTENDS Show

VARIABLES mcObjs, mcNext, mcLog
mcVars == <<mcObjs, mcNext, mcLog>>

Fs(de, le, lt, ml, nib, lp) == [de |-> de, le |-> le, lt |-> lt, ml |-> ml, nib |-> nib, lp |-> lp, rp |-> <<>>, desc |-> <<>>]
Plain(de, ml) == Fs(de, "ascii", 0, ml, FALSE, <<>>)
(* contents the specification object can be given *)
Version(n) ==
  (H :> IF n = 4 THEN Plain("ascii", 2) ELSE Plain("ascii", 0)) @@ (T :> Plain(IF n = 5 THEN "b" ELSE "ascii", 4)) @@ (P :> Plain("b", 8))
  @@ (1 :> Plain("b", 8))
  @@ (2 :> IF n = 3 THEN Fs("b", "b", 1, 2, FALSE, <<>>) ELSE Fs("ascii", "ascii", 1, IF n = 2 THEN 1 ELSE 3, FALSE, <<>>))
  @@ (66 :> Fs("b", "bcd", 1, 4, TRUE, <<48>>)) @@ (IF n = 2 THEN <<>> ELSE (130 :> Plain("utf8", 1)))
Versions == 1..5

Tx == <<48, 50, 48, 48>>
Docs == {(T :> Tx) @@ (2 :> <<65, 66>>),
         (T :> Tx) @@ (2 :> <<65>>) @@ (66 :> <<49, 50, 97>>) @@ (P :> <<74>>),
         (T :> Tx) @@ (130 :> <<122>>) @@ (1 :> <<74>>) @@ (65 :> <<74>>),
         (T :> Tx) @@ (2 :> <<49, 50, 51, 52, 53>>) @@ (H :> <<72, 72>>),
         (T :> Tx) @@ (66 :> <<49>>) @@ (130 :> NotText),
         (2 :> <<65>>) @@ (65 :> <<74>>)}
Extras == {<<>>, <<[t |-> "str", v |-> <<110, 111, 116, 101>>, y |-> "'x'"]>>}
Wires == LET ok(d) == Encode(Version(1), d, <<>>).raw IN
  {ok(d) : d \in Docs} \cup {SubSeq(ok(d), 1, Len(ok(d)) - 1) : d \in {x \in Docs : ok(x) # <<>>}} \cup {<<>>, Tx}

Ids(t) == {i \in DOMAIN mcObjs : mcObjs[i].t = t}
Act(a, i, k, v) == [a |-> a, i |-> i, k |-> k, v |-> v]
Texts == {<<>>, <<88>>, <<65, 66, 67>>, <<48, 97>>, Tx}
Octets == {<<>>, <<1>>, <<49, 90>>}
DocActs == UNION {
    {Act("set", i, k, v) : k \in {H, T, P, 1, 2, 65, 66, 130}, v \in Texts} \cup {Act("clear", i, 0, <<>>)}
    \cup {Act("del", i, k, <<>>) : k \in DOMAIN mcObjs[i].d} : i \in Ids("doc")}
EncActs == UNION {
    {Act(a, i, k, v) : a \in {"setdata", "setlen"}, k \in DOMAIN mcObjs[i].e, v \in Octets}
    \cup {Act("delenc", i, k, <<>>) : k \in DOMAIN mcObjs[i].e} \cup {Act("clearenc", i, 0, <<>>)} : i \in Ids("enc")}
ByteActs == UNION {
    {Act("append", i, 0, <<48>>)} \cup {Act("byte", i, j - 1, <<b>>) : j \in 1..Len(mcObjs[i].v), b \in {0, 48, 64, 255}} : i \in Ids("bytes")}
SpecActs == {Act("spec", 1, n, <<>>) : n \in Versions}
Calls == {Act("dec", i, 0, <<>>) : i \in Ids("bytes")} \cup {Act("enc", i, 0, <<>>) : i \in Ids("doc")}

TheSpec == Version(mcObjs[1].v)
Do(a) ==
  \/ /\ a.a = "dec"
     /\ \E o \in {Seen(Decode(TheSpec, mcObjs[a.i].v))} : mcObjs' = AfterDecode(mcObjs, mcNext, mcNext + 1, o)
     /\ mcNext' = mcNext + 2
  \/ /\ a.a = "enc"
     /\ \E o \in {Seen(Encode(TheSpec, mcObjs[a.i].d, mcObjs[a.i].x))} : mcObjs' = AfterEncode(mcObjs, a.i, mcNext, mcNext + 1, o)
     /\ mcNext' = mcNext + 2
  \/ /\ a.a \notin {"dec", "enc"}
     /\ mcObjs' = Put(mcObjs, a.i, Edited(mcObjs[a.i], [w |-> a.a, k |-> a.k, v |-> a.v]))
     /\ UNCHANGED mcNext

ShowObj(c) == CASE c.t = "doc" -> [t |-> "doc", d |-> KV(c.d), x |-> c.x]
                [] c.t = "enc" -> LET e == SortKeys(DOMAIN c.e) IN
                     [t |-> "enc", k |-> e, l |-> TLCEval([i \in 1..Len(e) |-> c.e[e[i]].len]), v |-> TLCEval([i \in 1..Len(e) |-> c.e[e[i]].data])]
                [] c.t = "bytes" -> [t |-> "bytes", v |-> c.v]
                [] c.t = "spec" -> [t |-> "spec", v |-> c.v]
ShowAll(objs, n) == TLCEval([i \in 1..(n - 1) |-> ShowObj(objs[i])])

(* calls twice as likely as edits of one kind *)
Chance == Pick(2, Calls) \cup Pick(1, DocActs) \cup Pick(1, EncActs) \cup Pick(1, ByteActs) \cup Pick(1, SpecActs)
MCNext ==
  /\ Len(mcLog) < Num("STEPS") + 1
  /\ \E a \in Pick(Num("BRANCH"), Chance) :
       /\ Do(a)
       /\ mcLog' = Append(mcLog, [a |-> a, s |-> ShowAll(mcObjs', mcNext')])
       /\ Len(mcLog') = Num("STEPS") + 1
            => PrintT(<<"R", ToJson([sp |-> TLCEval([n \in Versions |-> ShowSpec(Version(n))]), log |-> mcLog'])>>)
MCInit ==
  \E n \in 1..Num("STARTS") : \E d \in Pick(1, Docs) : \E x \in Pick(1, Extras) : \E w \in Pick(1, Wires) : \E v \in {1} \cup Pick(1, Versions) :
    /\ mcObjs = <<SpecObj(v), DocObj(d, x), BytesObj(w)>>
    /\ mcNext = 4
    /\ mcLog = <<[a |-> Act("start", n, 0, <<>>), s |-> ShowAll(<<SpecObj(v), DocObj(d, x), BytesObj(w)>>, 4)]>>
MCSpec == MCInit /\ [][MCNext]_mcVars

(* C14: a call changes nothing but the bitmap keys of the document it      *)
(* encodes; an edit changes nothing but its object                         *)
Framed == [][
  LET a == mcLog'[Len(mcLog')].a IN
  \A i \in DOMAIN mcObjs :
    mcObjs'[i] # mcObjs[i] =>
      /\ i = a.i
      /\ a.a # "dec"
      /\ a.a = "enc" => /\ mcObjs[i].t = "doc" /\ mcObjs'[i].x = mcObjs[i].x
                        /\ Drop(mcObjs'[i].d, Bitmaps) = Drop(mcObjs[i].d, Bitmaps)]_mcVars
Shaped == DOMAIN mcObjs = 1..(mcNext - 1)
=============================================================================
