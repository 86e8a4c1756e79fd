------------------------------ MODULE MC_Sched ------------------------------
(***************************************************************************)
(* Two calls at once, one machine step at a time, with at most SWITCHES    *)
(* preemptions.  Calls share nothing, so each must end as it ends alone    *)
(* (C15).  Every complete schedule is printed as turns <<call, steps>>.    *)
(***************************************************************************)
EXTENDS Show

VARIABLES mcPair, mcAt, mcTurn, mcLeft, mcPlan
mcVars == <<mcPair, mcAt, mcTurn, mcLeft, mcPlan>>

Fs(de, le, lt, ml, nib, lp) == [de |-> de, le |-> le, lt |-> lt, ml |-> ml, nib |-> nib, lp |-> lp, rp |-> <<>>, desc |-> <<>>]
Plain(de, ml) == Fs(de, "ascii", 0, ml, FALSE, <<>>)
Base(n) ==
  (H :> IF n = 3 THEN Fs("ascii", "ascii", 1, 4, FALSE, <<>>) ELSE Plain("ascii", 0)) @@ (T :> Plain("ascii", 4)) @@ (P :> Plain(IF n = 2 THEN "ascii" ELSE "b", IF n = 2 THEN 16 ELSE 8))
  @@ (1 :> Plain("b", 8)) @@ (2 :> Fs("ascii", "ascii", 2, 9, FALSE, <<>>))
  @@ (66 :> IF n = 2 THEN Fs("b", "bcd", 1, 4, TRUE, <<70>>) ELSE Fs("b", "bcd", 1, 4, TRUE, <<48>>)) @@ (130 :> Plain("cp500", 2))

Tx == <<48, 50, 48, 48>>
Hd == (H :> <<72, 68>>) @@ (T :> Tx)
Docs == {Hd @@ (2 :> <<65, 66, 67>>),
         Hd @@ (2 :> <<65>>) @@ (66 :> <<49, 50, 97>>),
         Hd @@ (2 :> <<88, 89>>) @@ (130 :> <<122, 90>>),
         Hd @@ (66 :> <<49>>) @@ (130 :> <<122>>),
         Hd @@ (2 :> <<65>>) @@ (3 :> <<65>>)}
EncCalls == {[op |-> "enc", n |-> n, d |-> d, s |-> <<>>] : n \in 1..3, d \in Docs}
DecCalls == LET good == {<<n, Encode(Base(n), d, <<>>).raw>> : n \in 1..3, d \in Docs}
                full == {w \in good : Len(w[2]) > 20}
            IN {[op |-> "dec", n |-> w[1], d |-> <<>>, s |-> w[2]] : w \in full}
               \cup {[op |-> "dec", n |-> w[1], d |-> <<>>, s |-> SubSeq(w[2], 1, Len(w[2]) - 1)] : w \in full}
Calls == EncCalls \cup DecCalls
Begin(c) == IF c.op = "enc" THEN EncInit(Base(c.n), c.d, <<>>) ELSE DecInit(Base(c.n), c.s)

MCInit ==
  \E c1 \in Pick(Num("PAIRS"), Calls) : \E c2 \in Pick(1, Calls) :
    /\ mcPair = <<c1, c2>>
    /\ mcAt = <<Begin(c1), Begin(c2)>>
    /\ mcTurn \in {1, 2}
    /\ mcLeft = Num("SWITCHES")
    /\ mcPlan = <<<<mcTurn, 0>>>>

Over(i) == mcAt[i].pc = "done"
ShowCall(c) == [op |-> c.op, n |-> c.n, d |-> KV(c.d), s |-> c.s]
Step1 ==
  /\ ~Over(mcTurn)
  /\ \E m \in {Step(mcAt[mcTurn])} : mcAt' = [mcAt EXCEPT ![mcTurn] = m]
  /\ mcPlan' = [mcPlan EXCEPT ![Len(mcPlan)] = <<mcTurn, @[2] + 1>>]
  /\ UNCHANGED <<mcPair, mcTurn, mcLeft>>
  /\ (mcAt'[1].pc = "done" /\ mcAt'[2].pc = "done")
       => PrintT(<<"R", ToJson([c |-> <<ShowCall(mcPair[1]), ShowCall(mcPair[2])>>, sp |-> TLCEval([n \in 1..3 |-> ShowSpec(Base(n))]),
                                plan |-> mcPlan', out |-> <<ShowOut(Seen(mcAt'[1])), ShowOut(Seen(mcAt'[2]))>>])>>)
Switch ==
  /\ ~Over(3 - mcTurn)
  /\ Over(mcTurn) \/ (mcLeft > 0 /\ mcPlan[Len(mcPlan)][2] > 0)
  /\ mcTurn' = 3 - mcTurn
  /\ mcLeft' = IF Over(mcTurn) THEN mcLeft ELSE mcLeft - 1
  /\ mcPlan' = Append(mcPlan, <<3 - mcTurn, 0>>)
  /\ UNCHANGED <<mcPair, mcAt>>
MCSpec == MCInit /\ [][Step1 \/ Switch]_mcVars

Alone == \A i \in 1..2 : Over(i) =>
           LET c == mcPair[i] IN mcAt[i] = (IF c.op = "enc" THEN Encode(Base(c.n), c.d, <<>>) ELSE Decode(Base(c.n), c.s))
=============================================================================
