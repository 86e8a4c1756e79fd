----------------------------- MODULE MC_Pretty -----------------------------
(***************************************************************************)
(* The printer as a machine: one step per printed element.  Small values   *)
(* over an alphabet of awkward characters, every width.                    *)
(***************************************************************************)
EXTENDS Show

VARIABLES mcDoc, mcSpec, mcSize, mcTodo, mcText
mcVars == <<mcDoc, mcSpec, mcSize, mcTodo, mcText>>

(* a ' " \ blank newline e-acute nbsp line-separator emoji *)
TextChars == {97, 39, 34, 92, 32, 10, 233, 160, 8232, 128512}
(* a ' " \ NUL newline 0xFF *)
ByteChars == {97, 39, 34, 92, 0, 10, 255}
UpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}
Rep(a, b, n) == [i \in 1..n |-> IF i % 3 = 0 THEN b ELSE a]
TextValues == UpTo(TextChars, 3) \cup {Rep(a, b, n) : a, b \in TextChars, n \in {4, 5, 6, 7, 11, 20, 41}}
ByteValues == UpTo(ByteChars, 3) \cup {Rep(a, b, n) : a, b \in ByteChars, n \in {4, 5, 6, 7, 11, 20, 41}}
Lens == {<<>>, <<49>>, <<39>>, <<0, 9>>, <<34, 39>>}
Descs == {<<>>, <<65, 98>>, <<65, 58, 32, 39, 98>>, <<233, 32, 32, 120, 121, 122>>}

Fs(ml, desc) == [de |-> "ascii", le |-> "ascii", lt |-> 0, ml |-> ml, nib |-> FALSE, lp |-> <<>>, rp |-> <<>>, desc |-> desc]
PrintKeys == {{2}, {H}, {T}, {H, T}, {P, 2}, {T, 9, 10}, {H, 1, 100}, {99, 100}, {1, 2, 192}, {}}

MCInit ==
  \E n \in 1..Num("DOCS") : \E K \in Pick(1, PrintKeys) : \E isb \in Pick(1, BOOLEAN) : \E hl \in Pick(1, {0, 4, 5}) :
  \E de \in Pick(1, Descs) : \E l \in Pick(1, Lens) : \E v1 \in Pick(1, IF isb THEN ByteValues ELSE TextValues) :
  \E v2 \in Pick(1, IF isb THEN ByteValues ELSE TextValues) : \E dw \in Pick(2, {-1, 0, 1, 2, 5, 9}) : \E lw \in Pick(Num("WIDTHS"), -1..60) :
    /\ mcSpec = TLCEval([k \in K \cup {H, T, P} |-> Fs(hl, IF k = 2 THEN <<88>> ELSE de)])
    /\ mcDoc = TLCEval([k \in K |-> [len |-> IF isb /\ k \notin {T, P, 1} THEN l ELSE <<>>,
                                      val |-> [b |-> isb, v |-> IF k \in {2, T, 100} THEN v1 ELSE v2]]])
    /\ mcSize = <<dw, lw>>
    /\ mcTodo = PrintedKeys(K, mcSpec)
    /\ mcText = <<>>

DocRow(doc) == LET ks == SortKeys(DOMAIN doc) IN
  [k |-> ks, l |-> TLCEval([i \in 1..Len(ks) |-> doc[ks[i]].len]), v |-> TLCEval([i \in 1..Len(ks) |-> doc[ks[i]].val.v]),
   b |-> DOMAIN doc # {} /\ \A k \in DOMAIN doc : doc[k].val.b]
SpecRow == LET ks == SortKeys(DOMAIN mcSpec) IN [k |-> ks, v |-> TLCEval([i \in 1..Len(ks) |-> mcSpec[ks[i]]])]
PrintOne ==
  /\ mcTodo # <<>>
  /\ \E k \in {Head(mcTodo)} :
       mcText' = mcText \o PrintElement([k |-> k, len |-> mcDoc[k].len, val |-> mcDoc[k].val], mcSpec[k].desc, mcSize[1], mcSize[2])
  /\ mcTodo' = Tail(mcTodo)
  /\ UNCHANGED <<mcDoc, mcSpec, mcSize>>
  /\ mcTodo' = <<>> => PrintT(<<"R", ToJson([sp |-> SpecRow, d |-> DocRow(mcDoc), dw |-> mcSize[1], lw |-> mcSize[2], tx |-> mcText'])>>)
MCSpec == MCInit /\ [][PrintOne]_mcVars

(* complete lines at every step *)
WholeLines == mcText = <<>> \/ mcText[Len(mcText)] = NL
(* what is printed satisfies C16 and C17 and is what PrintDoc says *)
Printed == mcTodo = <<>> =>
  /\ mcText = PrintDoc(mcDoc, mcSpec, mcSize[1], mcSize[2])
  /\ PrintedContent(mcText, mcDoc, mcSpec) = {}
  /\ PrintedLayout(mcText, mcDoc, mcSpec, mcSize[1], mcSize[2]) = {}
(* nothing printed is ever taken back *)
Growing == [][IsPrefixOf(mcText, mcText')]_mcVars
(* every printed literal is what Python calls repr: reading it gives the value back *)
ReprReads == \A k \in DOMAIN mcDoc : \E r \in {ReadLiterals(Repr(mcDoc[k].val))} : r.ok /\ r.v = <<mcDoc[k].val>>
=============================================================================
