------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation.  The file named by TRACE holds recorded sessions of   *)
(* API calls and caller edits; TLC steps through every session, one state  *)
(* per event, computing the machine's outcome of each call and judging the *)
(* observed one by property PROP.  Verdicts are total: a divergence adds   *)
(* its clauses to bad and the session goes on from the observed state.     *)
(* The last step of a session prints <<"S", session, events judged, bad>>. *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils

PROP == IOEnv.PROP
J == JsonDeserialize(IOEnv.TRACE)

FromKV(ks, vs) == TLCEval([k \in {ks[i] : i \in 1..Len(ks)} |-> vs[CHOOSE i \in 1..Len(ks) : ks[i] = k]])
Specs == TLCEval([i \in 1..Len(J.specs) |-> FromKV(J.specs[i].ks, J.specs[i].vs)])
Sess == J.sessions
NS == Len(Sess)

EncMap(o) == TLCEval([k \in {o.ek[i] : i \in 1..Len(o.ek)} |->
                LET i == CHOOSE i \in 1..Len(o.ek) : o.ek[i] = k IN [len |-> o.el[i], data |-> o.ed[i]]])
Obs(o) == [k |-> o.k, d |-> FromKV(o.dk, o.dv), dx |-> o.dx, e |-> EncMap(o), ex |-> o.ex,
           raw |-> o.raw, f |-> o.f, pos |-> o.pos, msg |-> o.msg, txt |-> o.txt,
           own |-> o.own, ty |-> o.ty]

Content(c) == CASE c.t = "doc"   -> DocObj(FromKV(c.dk, c.dv), c.dx)
                [] c.t = "enc"   -> EncObj(EncMap(c))
                [] c.t = "bytes" -> BytesObj(c.v)
                [] c.t = "spec"  -> SpecObj(c.v)

SpecOf(e) == IF e.st \notin {"", "own"} THEN TLCEval([k \in DOMAIN Specs[e.sp] |->
                                  IF k \in DOMAIN Starter(e.st)
                                  THEN Starter(e.st)[k] @@ ("desc" :> <<>>) ELSE Specs[e.sp][k]])
             ELSE Specs[e.sp]

DocOf(e) == FromKV(e.dk, e.dv)

Isolated(e) == IF e.iso = <<>> THEN NA ELSE V(If(e.iso[1] # e.o, "depends-on-history"))

OnDec(sid, e) ==
  LET spec == SpecOf(e)
      o == Obs(e.o)
      m == Decode(spec, e.s)
  IN CASE PROP = "C15" -> Isolated(e)
       [] PROP = "C18" -> IF e.st = "" THEN NA ELSE DecC18(m, o)
       [] PROP = "C01" ->
            IF e.of = 0 THEN NA
            ELSE LET p == Sess[sid][e.of]
                     d == DocOf(p)
                 IN RoundC01(spec, d, Encode(spec, d, p.x), Obs(p.o), o)
       [] PROP = "C02" ->
            IF e.of = 0 THEN NA
            ELSE LET p == Sess[sid][e.of]
                 IN IF p.of = 0 THEN NA
                    ELSE LET q == Sess[sid][p.of] IN StableC02(spec, Obs(q.o), Obs(p.o), o)
       [] OTHER -> JudgeDec(PROP, spec, e.s, m, o)

OnEnc(sid, e) ==
  LET spec == SpecOf(e)
      doc == DocOf(e)
      o == Obs(e.o)
      m == Encode(spec, doc, e.x)
  IN CASE PROP = "C15" -> Isolated(e)
       [] PROP = "C18" -> IF e.st = "" THEN NA ELSE EncC18(m, o)
       [] PROP = "C02" ->
            IF e.of = 0 THEN NA
            ELSE LET q == Sess[sid][e.of]
                 IN AgainC02(spec, q.s, Decode(spec, q.s), Obs(q.o), o)
       [] OTHER -> JudgeEnc(PROP, spec, doc, e.x, m, o)

(* what pp was given: decoded documents have text values, encoded ones bytes *)
PrintableDoc(e) ==
  IF e.enc THEN LET m == EncMap(e) IN TLCEval([k \in DOMAIN m |-> [len |-> m[k].len, val |-> [b |-> TRUE, v |-> m[k].data]]])
  ELSE LET d == FromKV(e.dk, e.dv) IN TLCEval([k \in DOMAIN d |-> [len |-> <<>>, val |-> [b |-> FALSE, v |-> d[k]]]])

OnPp(e) ==
  LET spec == Specs[e.sp]
      doc == PrintableDoc(e)
  IN CASE PROP = "C15" -> IF e.iso = <<>> THEN NA ELSE V(If(e.iso[1] # [k |-> e.k, tx |-> e.tx], "depends-on-history"))
       [] PROP = "C16" -> IF e.k # "ok" THEN V({"raised-" \o e.k}) ELSE PrintC16(e.tx, doc, spec, e.dw, e.lw)
       [] PROP = "C17" -> IF e.k # "ok" THEN NA ELSE PrintC17(e.tx, doc, spec, e.dw, e.lw)
       [] OTHER -> NA

(* the shipped specification, as projected, against its documentation *)
OnTable(e) ==
  IF PROP # "C18" THEN NA
  ELSE LET want == Starter(e.name)
           got == Specs[e.sp]
           row(k) == [de |-> got[k].de, le |-> got[k].le, lt |-> got[k].lt, ml |-> got[k].ml,
                      nib |-> got[k].nib, lp |-> got[k].lp, rp |-> got[k].rp]
       IN V(If(DOMAIN got # DOMAIN want \/ e.other # 0, "fields")
            \cup If(\E k \in DOMAIN got \cap DOMAIN want : row(k) # want[k], "entry")
            \cup If(~e.json, "json"))

(* wrong argument types *)
OnWrong(e) ==
  IF PROP = e.p THEN V(If(e.k # "TypeError", "raised-" \o e.k)) ELSE NA

(* two observations that must be equal *)
OnSame(e) == IF PROP = e.p THEN V(If(e.a # e.b, e.what)) ELSE NA

OnCheck(objs, e) == IF PROP # "C14" THEN NA ELSE V(If(Changed(objs, e.objs) # {}, "object-changed"))
SeenAs(seen) == TLCEval([i \in 1..Len(seen) |-> [id |-> seen[i].id, c |-> Content(seen[i].c)]])

VARIABLES curSession, curEvent, curObjects, curJudged, curBad
vars == <<curSession, curEvent, curObjects, curJudged, curBad>>

Event == Sess[curSession][curEvent]

(* the verdict is computed once: r is bound to its value *)
Judge(verdict) == \E r \in {verdict} :
            /\ curJudged' = curJudged + (IF r.h THEN 1 ELSE 0)
            /\ curBad' = IF r.c = {} THEN curBad ELSE Append(curBad, <<curEvent, r.c>>)

Advance == /\ curEvent' = curEvent + 1
           /\ curSession' = curSession
           /\ curEvent = Len(Sess[curSession]) => PrintT(<<"S", curSession, curJudged', curBad'>>)

DecCall == /\ Event.op = "dec"
       /\ Judge(OnDec(curSession, Event))
       /\ curObjects' = AfterDecode(curObjects, Event.ids[2], Event.ids[3], Obs(Event.o))
       /\ Advance
EncCall == /\ Event.op = "enc"
       /\ Judge(OnEnc(curSession, Event))
       /\ curObjects' = AfterEncode(curObjects, Event.ids[1], Event.ids[2], Event.ids[3], Obs(Event.o))
       /\ Advance
Pp  == /\ Event.op = "pp" /\ Judge(OnPp(Event)) /\ UNCHANGED curObjects /\ Advance
Make == /\ Event.op = "new" /\ Judge(NA) /\ curObjects' = Put(curObjects, Event.id, Content(Event.c)) /\ Advance
Edit == /\ Event.op = "edit" /\ Judge(NA)
        /\ curObjects' = Put(curObjects, Event.id, Edited(curObjects[Event.id], Event)) /\ Advance
Check == /\ Event.op = "chk"
         /\ \E seen \in {SeenAs(Event.objs)} :
               /\ Judge(OnCheck(curObjects, [objs |-> seen]))
               /\ curObjects' = FoldLeft(LAMBDA a, s : Put(a, s.id, s.c), curObjects, seen)
         /\ Advance
Table == /\ Event.op = "table" /\ Judge(OnTable(Event)) /\ UNCHANGED curObjects /\ Advance
Wrong == /\ Event.op = "wrong" /\ Judge(OnWrong(Event)) /\ UNCHANGED curObjects /\ Advance
Same  == /\ Event.op = "same" /\ Judge(OnSame(Event)) /\ UNCHANGED curObjects /\ Advance

Init == curSession \in 1..NS /\ curEvent = 1 /\ curObjects = <<>> /\ curJudged = 0 /\ curBad = <<>>
Next == curEvent <= Len(Sess[curSession]) /\ (DecCall \/ EncCall \/ Pp \/ Make \/ Edit \/ Check \/ Table \/ Wrong \/ Same)
Spec == Init /\ [][Next]_vars
=============================================================================
