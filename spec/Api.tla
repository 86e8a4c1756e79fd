-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The API as a state machine over the caller's live objects.              *)
(*                                                                         *)
(* objs maps object ids to contents:                                       *)
(*   doc   [t, d, x]   a decoded dictionary (canonical keys, other keys)   *)
(*   enc   [t, e]      an encoded dictionary                               *)
(*   bytes [t, v]      a message or input buffer                           *)
(*   spec  [t, v]      a specification (index of its content)              *)
(* A call creates its results as new objects and may change nothing else,  *)
(* except that encode maintains keys p, 1 and 65 of the caller's document. *)
(* An edit by the caller changes exactly the object it is applied to.      *)
(* These frame conditions are what C14 demands.                            *)
(***************************************************************************)
EXTENDS Props

DocObj(d, x)  == [t |-> "doc", d |-> d, x |-> x]
EncObj(e)     == [t |-> "enc", e |-> e]
BytesObj(v)   == [t |-> "bytes", v |-> v]
SpecObj(v)    == [t |-> "spec", v |-> v]

New(objs, id, c) == IF id = 0 THEN objs ELSE Put(objs, id, c)

(* decode: results are two new documents *)
AfterDecode(objs, rd, re, o) == New(New(objs, rd, DocObj(o.d, o.dx)), re, EncObj(o.e))

(* encode: a new message and a new encoded document; the caller's document *)
(* keeps everything but its bitmap keys, which are as observed             *)
AfterEncode(objs, d, rr, re, o) ==
  LET o1 == IF d = 0 THEN objs
            ELSE LET old == objs[d]
                 IN Put(objs, d, DocObj(OnlyKeys(o.d, Bitmaps) @@ Drop(old.d, Bitmaps), old.x))
  IN New(New(o1, rr, BytesObj(o.raw)), re, EncObj(o.e))

(* edits; a = [w, k, v]: what, where, new content *)
Edited(c, a) ==
  CASE a.w = "set"     -> [c EXCEPT !.d = Put(@, a.k, a.v)]
    [] a.w = "del"     -> [c EXCEPT !.d = Drop(@, {a.k})]
    [] a.w = "clear"   -> [c EXCEPT !.d = <<>>, !.x = <<>>]
    [] a.w = "setdata" -> [c EXCEPT !.e[a.k].data = a.v]
    [] a.w = "setlen"  -> [c EXCEPT !.e[a.k].len = a.v]
    [] a.w = "delenc"  -> [c EXCEPT !.e = Drop(@, {a.k})]
    [] a.w = "clearenc" -> [c EXCEPT !.e = <<>>]
    [] a.w = "byte"    -> [c EXCEPT !.v[a.k + 1] = a.v[1]]
    [] a.w = "append"  -> [c EXCEPT !.v = @ \o a.v]
    [] a.w = "spec"    -> [c EXCEPT !.v = a.k]

Changed(objs, seen) == {i \in 1..Len(seen) : seen[i].id \notin DOMAIN objs \/ objs[seen[i].id] # seen[i].c}
=============================================================================
