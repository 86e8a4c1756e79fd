#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
D="iso8583/decoder.py"; E="iso8583/encoder.py"; T="iso8583/tools.py"; S="iso8583/specs.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=obs or ["return value / raised exception of the public call"],hook_needed=None)))

p("C01","Encode then decode returns the same message",
 "For every usable specification and every dictionary of field values that fits it, encode succeeds and decoding the produced bytes with the same specification succeeds and returns the same header, message type and field values (hex letters in binary fields come back in upper case) together with the bitmaps. The per-field encoded dictionary returned by decode equals the one returned by encode.",
 ["inputs","configurations"],"all specifications x all messages representable in them (any field subset of 2..192, any encodings, length types, length units and pads)",
 "Tests encode and decode separately on about a hundred literals, mostly of field 2; no test round-trips arbitrary field sets, encodings or lengths.",
 [E,D],[("encode","iso8583/encoder.py:encode"),("decode","iso8583/decoder.py:decode")])
p("C02","Decode then encode reproduces an accepted message",
 "Whenever decode accepts a message under a usable specification, encoding the decoded dictionary with that specification succeeds and decoding the result gives the same header, type and data fields. If the accepted bytes were in canonical form (upper-case hex bitmaps, no empty secondary or tertiary bitmap, pads equal to the configured pad) the re-encoded bytes are identical to the original.",
 ["inputs","configurations"],"all byte strings accepted by decode, under all usable specifications",
 "The set of accepted byte strings is unbounded; tests never re-encode what they decoded, so a lenient parse (a short bitmap, a signed length, a mis-rounded nibble count) goes unnoticed.",
 [D,E],[("length and bitmap parsing","iso8583/decoder.py:_decode_field,_decode_bitmap"),("pad removal","iso8583/decoder.py:_remove_pad_field"),("encode","iso8583/encoder.py:encode")])
p("C03","Encode generates exactly the bitmaps the fields require",
 "In every successfully encoded message the bit of field n is set in the primary, secondary or tertiary bitmap exactly when field n is among the dictionary's fields, bit 1 is set exactly when a secondary bitmap follows and bit 65 exactly when a tertiary one does. Whatever the caller left in keys 'p', '1' and '65' has no influence: those keys are overwritten with the upper-case hex of the generated bitmaps, or removed when not needed ('65' always).",
 ["inputs","histories"],"all subsets of fields 2..192, any stale bitmap values, any bitmap encoding, any earlier editing history of the dictionary",
 "There are 2^190 field sets; tests use seven of them.",
 [E],[("field set and bitmap selection","iso8583/encoder.py:encode"),("_encode_bitmap","iso8583/encoder.py:_encode_bitmap")],
 obs=["raw message","decoded dictionary after encode","encoded dictionary"])
p("C04","Decode yields exactly the fields the bitmaps announce",
 "A successfully decoded message contains, besides header, type and bitmaps, exactly the fields whose bits are set in the received bitmaps. A secondary bitmap is read exactly when bit 1 is set, a tertiary one exactly when bit 65 is set, neither 1 nor 65 is ever parsed as a data field, and the decoded bitmap values are the digits received; an announced bitmap that is short or is not the full number of hex digits is rejected.",
 ["inputs"],"all bitmap byte patterns in every bitmap encoding",
 "Tests decode about ten bitmap patterns out of 2^192, and the negative ones only use letters outside hex.",
 [D],[("_decode_bitmap","iso8583/decoder.py:_decode_bitmap"),("bitmap sequencing","iso8583/decoder.py:decode")])
p("C05","Encoded dictionary and raw message tile each other exactly",
 "For every successful encode and decode, concatenating the length and data bytes of the encoded dictionary in wire order (header, type, primary bitmap, secondary bitmap with its extension, then data fields in ascending numeric order) gives exactly the raw message. The decoded and encoded dictionaries have the same fields, except that encode leaves a disabled header and the caller's non-field keys alone.",
 ["inputs","configurations"],"all messages and specifications, both directions",
 "Tests compare a few hand-written byte strings; wire order and byte accounting for arbitrary field mixes are not sampled.",
 [E,D],[("field loop","iso8583/encoder.py:encode, iso8583/decoder.py:decode"),("doc_enc bookkeeping","iso8583/encoder.py:_encode_field, iso8583/decoder.py:_decode_field")])
p("C06","Encode writes exact lengths and refuses data that does not fit",
 "Every variable field is preceded by its exact length, in the field's unit (bytes or nibbles, pad not counted), in the configured length encoding and zero-padded to exactly the configured width; a fixed field carries no length and exactly its configured size. Data whose size is wrong for a fixed field, above the maximum, or not expressible in the configured length width is refused, and nothing else is refused on account of length.",
 ["inputs","configurations"],"all data sizes 0..max+, all length encodings (text code pages, BCD, binary), widths and units, for header, type and every field",
 "Tests cover a handful of (encoding,width,length) triples at lengths such as 0, 1, 16, 99, 256.",
 [E],[("length prefix","iso8583/encoder.py:_encode_field"),("type length","iso8583/encoder.py:_encode_type")])
p("C07","Decode honours declared lengths and consumes the whole input",
 "Decode takes from the input exactly the bytes each length prefix (a plain number in the configured encoding) or fixed size declares, never more or fewer. A length that is truncated, not a plain number, or above the maximum, data that is shorter than declared, and any bytes left after the last field are all rejected, and a well-formed length is never rejected.",
 ["inputs","configurations"],"all byte strings (every truncation point, every extension, every length-prefix byte pattern) under all length encodings, widths and units",
 "Truncation, extension and length-prefix corruption points are unbounded; tests try about thirty, never a signed, blank-padded or non-ASCII-digit length.",
 [D],[("length parsing and bounds","iso8583/decoder.py:_decode_field"),("trailing data check","iso8583/decoder.py:decode")])
p("C08","Text fields are converted strictly by their configured encoding",
 "For every field, type and header configured with a text encoding, the wire bytes are exactly the value encoded in that field's own encoding and the decoded value is exactly the bytes decoded in it: no stripping, case change, normalisation or substitution. Sizes are counted on encoded bytes; characters or bytes that the encoding cannot represent, and unknown encodings, are refused, and nothing representable is refused.",
 ["inputs","configurations"],"all strings and byte strings x all text encodings (ASCII, Latin-1, EBCDIC and Windows code pages, UTF-8), mixed within one message",
 "Tests use digits and letters in ascii and cp500 only; code points, control characters, blanks and multi-byte encodings are not sampled.",
 [E,D],[("_encode_text_field","iso8583/encoder.py:_encode_text_field"),("_decode_text_data","iso8583/decoder.py:_decode_text_data")])
p("C09","Binary and BCD fields convert exactly, odd nibbles use the pad",
 "For every field configured as binary, wire bytes and hex value correspond digit for digit, decoding always giving upper case. A field counted in nibbles with an odd number of digits carries exactly one configured pad digit on the wire (left pad takes precedence), which decode removes without touching the data and without which decode rejects it; even-length data is never padded. Non-hex data, odd-length hex counted in bytes and odd nibble data without a pad are refused, and nothing else is.",
 ["inputs","configurations"],"all hex strings x pad configurations x lengths x byte/nibble units",
 "Tests use the values 123, 1234 and 1; data that itself starts or ends with the pad digit, both pads at once, lower-case pads and long odd values are not sampled.",
 [E,D],[("_add_pad_field/_encode_bindary_field","iso8583/encoder.py"),("_remove_pad_field","iso8583/decoder.py")])
p("C10","Decode fails only with DecodeError",
 "For every bytes or bytearray input and every well-formed specification (defining at least header, type and primary bitmap) decode either returns or raises DecodeError, even if the input announces fields the specification does not define. Any other input type raises TypeError.",
 ["inputs","configurations"],"all byte strings x all well-formed specifications, including partial ones",
 "Robustness against arbitrary network bytes is a for-all statement; tests feed a few dozen malformed messages under complete specifications.",
 [D],[("error wrapping","iso8583/decoder.py:_decode_field,_decode_bitmap,_decode_text_data"),("field specification lookup","iso8583/decoder.py:decode")])
p("C11","Encode fails only with EncodeError",
 "For every dictionary (whatever its keys and values) and every well-formed specification (defining at least header, type and primary bitmap) encode either returns or raises EncodeError, even if the dictionary holds fields the specification does not define. Anything that is not a dictionary raises TypeError.",
 ["inputs","configurations"],"all dictionaries with arbitrary keys and values x all well-formed specifications, including partial ones",
 "Tests pass a few wrong keys; wrong value types in binary fields, odd numeric spellings and fields missing from the specification are not sampled.",
 [E],[("error wrapping","iso8583/encoder.py:_encode_bindary_field,_encode_text_field,_encode_field"),("field key validation","iso8583/encoder.py:encode")])
p("C12","Decode errors say precisely where and why parsing stopped",
 "A DecodeError names the first field, in wire order, that cannot be parsed and the byte offset of the offending element (its length prefix, its data, or the first byte after the last field), carries the input itself, and its message states the actual reason with the found and expected sizes. Its partial dictionaries hold every field parsed before the failure with its final value and nothing from later fields, and the bytes in its encoded dictionary are a prefix of the input.",
 ["inputs","configurations"],"all rejected byte strings, every failure kind at every position",
 "Tests look at position and message for single-field messages at fixed offsets and at the partial dictionaries once, for an empty message.",
 [D],[("DecodeError construction","iso8583/decoder.py")],obs=["attributes of the raised DecodeError"])
p("C13","Encode errors say precisely which field failed and why",
 "An EncodeError names the first element in wire order (header, type, bitmaps, ascending fields) that cannot be encoded, its message states the actual reason with the found and expected sizes, and it carries the caller's dictionary. Its partial encoded dictionary holds every element encoded before the failure with its final bytes and nothing from later ones.",
 ["inputs","configurations"],"all refused dictionaries, every failure kind in every field",
 "Tests check messages for field 2 and once the partial dictionary, for a missing header.",
 [E],[("EncodeError construction","iso8583/encoder.py")],obs=["attributes of the raised EncodeError"])
p("C14","Arguments stay intact and results are independent objects",
 "decode, encode and pp never modify the specification or the input bytes; pp never modifies the document, and encode, whether it succeeds or fails, modifies the caller's dictionary only at keys 'p', '1' and '65'. Returned and raised objects are fresh: later changes to one result, to the input buffer or to the specification never alter another result, and results of different calls share no mutable state.",
 ["inputs","histories"],"all calls, successful or failing, and all subsequent mutations of arguments and results",
 "Tests never compare arguments before and after a call and never mutate one result to look at another.",
 [E,D,T],[("copying slices into bytes","iso8583/decoder.py"),("doc_dec updates","iso8583/encoder.py:encode,_encode_bitmap")],obs=["arguments and earlier results after each call"])
p("C15","Each call depends only on its own arguments",
 "The outcome of decode, encode and pp is a function of the arguments as they are at the time of the call: earlier calls (including failed ones and ones with other specifications), in-place changes of a specification between calls, nested calls and calls running concurrently in other threads make no difference.",
 ["histories","schedules","configurations"],"all sequences and interleavings of calls with any mix of specifications, including specifications edited in place between calls",
 "Tests make one or two calls on a private copy of a specification and never run calls concurrently; hidden state shows up only in particular histories or interleavings.",
 [E,D,T],[("no module-level mutable state","iso8583/encoder.py, iso8583/decoder.py, iso8583/tools.py")])
p("C16","Pretty print shows every field once, in order and without loss",
 "pp writes header (only if the specification enables it), type, primary bitmap and then all numeric fields in numeric order, each exactly once, for both decoded and encoded dictionaries. Reading the printed literals back and joining the pieces of a folded value gives exactly the value (and for encoded dictionaries also the non-empty length bytes), for any content, description width and line width.",
 ["inputs","configurations"],"all documents with any str/bytes content x all desc_width and line_width values",
 "Tests fold four short values at six widths; quotes, escapes and non-ASCII content at chunk borders are not sampled.",
 [T],[("field order","iso8583/tools.py:pp"),("folding","iso8583/tools.py:_wrap_str_repr,_wrap_bytes_repr")],obs=["text written to the stream"])
p("C17","Pretty print keeps its column layout and line width",
 "Each field starts a line with its key in a 3-column cell, followed, when desc_width is positive, by a space and its description cut and padded to exactly desc_width, then ': '; continuation lines of a folded value are indented to the column where the value's data started. A value is folded only when it would not fit in line_width, and then no line exceeds line_width unless it holds a single character or byte, or escape sequences in a text value.",
 ["inputs","configurations"],"all documents x all desc_width and line_width values",
 "Tests pin the layout for a few line widths between 1 and 80 and two description widths.",
 [T],[("indent computation","iso8583/tools.py:_pp_field"),("chunk width","iso8583/tools.py:_wrap_str_repr,_wrap_bytes_repr")],obs=["text written to the stream"])
p("C18","Starter specifications are complete and carry what they document",
 "Both starter specifications define the header (disabled), message type, both bitmaps and every field 1 to 128 with the encodings, length type and maximum length given in their documentation, as JSON-compatible data. Under each of them every field accepts, on its own or together with all the others, any content up to its documented maximum (exactly that size for fixed fields), in its documented wire format, and refuses one unit more.",
 ["inputs","configurations"],"both shipped specifications x all fields x all content sizes",
 "Tests overwrite the starter entries they use, so hardly any of the 262 entries is exercised as shipped.",
 [S],[("default and default_ascii tables","iso8583/specs.py")])
p("C19","The header is on the wire exactly when the specification enables it",
 "If the specification gives the header a positive maximum length, encode requires key 'h' and writes it first, and decode reads it first, fixed or variable length, in its configured encoding and unit; the type and bitmaps follow directly. If the maximum is zero, no header byte is ever written or read, and a header value in the dictionary is ignored and left untouched.",
 ["inputs","configurations"],"all header configurations x all messages with or without a header value",
 "Tests use one fixed 6-byte ASCII header and its absence.",
 [E,D],[("_encode_header","iso8583/encoder.py:_encode_header"),("_decode_header","iso8583/decoder.py:_decode_header")])
p("C20","Results, errors and specifications survive serialization",
 "Decoded dictionaries survive a JSON round trip and re-encode to the same bytes, and a specification that went through JSON behaves identically to the original. DecodeError and EncodeError are ValueErrors whose pickle, copy and deepcopy are of the same class and keep the text and every attribute.",
 ["inputs","histories"],"all results and all errors that can be raised",
 "Tests pickle one error of each class, raised before anything was parsed or encoded.",
 [E,D],[("__reduce__","iso8583/encoder.py:EncodeError, iso8583/decoder.py:DecodeError")],obs=["unpickled or copied object"])
p("C21","Dictionary keys select fields strictly by canonical number",
 "encode treats a string key as a field exactly when it is the plain decimal spelling of a number 1..192; non-string keys, field numbers outside that range and numeric keys in any other spelling (leading zeros, non-ASCII digits) are refused instead of being dropped or taken for another field. All other string keys are ignored and left in the dictionary, and never influence the message.",
 ["inputs"],"all dictionaries with arbitrary key sets",
 "Tests try keys 0, 193, 194 and a few non-string ones.",
 [E],[("field key validation","iso8583/encoder.py:encode")])
p("C22","Input buffer type does not matter and result types are plain",
 "decode gives equal results and errors for bytes and bytearray inputs of equal content, and decode, encode and pp give the same outcome for any mapping type used as specification. Decoded dictionaries map str to str, encoded dictionaries map str to {'len': bytes, 'data': bytes} and encode's raw message is a bytearray.",
 ["inputs","configurations"],"all inputs in both buffer types, all messages, successful and failing",
 "Only one test decodes a bytearray; no test checks the types of nested values.",
 [D,E],[("bytes() copies","iso8583/decoder.py"),("result construction","iso8583/encoder.py")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
