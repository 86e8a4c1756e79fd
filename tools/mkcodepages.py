#!/usr/bin/env python3
"""Generates spec/Codepages.tla from Python's codec and Unicode databases.
The code under test is not involved: these are the published code page tables."""
import os, unicodedata
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABS=[("ascii","ascii"),("latin1","latin-1"),("cp500","cp500"),("cp037","cp037"),
      ("cp1252","cp1252"),("koi8r","koi8_r"),("cp437","cp437"),("cp273","cp273")]
def table(enc):
    r=[]
    for b in range(256):
        try: r.append(ord(bytes([b]).decode(enc)))
        except UnicodeDecodeError: r.append(-1)
    return r
def intervals(pred,hi):
    out=[];s=None
    for c in range(hi+1):
        if pred(c):
            if s is None: s=c
        elif s is not None: out.append((s,c-1)); s=None
    if s is not None: out.append((s,hi))
    return out
L=["---------------------------- MODULE Codepages ----------------------------",
   "(* GENERATED by tools/mkcodepages.py from the published code page tables.   *)",
   "(* Tab[c][b+1] is the Unicode code point of byte b in code page c, -1 none. *)",
   "EXTENDS Integers, Sequences","",]
for n,e in TABS:
    t=table(e); L.append("Tab_%s == <<"%n)
    for i in range(0,256,16): L.append("  "+", ".join(map(str,t[i:i+16]))+("," if i<240 else ""))
    L.append(">>")
def seq(name,iv,comment):
    L.append("\\* "+comment); L.append("%s == <<"%name)
    s=["<<%d,%d>>"%x for x in iv]
    for i in range(0,len(s),8): L.append("  "+", ".join(s[i:i+8])+("," if i+8<len(s) else ""))
    L.append(">>")
seq("NumericRanges",intervals(lambda c: chr(c).isnumeric(),0x10FFFF),
    "code points whose Unicode Numeric_Type is Decimal, Digit or Numeric")
seq("UnprintableRanges",intervals(lambda c: not chr(c).isprintable(),0x10FFFF),
    "code points in Unicode categories Cc Cf Cs Co Cn Zl Zp Zs (blank excepted)")
L.append("=============================================================================")
open(os.path.join(here,"spec/Codepages.tla"),"w").write("\n".join(L)+"\n")
