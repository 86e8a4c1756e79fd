"""Drivers: families of sessions exercised on the real library.

A driver records calls and their observed outcomes; it never judges.
"""
import collections
import random

import gen
from gen import fs, base, rand_spec, rand_doc, field_set, good_value, value_of_size, build, join


def small_base(rng):
    return gen.unused(rng, base(None if rng.random() < 0.7 else gen.rand_header(rng),
                                rng.choice(["ascii", "b", "cp500"]), rng.choice(["b", "b", "ascii", "cp500"])))


# -- chains ------------------------------------------------------------------

def deeper(tr, spec):
    """now and then: the same behind a long header, so that everything happens far from the start"""
    tr.turn += 1
    if tr.turn % 19 or type(spec) is not dict or spec.get("h", {}).get("max_len", 1) != 0:
        return None
    size = (101, 127, 150, 201, 255, 257, 301)[tr.turn // 19 % 7]
    f, v = fs("ascii", "ascii", 0, size), "h" * size
    if tr.turn // 19 % 3 == 0:
        f = fs("ascii", "ascii", 3, 999)
    elif tr.turn // 19 % 3 == 1:
        f, v = fs("b", "b", 2, size), "AB" * size
    return dict(spec, h=f), v, b"".join(gen.build_field(f, v))


def chain(tr, d, spec, label="chain", deep=True):
    """encode, decode, encode again, decode again"""
    s = tr.session(label)
    a, _, r, _ = s.enc(d, spec)
    if r:
        b, _, r2, _ = s.dec(bytes(r[0]), spec, of=a)
        if r2:
            c, _, r3, _ = s.enc(dict(r2[0]), spec, of=b)
            if r3:
                s.dec(bytes(r3[0]), spec, of=c)
    h = deeper(tr, spec) if deep and type(d) is dict else None
    if h:
        chain(tr, dict(d, h=h[1]), h[0], label + "-deep", False)
    return s


def dchain(tr, w, spec, label="dchain", deep=True):
    """decode, encode, decode again"""
    s = tr.session(label)
    a, _, r, _ = s.dec(w, spec)
    if r:
        b, _, r2, _ = s.enc(dict(r[0]), spec, of=a)
        if r2:
            s.dec(bytes(r2[0]), spec, of=b)
    h = deeper(tr, spec) if deep else None
    if h:
        dchain(tr, h[2] + bytes(w), h[0], label + "-deep", False)
    return s


def single(tr, kind, x, spec, label, deep=True):
    s = tr.session(label)
    if kind == "dec":
        s.dec(x, spec)
    else:
        s.enc(x, spec)
    h = deeper(tr, spec) if deep else None
    if h and kind == "dec" and isinstance(x, (bytes, bytearray)):
        single(tr, kind, h[2] + bytes(x), h[0], label + "-deep", False)
    elif h and kind == "enc" and type(x) is dict:
        single(tr, kind, dict(x, h=h[1]), h[0], label + "-deep", False)
    return s


def roundtrip(rng, tr, n, big=False):
    for _ in range(n):
        fl = field_set(rng, rng.choice([0, 1, 1, 2, 3, 5, 8, 14]))
        sp = rand_spec(rng, fl, big=big and rng.random() < 0.5)
        chain(tr, rand_doc(rng, sp, fl), sp, "roundtrip")


def wires(rng, tr, n):
    """good messages as somebody else would have built them"""
    for _ in range(n):
        fl = field_set(rng, rng.choice([1, 1, 2, 3, 5, 8, 20]))
        sp = rand_spec(rng, fl)
        if rng.random() < 0.4:      # every length announced with width to spare
            for k in fl:
                if sp[str(k)]["len_type"] > 0:
                    sp[str(k)]["len_type"] = rng.choice(gen.WIDE + [3, 4, 11, 16, 21, 40])
        d = rand_doc(rng, sp, fl, stale=0, lower=rng.random() < 0.2)
        try:
            w = join(build(sp, d))
        except Exception:
            continue
        dchain(tr, w, sp, "wire")


def resembling(rng, tr, n):
    """neighbours that hold the same value under specifications that are hardly different"""
    for _ in range(n):
        size = rng.choice([2, 2, 3, 5])
        k = rng.choice([2, 2, 62, 63, 66, 127, 128, 129, 190, rng.randint(2, 187)])
        fl = [j for j in range(k, min(k + size, 193)) if j != 65]
        sp = small_base(rng)
        f = gen.rand_fs(rng, text=rng.random() < 0.6)
        while not gen.fits(f) or f["max_len"] < 2:
            f = gen.rand_fs(rng, text=rng.random() < 0.6)
        d = {"t": gen.rand_type(rng, sp["t"]["data_enc"])}
        if sp["h"]["max_len"] > 0:
            d["h"] = good_value(rng, sp["h"])
        v = max((good_value(rng, f) for _ in range(4)), key=len)
        for j in fl:
            g = gen.variant(rng, f) if rng.random() < 0.8 else gen.variant(rng, gen.variant(rng, f))
            if not gen.fits(g):
                g = dict(f)
            sp[str(j)] = g
            d[str(j)] = v if gen.admits(g, v) and rng.random() < 0.9 else good_value(rng, g)
        s = chain(tr, d, sp, "resembling")
        if s.ev[0]["o"]["k"] == "ok" and rng.random() < 0.3:
            try:
                w = join(build(sp, d))
            except Exception:
                continue
            single(tr, "dec", w[:rng.randrange(len(w))], sp, "resembling-cut")


def allspec(rng, h=None, tight=False):
    """a specification defining every field, small random attributes"""
    sp = small_base(rng) if h is None else base(h, "ascii", rng.choice(["b", "ascii"]))
    for n in range(2, 193):
        if n == 65:
            continue
        f = gen.rand_fs(rng)
        while not gen.fits(f) or f["max_len"] > 12:
            f = gen.rand_fs(rng)
        f["desc"] = "F%d" % n
        sp[str(n)] = f
    return sp


def allfields(rng, tr, n, specs=2):
    """every field number, alone and with neighbours, and everything at once"""
    for _ in range(specs):
        sp = allspec(rng)
        nums = [k for k in range(2, 193) if k != 65]
        todo = nums if n >= len(nums) * specs else rng.sample(nums, max(1, n // specs))
        for k in todo:
            fl = [k]
            if rng.random() < 0.3:
                fl.append(rng.choice(nums))
            chain(tr, rand_doc(rng, sp, sorted(set(fl)), lower=False), sp, "field-%d" % k)
        chain(tr, rand_doc(rng, sp, nums), sp, "all")
        chain(tr, rand_doc(rng, sp, [k for k in nums if k <= 64]), sp, "all-primary")
        chain(tr, rand_doc(rng, sp, [k for k in nums if 65 < k <= 128]), sp, "all-secondary")
        chain(tr, rand_doc(rng, sp, [k for k in nums if k > 128]), sp, "all-tertiary")
        for m in (2, 5, 20, 60):
            fl = sorted(rng.sample(nums, m))
            chain(tr, rand_doc(rng, sp, fl), sp, "many")


# -- lengths ------------------------------------------------------------------

LENS = [0, 1, 2, 3, 5, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 25, 31, 32, 63, 64, 99, 100, 101, 127, 128, 129, 199, 200,
        255, 256, 257, 259, 300, 999, 1000, 1001]
VAST = [32, 64, 127, 128, 129, 200, 255, 256, 500, 1000]    # bytes of a length prefix
LONG = [9999, 10000, 65535, 65536]
LEN_ENCS = ["b", "bcd", "ascii", "cp500", "latin1", "cp037", "utf8", "koi8r", "cp1252", "utf16be"]


def extreme(rng, budget):
    """a field of any magnitude in any combination of encodings, fitting or not, and one that follows"""
    de = rng.choice(["b", "b", "ascii"] + gen.ALLTEXT)
    le = rng.choice(LEN_ENCS)
    lt = rng.choice([0, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8])
    size = gen.big_size(rng, 70000 if budget > 30000 and rng.random() < 0.03 else 6000 if rng.random() < 0.3 else 1100)
    if rng.random() < 0.6:
        size = min(size, gen.cap(le, lt) if lt else 2000)
    nib = rng.random() < 0.35
    if nib and de != "b" or de == "utf16be":
        size += size % 2
    if budget < size:
        return None
    ml = max(0, rng.choice([size, size, size, size, size + 1, size - 1, 10 ** 6, 999, 255, 9999]))
    f = fs(de, le, lt, ml, nib, *rng.choice([("0", None), (None, "F"), (None, None), ("A", "E")]))
    if de != "b":
        f["data_enc"] = rng.choice(gen.ALIASES[de])
    if le not in ("b", "bcd"):
        f["len_enc"] = rng.choice(gen.ALIASES[le])
    at_h = rng.random() < 0.1 and ml > 0
    sp, num = one_field(rng, f, h=f if at_h else None)
    follow = rng.random() < 0.4
    d = {"t": "0200", str(num): value_of_size(rng, f, size)}
    if at_h:
        d["h"] = d[str(num)]
    elif sp["h"]["max_len"] > 0:
        d["h"] = good_value(rng, sp["h"])
    if follow:
        nxt = rng.choice([k for k in range(num + 1, 195) if k != 65 and k < 193] or [2])
        if str(nxt) != str(num):
            sp[str(nxt)] = fs("ascii", "ascii", 2, 5)
            d[str(nxt)] = "abc"
    return sp, d, size


def extremes(rng, tr, n, budget=40000):
    """sizes of every magnitude in every combination of encodings, fitting and not, both directions"""
    for _ in range(n):
        case = extreme(rng, budget)
        if case is None:
            continue
        sp, d, size = case
        budget -= size
        s = chain(tr, dict(d), sp, "extreme")
        if s.ev[0]["o"]["k"] == "ok" or rng.random() < 0.4:
            try:
                w = join(build(sp, d))
            except Exception:
                continue
            budget -= size
            if rng.random() < 0.5:
                w = w[:max(0, len(w) - rng.choice([1, 1, 2, size // 2, size]))]
                single(tr, "dec", w, sp, "extreme-cut")
            else:
                b = bytearray(w)
                i = rng.randrange(len(b))
                b[i] = rng.choice([0, 0xff, 0x80, 0x20, 0x30, 0x41, b[i] ^ 0x20, (b[i] + 1) % 256])
                single(tr, "dec", bytes(b), sp, "extreme-bent")


def heavy_doc(rng, total):
    """a message of many large fields, a little more than total bytes"""
    fl = sorted(rng.sample([k for k in range(2, 193) if k != 65], rng.choice([20, 40, 60, 90])))
    sp = rand_spec(rng, fl)
    d = {"t": "0200"}
    if sp["h"]["max_len"] > 0:
        d["h"] = good_value(rng, sp["h"])
    each = total // len(fl) + 1
    for k in fl:
        de = rng.choice(["b", "ascii", "ascii", "cp500", "latin1"])
        le, lt = rng.choice([("ascii", 4), ("b", 2), ("bcd", 2), ("cp500", 4), ("ascii", 0), ("b", 4), ("bcd", 3)])
        size = max(1, min(each + rng.randint(-each // 9, each // 7), 9999))
        f = fs(de, le, lt, size if lt == 0 else rng.choice([size, 9999]))
        sp[str(k)] = f
        d[str(k)] = value_of_size(rng, f, size)
    return sp, d


def heavy(rng, tr, n):
    """messages whose total size passes the limits of small integers; faults near their end"""
    for i in range(n):
        sp, d = heavy_doc(rng, (33000, 4200, 66000, 17000, 8300)[i % 5])
        s = chain(tr, dict(d), sp, "heavy")
        if s.ev[0]["o"]["k"] != "ok" and i % 2:
            continue
        w = join(build(sp, d))
        c = i % 3
        if c == 0:
            w = w[:-rng.choice([1, 2, 300])]
        elif c == 1:
            w += b"\x00"
        else:
            b = bytearray(w)
            b[-rng.randint(1, 900)] ^= 0x80
            w = bytes(b)
        single(tr, "dec", w, sp, "heavy-bent")
        last = max((k for k in d if k.isnumeric()), key=int)
        single(tr, "enc", dict(d, **{last: spoil(rng, sp[last])}), sp, "heavy-spoiled")


def one_field(rng, f, num=None, h=None):
    sp = small_base(rng) if h is None else base(h, "ascii", "b")
    num = num or rng.choice([2, 3, 9, 64, 66, 80, 128, 129, 150, 192])
    sp[str(num)] = f
    return sp, num


def lengths(rng, tr, n, long=0):
    """sizes around every boundary, in every length encoding, both directions"""
    combos = [(le, lt, size, nib, de) for le in LEN_ENCS for lt in (1, 2, 3, 4) for size in LENS
              for nib in (False, True) for de in ("ascii", "b")]
    rng.shuffle(combos)
    for size in LONG[:long]:
        for le in ("b", "bcd", "ascii"):
            combos.insert(0, (le, rng.choice([2, 3, 4, 4]), size, False, "ascii"))
    # lengths that use every byte of a wide prefix
    for le, lt, size in [("bcd", 3, 10000), ("bcd", 3, 12345), ("b", 3, 65536), ("b", 3, 66051), ("ascii", 5, 10000), ("bcd", 4, 23456),
                         ("cp500", 6, 12345)][:3 * long]:
        combos.insert(0, (le, lt, size, False, "ascii"))
    for le, lt, size, nib, de in combos[:n]:
        ml = rng.choice([size, size, size + 1, max(0, size - 1), gen.cap(le, lt), gen.cap(le, lt) + 1, size + 9])
        ml = min(ml, 10 ** 6)
        pad = rng.choice(["0", "F", "A"])
        f = fs(de, le, lt, ml, nib, *rng.choice([(pad, None), (None, pad), (None, None), (pad, "E")]))
        at_h = rng.random() < 0.12 and size > 0
        sp, num = one_field(rng, f, h=f if at_h else None)
        d = {"t": "0200", str(num): value_of_size(rng, f, size)}
        if at_h:
            d["h"] = value_of_size(rng, f, size)
        elif sp["h"]["max_len"] > 0:
            d["h"] = good_value(rng, sp["h"])
        s = chain(tr, dict(d), sp, "len")
        if size > 2000 and s.ev[0]["o"]["k"] == "ok":
            continue
        # the wire as announced by somebody else, also where encode refuses
        try:
            parts = build(sp, d)
        except Exception:
            continue
        w = join(parts)
        if s.ev[0]["o"]["k"] != "ok":
            dchain(tr, w, sp, "len-wire")
        elif rng.random() < 0.5:
            # announced length off by one
            k, lb, data = parts[-1]
            off = rng.choice([-1, 1, 1, 2])
            if size + off >= 0 and len(gen.build_len(f, size + off)) == lt:
                w2 = join(parts[:-1]) + gen.build_len(f, size + off) + data
                dchain(tr, w2, sp, "len-off")
    # fixed sizes
    for _ in range(n // 4):
        size = rng.choice(LENS[:24])
        nib = rng.random() < 0.5
        f = fs(rng.choice(["ascii", "b", "b", "cp500", "utf8"]), "ascii", 0, size, nib,
               *rng.choice([("0", None), (None, "F"), (None, None), ("A", "B")]))
        at_h = rng.random() < 0.15 and size > 0
        sp, num = one_field(rng, f, h=f if at_h else None)
        d = {"t": "0200", str(num): value_of_size(rng, f, size)}
        if at_h or sp["h"]["max_len"] > 0:
            d["h"] = value_of_size(rng, f, size) if at_h else good_value(rng, sp["h"])
        k = rng.choice([str(num), str(num), "h"]) if at_h else str(num)
        chain(tr, dict(d), sp, "fixed")
        for delta in (-1, 1, -size, size, 2):
            if size + delta >= 0 and rng.random() < 0.5:
                d2 = dict(d)
                d2[k] = value_of_size(rng, f, size + delta)
                chain(tr, d2, sp, "fixed-off")


def bent(rng, good, by):
    """one byte of a good prefix replaced"""
    out = []
    for _ in range(4):
        b = bytearray(good)
        b[rng.randrange(len(b))] = rng.choice(by)
        out.append(bytes(b))
    return out


def prefix_candidates(f, rng=None):
    """length prefixes that somebody might send: good, bad and ugly"""
    lt, le, ml = f["len_type"], f["len_enc"], f["max_len"]
    if le == "b":
        c = [bytes(lt), b"\xff" * lt, b"\x80" + bytes(lt - 1), bytes(lt - 1) + b"\x01", b"\x01" + bytes(lt - 1)]
        c += [b"\xff" * (lt - 1) + bytes([256 - k]) for k in (2, 8, 16, 100)]
        if rng:
            c += [bytes(rng.choice([0, 0, 1, 0x7f, 0x80, 0xff, 0xf0, rng.randrange(256)]) for _ in range(lt)) for _ in range(3)]
            c += bent(rng, rng.randint(0, min(ml, 256 ** lt - 1)).to_bytes(lt, "big"), [1, 2, 0x80, 0xff])
        for n in (ml - 1, ml, ml + 1, 255, 256):
            if 0 <= n < 256 ** lt:
                c.append(n.to_bytes(lt, "big"))
        return c
    if le == "bcd":
        c = [bytes(lt), b"\x99" * lt, b"\xff" * lt, bytes(lt - 1) + b"\x0a", b"\xa0" + bytes(lt - 1),
             bytes(lt - 1) + b"\x1f", b"\x1e\x01"[:lt].rjust(lt, b"\0"), b"\x01\xe0"[-lt:].rjust(lt, b"\0"), b"\x01\xe1"[-lt:].rjust(lt, b"\0"),
             bytes(lt - 1) + b"\x01", b"\x01" + bytes(lt - 1), bytes(lt - 1) + b"\x3c"]
        if rng:
            c += [bytes(rng.choice([0, 0, 0x10, 0x09, 0x90, 0x99, 0x9f, 0xf0, rng.randrange(256)]) for _ in range(lt)) for _ in range(3)]
            c += bent(rng, bytes.fromhex(str(rng.randint(0, min(ml, 10 ** (2 * lt) - 1))).rjust(2 * lt, "0")),
                      [1, 0x10, 0x99, 0x0a, 0xa0, 0xff])
        for n in (ml - 1, ml, ml + 1, 10, 16):
            if 0 <= n < 10 ** (2 * lt):
                c.append(bytes.fromhex(str(n).rjust(2 * lt, "0")))
        return c
    texts = ["0" * lt, "9" * lt]
    if rng and lt > 1:
        good = str(rng.randint(0, min(ml, 10 ** lt - 1))).rjust(lt, "0")
        for _ in range(4):
            i = rng.randrange(lt)
            texts.append(good[:i] + rng.choice("1 +-_.\t\0ex\xb2\xb9\xa0\u0661\uff11,/:aAfF") + good[i + 1:])
    for n in (ml - 1, ml, ml + 1, 1, 2, 10):
        if 0 <= n < 10 ** lt:
            texts.append(str(n).rjust(lt, "0"))
    ugly = [" 1", "1 ", "+1", "-1", "1_0", " 10", "10 ", "+10", "-10", "1.0", "1e1", "0x1", "0b1", "\t1", "1\n", " 1 ",
            "a", "1a", "A", " ", "  ", "   ", "0_1", "01 ", "+01", "-0", "-00", "--", "\x001", "1\x00", "\x00", "1,0",
            "+", "-", "_", "_1", "1_", "01_0", " 010", "+010", "-001", "\xb2", "\xb9\xb9", "\xbd", "1\xb3", "\xa01",
            "1\xa0", "\x851", "1\x1c", "\x1f1", "\u0661", "\u0662 ", "\uff11", "\u2081", "\u06f1", "\u0967", "\U0001d7d7",
            "\u00a0", "O1", "l0", "1O", "I", "0o", "00", "000", "0000"]
    out = []
    for t in texts + ugly:
        try:
            b = t.encode(f["len_enc"])
        except (UnicodeEncodeError, LookupError):
            continue
        if len(b) == lt:
            out.append(b)
    out += [b"\xff" * lt, b"\x80" * lt, b"\x00" * lt, b"\x05" * lt, b"\xc3\x28"[:lt].ljust(lt, b"1")]
    return out


def prefixes(rng, tr, n, vast=False):
    """every candidate length prefix in front of enough data"""
    done = 0
    todo = [(lt, le) for lt in (VAST if vast else ()) for le in ("b", "b", "bcd", rng.choice(LEN_ENCS[2:]))]
    while done < n:
        de = rng.choice(["ascii", "b", "cp500", "utf8"])
        le = rng.choice(LEN_ENCS)
        lt = rng.choice([1, 2, 2, 3, 3, 4, rng.choice(gen.WIDE)])
        wide = bool(todo)
        if wide:
            lt, le = todo.pop()
        nib = rng.random() < 0.4
        ml = rng.choice([0, 1, 5, 9, 10, 11, 12, 20, 30])
        f = fs(de, le, lt, ml, nib, *rng.choice([("0", None), (None, "F"), (None, None)]))
        if f["len_enc"] not in ("b", "bcd"):
            f["len_enc"] = rng.choice(gen.ALIASES[le])
        at_h = rng.random() < 0.15 and ml > 0
        sp, num = one_field(rng, f, h=f if at_h else None)
        follow = rng.random() < 0.3 and num < 192
        if follow:
            sp[str(num + (2 if num == 64 else 1))] = fs("ascii", "ascii", 0, 2)
        pres = prefix_candidates(f, rng)
        for pre in rng.sample(pres, min(4, len(pres))) if wide else pres:
            done += 0 if wide else 1
            size = rng.choice([0, 1, 2, 5, 10, 15])
            try:
                units = int.from_bytes(pre, "big") if le == "b" else int(
                    pre.hex() if le == "bcd" else pre.decode(f["len_enc"]))
                if 0 <= units <= 40:
                    size = (units + 1) // 2 if nib else units
            except Exception:
                pass
            data = rng.choice([b"\x00", b"1", b"\x12", b"\xf1", b"\x30"]) * size
            d = {"t": "0200"}
            h = b""
            if at_h:
                h = pre + data
            elif sp["h"]["max_len"] > 0:
                d["h"] = good_value(rng, sp["h"])
                h = b"".join(gen.build_field(sp["h"], d["h"]))
            t = bytes.fromhex("0200") if sp["t"]["data_enc"] == "b" else "0200".encode(sp["t"]["data_enc"])
            bits = set() if at_h else {num} | ({num + (2 if num == 64 else 1)} if follow else set())
            w = h + t + bitmap_bytes(sp, bits) + (b"" if at_h else pre + data) + (b"12" if bits and follow else b"")
            dchain(tr, w, sp, "prefix")


def bitmap_bytes(sp, nums):
    bits = set(nums)
    if any(n > 128 for n in nums):
        bits.add(65)
    if any(n > 64 for n in bits):
        bits.add(1)
    w = gen.build_bitmap(sp["p"], bits, 0)
    if 1 in bits:
        w += gen.build_bitmap(sp["1"], bits, 64)
        if 65 in bits:
            w += gen.build_bitmap(sp["1"], bits, 128)
    return w


# -- damaged wires --------------------------------------------------------------

def damaged(rng, tr, n, per=24):
    """truncations, extensions and corruptions of good wires"""
    done = 0
    while done < n:
        fl = field_set(rng, rng.choice([0, 0, 1, 1, 2, 2, 3, 3, 5, 5, 9, 33]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl, stale=0)
        try:
            parts = build(sp, d)
        except Exception:
            continue
        w = join(parts)
        dchain(tr, w, sp, "intact")
        cuts = list(range(len(w)))
        if len(cuts) > per:
            # boundaries first, then a sample
            at, b = set(), 0
            for _, x, y in parts:
                for p in (b, b + len(x), b + len(x) + len(y)):
                    at.update({p - 1, p, p + 1})
                b += len(x) + len(y)
            at = sorted(p for p in at if 0 <= p < len(w))
            cuts = rng.sample(at, min(len(at), per * 2 // 3)) + rng.sample(cuts, per // 3)
        for c in sorted(set(cuts)):
            single(tr, "dec", w[:c], sp, "truncated")
        for tail in (b"\x00", b" ", b"0", b"\xff\xff", w[:5]):
            single(tr, "dec", w + tail, sp, "extended")
        for _ in range(8):
            b = bytearray(w)
            if not b:
                continue
            for _ in range(rng.choice([1, 1, 1, 2])):
                i = rng.randrange(len(b))
                b[i] = rng.choice([0, 0xff, 0x20, 0x2b, 0x2d, 0x30, 0x39, 0x41, 0x61, 0x5f, 0xf0, b[i] ^ (1 << rng.randrange(8)),
                                   (b[i] + 1) % 256, (b[i] - 1) % 256, rng.randrange(256)])
            dchain(tr, bytes(b), sp, "corrupt")
        if len(w) > 1:
            i = rng.randrange(len(w))
            dchain(tr, w[:i] + w[i + 1:], sp, "deleted")
            dchain(tr, w[:i] + w[i:i + 1] + w[i:], sp, "doubled")
        done += len(cuts) + 15


def garbage(rng, tr, n):
    """arbitrary bytes"""
    for _ in range(n):
        sp = rand_spec(rng, field_set(rng, rng.choice([1, 5, 20])))
        if rng.random() < 0.5:
            sp = allspec(rng)
        ln = rng.choice([0, 1, 4, 8, 12, 20, 28, 36, 60, 100])
        al = rng.choice([range(256), b"0123456789", b"0123456789ABCDEFabcdef", b"\x00\x01\x80\xff", b"0 ", range(128)])
        w = bytes(rng.choice(list(al)) for _ in range(ln))
        dchain(tr, w, sp, "garbage")


# -- bitmaps ----------------------------------------------------------------------

def zero_spec(rng, bm, one=None, enabled_header=False, only=None):
    """every field defined with nothing to read: isolates the bitmaps"""
    sp = base(fs("ascii", "ascii", 0, 2) if enabled_header else None, "ascii", bm, one)
    gen.unused(rng, sp)
    for n in only or range(2, 193):
        if n != 65:
            sp[str(n)] = fs("ascii", "ascii", 0, 0, desc="z")
    return sp


def bitmap_text(rng, b, style):
    h = b.hex()
    if style == "upper":
        return h.upper()
    if style == "lower":
        return h
    return "".join(rng.choice([c, c.upper()]) for c in h)


def bitmaps(rng, tr, n):
    """received bitmaps: every single bit, combinations, damaged text"""
    pats = []
    for b in range(1, 65):
        pats.append({b})
        pats.append({1, 64 + b})
        pats.append({1, 65, 128 + b})
    rng.shuffle(pats)
    extra = [set(), {1}, {1, 65}, set(range(1, 193)), set(range(2, 65)), {1, 65, 66, 129, 192}, {1, 2, 64, 65, 66, 128},
             {1, 128}, {1, 65, 192}, {1, 65, 129}, {2, 64}, {1, 2}, {1, 2, 65, 193 - 1}]
    pats = extra + pats
    while len(pats) < n:
        if rng.random() < 0.4:
            s = set(gen.field_ranges(rng, 64))
            s |= {1} if any(x > 64 for x in s) else set()
            s |= {65} if any(x > 128 for x in s) else set()
            pats.append(s)
            continue
        k = rng.choice([1, 2, 3, 8, 30, 90])
        s = set(rng.randint(1, 192) for _ in range(k))
        if any(x > 64 for x in s) or rng.random() < .2:
            s.add(1)
        if any(x > 128 for x in s):
            s.add(65)
        pats.append(s)
    styles = [("b", "b"), ("ascii", "ascii"), ("cp500", "cp500"), ("b", "ascii"), ("ascii", "b"), ("utf8", "cp037")]
    for pat in pats[:n]:
        p, o = rng.choice(styles)
        eh = rng.random() < 0.15
        data = rng.random() < 0.3
        if data:
            sp = gen.unused(rng, base(fs("ascii", "ascii", 0, 2) if eh else None, "ascii", p, o))
            for k in pat - {1, 65}:
                sp[str(k)] = rng.choice([fs("ascii", "ascii", 0, 1), fs("b", "ascii", 0, 1), fs("ascii", "ascii", 2, 3)])
        else:
            sp = zero_spec(rng, p, o, eh)
        maps = [gen.build_bitmap(base(None, "ascii", "b")["p"], pat, off) for off in (0, 64, 128)]
        w = b"HD" if eh else b""
        w += b"0200"
        use = [maps[0]] + ([maps[1]] if 1 in pat else []) + ([maps[2]] if 1 in pat and 65 in pat else [])
        encs = [p, o, o]
        for i, m in enumerate(use):
            e = encs[i]
            if e == "b":
                w += m
            else:
                tx = bitmap_text(rng, m, rng.choice(["upper", "upper", "lower", "mixed"]))
                c = rng.random()
                if c < 0.25:  # damage
                    tx = list(tx)
                    for _ in range(rng.choice([1, 1, 2, 2, 4, 16])):
                        j = rng.randrange(16)
                        tx[j] = rng.choice(" \t\n\r\x0b\x0cgGxX-+_zO\x00")
                    if rng.random() < 0.4:
                        j = rng.choice([0, 2, 4, 14])
                        tx[j] = tx[j + 1] = " "
                    tx = "".join(tx)
                w += tx.encode(gen.ALIASES[e][0])
        if data and 1 not in pat:
            ks = sorted(k for k in pat if k <= 64)
        elif data:
            ks = sorted(k for k in pat if k not in (1, 65) and (k <= 128 or 65 in pat))
        else:
            ks = []
        for k in ks:
            f = sp[str(k)]
            w += b"02xy" if f["len_type"] else (b"\x12" if f["data_enc"] == "b" else b"1")
        if rng.random() < 0.08:
            w += b"0"
        if rng.random() < 0.08:
            w = w[:-1]
        dchain(tr, w, sp, "bitmap")


def encode_bitmaps(rng, tr, n):
    """field sets and stale bitmap keys in, bitmaps out"""
    sets = [[], [2], [64], [66], [128], [129], [192], [2, 66], [2, 129], [66, 129], [64, 66, 128, 129, 192], [127], [130],
            [k for k in range(2, 193) if k != 65], [k for k in range(2, 65)], [k for k in range(66, 129)],
            [k for k in range(129, 193)]]
    sets += [[k] for k in range(2, 193) if k != 65]
    sets[17:] = rng.sample(sets[17:], len(sets) - 17)
    while len(sets) < n:
        if rng.random() < 0.5:
            sets.append(gen.field_ranges(rng, 64))
            continue
        k = rng.choice([1, 2, 3, 10, 60])
        lo, hi = rng.choice([(2, 64), (2, 128), (2, 192), (60, 70), (125, 132), (120, 192)])
        sets.append(sorted({rng.randint(lo, hi) for _ in range(k)} - {65}))
    stale = ["", "FFFFFFFFFFFFFFFF", "0000000000000000", "junk", "80000000000000008000000000000000", "8" * 31]
    full = {}
    for fl in sets[:n]:
        bm, one = rng.choice([("b", "b"), ("ascii", "ascii"), ("cp500", "cp500"), ("b", "ascii"), ("utf8", "b"), ("cp037", "ascii")])
        if rng.random() < 0.6:
            if (bm, one) not in full:
                full[bm, one] = zero_spec(rng, bm, one)
            sp = full[bm, one]
            d = {"t": "0200"}
            d.update((str(k), "") for k in fl)
        else:
            sp = rand_spec(rng, fl)
            d = rand_doc(rng, sp, fl, stale=0)
        for k in ("p", "1", "65"):
            if rng.random() < 0.5:
                d[k] = rng.choice(stale)
        if rng.random() < 0.05:
            d["p"] = None
        items = list(d.items())
        rng.shuffle(items)
        chain(tr, dict(items), sp, "encode-bitmaps")
    # one dictionary used again and again with changing fields
    sp = zero_spec(rng, "ascii", "ascii")
    for _ in range(max(2, n // 40)):
        s = tr.session("reused-dict")
        d = {"t": "0200"}
        for _ in range(8):
            for _ in range(rng.choice([1, 2])):
                k = str(rng.choice([2, 3, 64, 66, 67, 128, 129, 130, 192]))
                if k in d and rng.random() < 0.6:
                    del d[k]
                else:
                    d[k] = ""
            s.enc(d, sp)


# -- values ------------------------------------------------------------------------

def texts(rng, tr, n):
    """every byte and every repertoire character of every codec, and text that must not be touched"""
    for c in gen.ALLTEXT:
        names = gen.ALIASES[c]
        reps = gen.repertoire(c)
        # every byte of a single byte codec
        chunks = [bytes(range(i, i + 16)) for i in range(0, 256, 16)]
        for ch in rng.sample(chunks, min(len(chunks), max(2, n // 40))):
            for b in ([ch] if c != "utf16be" else []) + [bytes([x]) for x in rng.sample(list(ch), 2)]:
                f = fs(c, "ascii", 0, len(b))
                f["data_enc"] = rng.choice(names)
                sp, num = one_field(rng, f)
                while sp["h"]["max_len"] > 0:
                    sp, num = one_field(rng, f)
                w = type_bytes(sp) + bitmap_bytes(sp, {num}) + b
                dchain(tr, w, sp, "bytes-" + c)
        for i in range(0, len(reps), 16):
            if rng.random() < min(1.0, n / 300):
                v = "".join(reps[i:i + 16])
                f = fs(c, rng.choice(["ascii", "b", "bcd"]), rng.choice([2, 3]), 64, rng.random() < 0.3)
                f["data_enc"] = rng.choice(names)
                sp, num = one_field(rng, f)
                d = {"t": "0200", str(num): v}
                if sp["h"]["max_len"] > 0:
                    d["h"] = good_value(rng, sp["h"])
                chain(tr, d, sp, "chars-" + c)
    # every name of every codec, with all it can represent
    for c in gen.SINGLE:
        allof = "".join(gen.repertoire(c))
        for name in sorted(set(gen.ALIASES[c])):
            for name in {name, name.upper(), name.replace("_", "-").capitalize()}:
                if rng.random() > n / 300:
                    continue
                sp = base(None, "ascii", "b")
                d = {"t": "0200"}
                for i in range(0, len(allof), 64):
                    sp[str(2 + i // 64)] = fs(name, "ascii", 2, 64)
                    d[str(2 + i // 64)] = allof[i:i + 64]
                chain(tr, d, sp, "name-" + c)
    odd = ["  x", "x  ", " ", "\t", "\n", "a\r\nb", "\0", "0", "00", "abc", "ABC", "\xe9", "e\u0301", "\xdf", "\xb5", "\u0130",
           "I\u0307", "\ufb01", "\u2126", "\u212b", "\uff21", "\xad", "\ufeff", "\ufeffx", "\u200b", "\xa0", "\u2028", "\x85",
           "\x1a", "\x7f", "\x80", "\xff", "\u0100", "\u20ac", "\ud800", "a\udc80", "\U0001f600", "?", "a?b", "\\x", "{}",
           "%s", "&lt;", "\u0416", "\xc4\x8d", "\xe2\x82\xac", "1" * 40]
    for _ in range(n):
        c = rng.choice(gen.ALLTEXT)
        v = rng.choice(odd)
        if rng.random() < 0.3:
            v += rng.choice(odd)
        if rng.random() < 0.3:
            v = rng.choice(gen.repertoire(c)) + v
        try:
            size = len(v.encode(gen.ALIASES[c][0]))
        except UnicodeEncodeError:
            size = len(v)
        nib = rng.random() < 0.3
        fixed = rng.random() < 0.5
        u = 2 * size if nib else size
        f = fs(c, rng.choice(["ascii", "b", "bcd", "cp500"]), 0 if fixed else 2,
               u + rng.choice([0, 0, 0, 1, -1]) if u else u, nib)
        f["data_enc"] = rng.choice(gen.ALIASES[c])
        at = rng.random()
        if at < 0.15 and u > 0:
            sp = base(f, "ascii", "b")
            d = {"h": v, "t": "0200"}
        else:
            sp, num = one_field(rng, f)
            d = {"t": "0200", str(num): v}
            if sp["h"]["max_len"] > 0:
                d["h"] = good_value(rng, sp["h"])
        chain(tr, d, sp, "odd-text")
    # undecodable wires
    bad = [b"\x80", b"\xff", b"\xc3", b"\xc3\x28", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"\xf0\x80\x80\x80",
           b"a\x81b", b"\x8d\x8f", b"\x90\x9d", b"\xd8\x00", b"\xdc\x00\x00\x41", b"\x00", b"\xe9", b"\xc3\xa9", b"\xef\xbb\xbfx"]
    for _ in range(n // 2):
        c = rng.choice(gen.ALLTEXT + ["ascii", "utf8", "cp1252"])
        b = rng.choice(bad) + rng.choice([b"", b"", b"x", b"\x80"])
        nib = rng.random() < 0.3
        u = 2 * len(b) if nib else len(b)
        fixed = rng.random() < 0.5
        f = fs(c, "ascii", 0 if fixed else 2, u, nib)
        f["data_enc"] = rng.choice(gen.ALIASES[c])
        wf = (b"" if fixed else b"%02d" % u) + b
        if rng.random() < 0.15:
            sp = base(f, "ascii", "b")
            w = wf + b"0200" + bytes(8)
        else:
            sp = base(None, "ascii", rng.choice(["b", "ascii"]))
            num = rng.choice([2, 64, 66, 129])
            sp[str(num)] = f
            sp[str(num + 1)] = fs("ascii", "ascii", 0, 1)
            both = rng.random() < 0.3 and num != 64
            w = type_bytes(sp) + bitmap_bytes(sp, {num, num + 1} if both else {num}) + wf + (b"1" if both else b"")
        dchain(tr, w, sp, "undecodable")
    # message type
    for _ in range(n // 3):
        c = rng.choice(gen.BYTEWIDE)
        sp = base(None, c, rng.choice(["b", "ascii"]))
        sp["t"]["data_enc"] = rng.choice(gen.ALIASES[c])
        v = "".join(rng.choice(gen.repertoire(c)) for _ in range(rng.choice([4, 4, 4, 4, 3, 5, 0])))
        if rng.random() < 0.1:
            v = rng.choice(["\xe9\xe9", "020\xe9", "02 0", " 200", "0200 ", "\u0416200"])
        chain(tr, {"t": v}, sp, "type")
        b = bytes(rng.randrange(256) for _ in range(rng.choice([4, 4, 4, 4, 3])))
        dchain(tr, b + (bytes(8) if sp["p"]["data_enc"] == "b" else b"0" * 16), sp, "type-wire")
    # bitmaps and types in codecs that do not exist
    for name in ("nope", "ascii2", "hex", "base64", "rot13", "zlib", "", "utf-99"):
        for where in ("t", "p", "1", "data", "len", "h", "hlen"):
            if rng.random() > n / 150:
                continue
            sp = base(fs("ascii", "ascii", 2, 5), "ascii", "ascii")
            sp["66"] = fs("ascii", "ascii", 2, 5)
            k = {"data": "66", "len": "66", "hlen": "h"}.get(where, where)
            sp[k] = dict(sp[k])
            sp[k]["len_enc" if where in ("len", "hlen") else "data_enc"] = name
            if name == "hex" and where != "data":
                continue
            single(tr, "enc", {"h": "hd", "t": "0200", "66": "abc"}, sp, "unknown-codec")
            w = b"02hd0200" + b"8000000000000000" + b"4000000000000000" + b"03abc"
            single(tr, "dec", w, sp, "unknown-codec")
            single(tr, "dec", w[:rng.randrange(len(w))], sp, "unknown-codec")


def type_bytes(sp, v="0200"):
    return bytes.fromhex(v) if sp["t"]["data_enc"] == "b" else v.encode(sp["t"]["data_enc"])


HEXBAD = ["0 ", " 0", "0 1", "01 23 ", " 0123", "0g", "GG", "0x01", "-1", "+1", "0\n", "\t01", "\u0661\u0661", "\uff10\uff11", "0_1_",
          "zz", "..", "0\x00", "  ", " ", "01 23", "0 12", "01\n2", "1 ", "12 34 5", "\xb2\xb2"]


def binaries(rng, tr, n):
    """hex values, odd nibbles, pads"""
    pads = ["0", "F", "f", "A", "a", "9", "01", "F0", "c", "", "ff", "0F"]
    for _ in range(n):
        nib = rng.random() < 0.75
        size = rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 9, 11, 12, 15, 16, 17])
        fixed = rng.random() < 0.4
        lp, rp = rng.choice([(None, None), (rng.choice(pads), None), (None, rng.choice(pads)),
                             (rng.choice(pads), rng.choice(pads)), (rng.choice(pads), rng.choice(pads))])
        f = fs("b", rng.choice(["b", "bcd", "ascii", "cp500"]), 0 if fixed else rng.choice([1, 2]), size if fixed else 20, nib, lp, rp)
        at_h = rng.random() < 0.12 and f["max_len"] > 0
        sp, num = one_field(rng, f, h=f if at_h else None)
        v = value_of_size(rng, f, size)
        c = rng.random()
        if c < 0.35 and v:
            # pad digits at the ends of the data itself
            v = list(v)
            for p in (lp, rp, "0", "F"):
                if p and rng.random() < 0.6:
                    v[rng.choice([0, -1])] = rng.choice([p[0], p[0].swapcase()])
            v = "".join(v)
        elif c < 0.5:
            v = rng.choice(HEXBAD)
            if fixed:
                f["max_len"] = len(v) if nib else len(v) // 2
        elif c < 0.6 and v:
            i = rng.randrange(len(v))
            v = v[:i] + rng.choice("gGzZ -+_\u0661\xb2") + v[i + 1:]
        elif c < 0.65:
            v = v + "0"
        d = {"t": "0200", str(num): v}
        if at_h:
            d["h"] = v
        elif sp["h"]["max_len"] > 0:
            d["h"] = good_value(rng, sp["h"])
        chain(tr, d, sp, "binary")
    # received nibbles with and without the right pad
    for _ in range(n):
        lp, rp = rng.choice([(None, None), (rng.choice(pads), None), (None, rng.choice(pads)), (rng.choice(pads), rng.choice(pads))])
        u = rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 7, 9])
        fixed = rng.random() < 0.5
        f = fs("b", "ascii", 0 if fixed else 2, u if fixed else 12, True, lp, rp)
        digs = "0123456789ABCDEF"
        x = "".join(rng.choice(digs) for _ in range(u + u % 2))
        if u % 2 and x and rng.random() < 0.75:
            cand = [p for p in ((lp or "")[:1], (rp or "")[:1], "0", "F") if p]
            ch = rng.choice(cand).upper()
            x = ch + x[1:] if rng.random() < 0.5 else x[:-1] + ch
            if rng.random() < 0.3:
                ch = rng.choice(cand).upper()
                x = x[:-1] + ch
        at_h = rng.random() < 0.1 and u > 0
        wf = (b"" if fixed else b"%02d" % u) + bytes.fromhex(x)
        if at_h:
            sp = base(f, "ascii", "b")
            w = wf + b"0200" + bytes(8)
        else:
            sp = base(None, rng.choice(["ascii", "b"]), rng.choice(["b", "ascii"]))
            num = rng.choice([2, 3, 64, 66, 128, 129, 192])
            sp[str(num)] = f
            w = type_bytes(sp) + bitmap_bytes(sp, {num}) + wf
        dchain(tr, w, sp, "pad-wire")
    # every byte value in binary data, plain
    for i in range(0, 256, 32):
        sp = base(None, "ascii", "b")
        sp["64"] = fs("b", "b", 1, 32)
        dchain(tr, b"0200" + bitmap_bytes(sp, {64}) + b"\x20" + bytes(range(i, i + 32)), sp, "bytes-b")
    for _ in range(n // 6):
        sp = base(None, "b", rng.choice(["b", "ascii"]))
        v = rng.choice(["0200", "aBcD", "ffff", "FFFF", "0000", "123", "12345", "", "02 0", "020g", "00", "020000", "\xb2\xb2\xb2\xb2", " 200"])
        chain(tr, {"t": v}, sp, "type-b")
        dchain(tr, bytes(rng.randrange(256) for _ in range(2)) + bytes(8), base(None, "b", "b"), "type-b-wire")
    for i in range(256):
        if rng.random() < n / 1000:
            s = tr.session("type-b-all")
            for v in (bytes([i, rng.randrange(256)]), bytes([rng.choice([0, 1, 2, 4, 8]), i]), bytes([i, i])):
                s.enc({"t": v.hex().upper()}, base(None, "b", "b"))
                s.dec(v + bytes(8), base(None, "b", "b"))


# -- failing calls -----------------------------------------------------------------

# names that are not an encoding; "b" and "bcd" are spelled one way only
NOCODEC = ["nope", "ascii2", "B", "bcd", "BCD", "b ", "binary", "undefined", "undefined"]
NOLENCODEC = ["nope", "ascii2", "B", "BCD", "Bcd", "bcd ", "b-c-d", "undefined", "undefined"]


def spoil(rng, f):
    """a value that field f cannot take (most of the time)"""
    nib = f.get("len_count") == "nibbles"
    c = rng.random()
    if f["data_enc"] == "b":
        if c < 0.25:
            return rng.choice(HEXBAD)
        if c < 0.45:
            return "123" if not nib else "12345"
    elif c < 0.35:
        return rng.choice(["\u0416", "\xe9", "\ud800", "x\u20ac", "\U0001f600"])
    if c < 0.5:
        return ""
    m = f["max_len"]
    return value_of_size(rng, f, rng.choice([m + 1, m + 2, max(0, m - 1), m + 10, 10 * m + 100 if m < 30 else m + 1,
                                             m + 1 + gen.big_size(rng, 1200)]))


def encode_errors(rng, tr, n):
    """documents with one or several elements that cannot be encoded"""
    for _ in range(n):
        fl = field_set(rng, rng.choice([1, 1, 2, 2, 3, 3, 5, 5, 8, 8, 12, 33]))
        sp = rand_spec(rng, fl, must_fit=rng.random() < 0.7)
        d = rand_doc(rng, sp, fl)
        for k in rng.sample(fl, min(len(fl), rng.choice([0, 1, 1, 2, 3]))):
            d[str(k)] = spoil(rng, sp[str(k)])
        c = rng.random()
        if c < 0.07:
            d.pop("t", None)
        elif c < 0.14:
            d["t"] = rng.choice(["", "020", "02000", "02\u041600", "02g0", "0 00", "020\xe9"])
        elif c < 0.21:
            d.pop("h", None)
        elif c < 0.28 and sp["h"]["max_len"] > 0:
            d["h"] = spoil(rng, sp["h"])
        elif c < 0.36:
            k = rng.choice(list(sp))
            if k not in ("h", "t", "p"):
                del sp[k]
        elif c < 0.44:
            k = rng.choice([x for x in sp if x != "65"])
            sp[k] = dict(sp[k], data_enc=rng.choice(NOCODEC))
        elif c < 0.5:
            k = rng.choice([x for x in sp if x != "65"])
            sp[k] = dict(sp[k], len_enc=rng.choice(NOLENCODEC))
        elif c < 0.56:
            k = rng.choice([str(x) for x in fl])
            sp[k] = dict(sp[k], max_len=10 ** 9, len_type=rng.choice([1, 2]))
            d[k] = value_of_size(rng, sp[k], rng.choice([9, 10, 11, 99, 100, 101, 255, 256, 300]))
        elif c < 0.62:
            d[rng.choice(["0", "193", "200", "999", "00", "02", "0" + str(fl[0]), "1000"])] = "x"
        elif c < 0.66:
            d[rng.choice([1, 2, 65, 0, None, (1,), b"2", 3.0])] = "x"
        s = single(tr, "enc", d, sp, "encode-error")
        if rng.random() < 0.2:
            s.enc(d, sp)


def decode_errors(rng, tr, n):
    """wires that cannot be decoded, of every cause"""
    done = 0
    while done < n:
        fl = field_set(rng, rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 3, 5, 5, 5, 12, 33]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl, stale=0)
        try:
            parts = build(sp, d)
        except Exception:
            continue
        for _ in range(6):
            ps = [list(p) for p in parts]
            sp2 = dict(sp)
            tail = b""
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(ps))
                k, lb, data = ps[i]
                c = rng.random()
                if c < 0.3 and lb:
                    ps[i][1] = rng.choice(prefix_candidates(sp[k], rng))
                elif c < 0.5 and data:
                    b = bytearray(data)
                    b[rng.randrange(len(b))] = rng.choice([0x80, 0xff, 0x20, 0x00, 0xc3, 0x67, 0x5f, 0x81])
                    ps[i][2] = bytes(b)
                elif k not in sp2:
                    continue
                elif c < 0.65:
                    sp2[k] = dict(sp2[k], data_enc=rng.choice(NOCODEC))
                elif c < 0.75:
                    sp2[k] = dict(sp2[k], len_enc=rng.choice(NOLENCODEC))
                elif c < 0.85 and k not in ("h", "t", "p"):
                    sp2.pop(k, None)
                elif c < 0.93 and k.isdecimal() and k != "1":
                    sp2[k] = dict(sp2[k], max_len=max(0, sp2[k]["max_len"] + rng.choice([-1, 1, -5])))
                else:
                    tail = rng.choice([b"0", b"\x00\x00", b" "])
            w = join([tuple(p) for p in ps]) + tail
            if rng.random() < 0.25:
                w = w[:rng.randrange(len(w) + 1)]
            single(tr, "dec", w, sp2, "decode-error")
            done += 1


# -- keys, headers ------------------------------------------------------------------

ODD_KEYS = ["0", "193", "194", "200", "255", "999", "1000", "65536", "123456789", "1234567890", "9" * 30, "9" * 309, "9" * 310, "9" * 400, "1" + "0" * 1000, "9" * 4300, "9" * 4301, "00", "01", "02", "002", "064",
            "0128", "192 ", " 2", "2 ", "+2", "-2", "2.0", "1e1", "\xb2", "\xbd", "\u0662", "\u0665", "\uff12", "\u0968", "\u2460",
            "\u4e8c", "1_0", "2\n", "", " ", "H", "T", "P", "h ", "bm", "x", "comment", "2a", "a2", "0x2", "None", "one", "t1",
            "\u0661\u0662\u0668", "\u216b", "\ud7fb"]
OBJ_KEYS = [1, 2, 65, 0, None, (1, 2), b"2", 3.0, True, frozenset([1])]
ODD_VALUES = ["", "x", None, 5, b"\x01", ["l"], {"a": 1}]


class StrKey(str):
    """a str subclass is a string key"""


def keys(rng, tr, n):
    """keys that are not fields, and keys that look like fields"""
    full = zero_spec(rng, "b", "b")
    for k in full:
        if k.isdecimal() and k != "1":
            full[k] = fs("ascii", "ascii", 2, 20, desc="v")
    order = list(ODD_KEYS)
    rng.shuffle(order)
    for i in range(n):
        fl = sorted({rng.choice([2, 3, 12, 64, 66, 128, 129, 192]) for _ in range(rng.choice([0, 1, 2, 3]))})
        sp = full
        if rng.random() < 0.3:
            sp = base(fs("ascii", "ascii", 0, 2), "ascii", rng.choice(["b", "ascii"]))
            for k in fl:
                sp[str(k)] = fs("ascii", "ascii", 2, 20)
        d = {"t": "0200"}
        if sp["h"]["max_len"] > 0 or rng.random() < 0.2:
            d["h"] = "HD"
        for k in fl:
            d[str(k)] = "v%d" % k
        c = rng.random()
        if c < 0.85:
            for k in [order[i % len(order)]] + ([rng.choice(ODD_KEYS)] if rng.random() < 0.3 else []):
                d[k] = rng.choice(ODD_VALUES) if rng.random() < 0.3 else "x"
        if c > 0.75:
            d[rng.choice(OBJ_KEYS)] = rng.choice(ODD_VALUES)
        if rng.random() < 0.06:     # many
            d.update({str(rng.choice([rng.randint(193, 400), rng.randint(193, 99999)])): "x" for _ in range(rng.choice([3, 6, 12, 40, 150]))})
        if rng.random() < 0.1:
            d[rng.choice(["1", "65", "p"])] = rng.choice(ODD_VALUES)
        items = list(d.items())
        rng.shuffle(items)
        d = gen.some_dict(rng, items)
        if rng.random() < 0.1:
            d = {(StrKey(k) if isinstance(k, str) and rng.random() < 0.5 else k): v for k, v in d.items()}
        s = tr.session("keys")
        _, _, r, _ = s.enc(d, sp)
        if r:
            s.dec(bytes(r[0]), sp, of=1)
    for n_ in list(range(0, 200)) + [192 + 2 ** k for k in range(10)] + rng.sample(range(200, 1030), 12) + [
            a + b for a in (256, 320, 384, 512, 1024, 65536, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64) for b in (-1, 0, 1)]:
        if rng.random() < n / 300:
            if rng.random() < 0.3:
                single(tr, "enc", {"t": "0200", "2": "x", str(n_): "v"}, full, "number-key")
            single(tr, "enc", {"t": "0200", str(n_): "v"}, full, "number-key")
            single(tr, "enc", {"t": "0200", "0%d" % n_: "v"}, full, "number-key")


def headers(rng, tr, n):
    """header configurations, present and absent values"""
    for _ in range(n):
        c = rng.random()
        if c < 0.25:
            h = fs(rng.choice(["ascii", "b", "cp500", "nope"]), rng.choice(["ascii", "b", "nope"]), rng.choice([0, 0, 2]),
                   rng.choice([0, 0, 0, -1]), rng.random() < 0.3)
        else:
            h = gen.rand_fs(rng)
            if h["max_len"] == 0:
                h["max_len"] = rng.choice([1, 2, 3, 4])
        sp = base(h, rng.choice(["ascii", "b", "cp500"]), rng.choice(["b", "ascii"]))
        fl = field_set(rng, rng.choice([0, 0, 1, 2]))
        for k in fl:
            sp[str(k)] = fs("ascii", "ascii", 2, 5)
        d = gen.some_dict(rng, [("t", "0200")])
        for k in fl:
            d[str(k)] = "abc"
        c = rng.random()
        if h["max_len"] > 0:
            if c < 0.7 and gen.fits(h):
                d["h"] = good_value(rng, h)
                if rng.random() < 0.4:
                    x = gen.encoded_size(h, d["h"])
                    d["h"] = gen.echo(rng, h, x, d["h"]) if x is not None else d["h"]
            elif c < 0.9:
                d["h"] = spoil(rng, h)
        elif c < 0.7:
            d["h"] = rng.choice(["", "HD", "\u0416", "123", None, 5, b"x"])
        chain(tr, d, sp, "header")
        # somebody else's wire
        if h["max_len"] > 0 and "h" in d and isinstance(d["h"], str):
            try:
                w = join(build(sp, d))
            except Exception:
                continue
        else:
            w = type_bytes(sp) + bitmap_bytes(sp, fl) + b"03abc" * len(fl)
            if rng.random() < 0.3:
                w = b"00" + w
        dchain(tr, w, sp, "header-wire")
        if h["max_len"] > 0:
            for cut in rng.sample(range(len(w)), min(3, len(w))):
                single(tr, "dec", w[:cut], sp, "header-cut")
            if h["len_type"]:
                i = rng.choice(prefix_candidates(h, rng)) if h["len_enc"] != "nope" else b"0" * h["len_type"]
                single(tr, "dec", i + w[h["len_type"]:], sp, "header-prefix")


# -- odd arguments ---------------------------------------------------------------------

class StrSub(str):
    pass


class IntSub(int):
    pass


def all_values(rng):
    return [None, 0, 1, -5, 12, 2.5, True, False, b"", b"1", b"12", b"\xff", bytearray(b"12"), bytearray(), [], ["a"], ["1", "2"], (), ("1", "2"), {},
            {"len": b"", "data": b""}, {"1": "2"}, set(), frozenset("12"), object(), "", "x", "\ud800", "\U0010ffff", "1" * 2000, StrSub("12"),
            StrSub("1"), StrSub(""), IntSub(12), 10 ** 30, "0" * 65536 if rng.random() < 0.02 else "0", range(3), lambda: 1, type, str, Ellipsis,
            memoryview(b"12"), array_of(b"12"), 1j, NotImplemented, float("nan"), iter("12"), collections.UserString("12"), collections.OrderedDict()]


def any_value(rng):
    return rng.choice(all_values(rng))


def value_types(rng, tr, n):
    """every kind of value as the first thing that can be wrong"""
    vals = []
    for _ in range(n):
        if not vals:
            vals = all_values(rng)
            rng.shuffle(vals)
        fl = field_set(rng, rng.choice([1, 2, 3]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl)
        on = [str(k) for k in fl] + ["t"] + (["h"] if sp["h"]["max_len"] > 0 else [])
        k = rng.choice(on)
        d[k] = vals.pop()
        if k not in "t" and rng.random() < 0.5:
            # nothing else to complain about
            sp[k] = fs(rng.choice(["ascii", "b", "cp500"]), "ascii", rng.choice([0, 2]), rng.choice([1, 2, 99]), rng.random() < 0.4, "0")
        s = tr.session("value-type")
        s.enc(d, sp)


def hostile_docs(rng, tr, n):
    """dictionaries with any keys and any values"""
    for _ in range(n):
        fl = field_set(rng, rng.choice([1, 2, 4]))
        sp = rand_spec(rng, fl, must_fit=False)
        d = rand_doc(rng, sp, fl)
        ks = list(d) + [str(rng.randint(1, 193)), "h", "t", "p", "1", "65"]
        for _ in range(rng.choice([1, 1, 2, 4])):
            c = rng.random()
            if c < 0.7:
                d[rng.choice(ks)] = any_value(rng)
            elif c < 0.85:
                d[rng.choice(ODD_KEYS)] = any_value(rng)
            else:
                d[rng.choice(OBJ_KEYS)] = any_value(rng)
        for k in list(sp):
            if k not in ("h", "t", "p") and rng.random() < 0.1:
                del sp[k]
        single(tr, "enc", d, sp, "hostile")


EXOTIC = ["undefined", "idna", "punycode", "utf-7", "unicode_escape", "raw_unicode_escape", "utf-16", "utf-32", "utf-8-sig", "utf-32-be",
          "gb18030", "shift_jis", "iso2022_jp", "big5", "euc_kr", "hz", "iso2022_kr", "a\0b", "", " ", "\ud800", "x" * 300, "rot13", "hex",
          "base64", "zip", "mbcs", "oem", "no such codec", "cp1140", "mac-roman", "ASCII ", "string_escape", "../ascii", "unicode_internal"]


def exotic(rng, tr, n):
    """codecs that fail in ways of their own, names that are no codecs"""
    for i in range(n):
        fl = field_set(rng, rng.choice([1, 2, 3]))
        sp = rand_spec(rng, fl)
        good = rand_doc(rng, sp, fl)
        ex = EXOTIC[i % len(EXOTIC)]
        k = rng.choice([str(x) for x in fl] * 2 + ["h", "t", "p", "1"])
        what = rng.choice(["data_enc", "data_enc", "len_enc"])
        if k == "h":
            sp["h"] = fs("ascii", "ascii", rng.choice([0, 1, 2]), rng.choice([2, 9]))
            good["h"] = "AB"
        if what == "len_enc" and k not in ("t", "p", "1"):
            sp[k]["len_type"] = rng.choice([1, 2, 3, 6])
        if rng.random() < 0.5:
            sp[k]["max_len"] = max(9, sp[k]["max_len"])
        try:
            w = join(build(sp, good))
        except Exception:
            w = b"0200" + bytes(8)
        sp[k][what] = ex
        s = tr.session("exotic")
        for _ in range(3):
            c = rng.random()
            if c < 0.3:
                b = bytearray(w)
                for _ in range(rng.choice([0, 1, 1, 4])):
                    if b:
                        b[rng.randrange(len(b))] = rng.choice([0, 0x1b, 0x2b, 0x2d, 0x5c, 0x7e, 0x80, 0xff, rng.randrange(256)])
                s.dec(bytes(b), sp)
            elif c < 0.4:
                s.dec(w[:rng.randrange(len(w) + 1)] + bytes(rng.randrange(256) for _ in range(rng.choice([0, 8, 40]))), sp)
            else:
                d = dict(good)
                if k not in ("p", "1"):
                    d[k] = rng.choice([d.get(k, ""), "", "x" * 70, ".", "a..b", "\ud800", "\u00e9" * 3, "\U0010ffff", "xn--\u00e9", "\\x", "+-",
                                       "a" * sp[k]["max_len"], "\u3042", "\x7e\x1b"])
                s.enc(d, sp)


def partial_specs(rng, tr, n):
    """fields, on the wire or in the dictionary, that the specification does not define"""
    for _ in range(n):
        fl = field_set(rng, rng.choice([1, 2, 3]))
        sp = rand_spec(rng, fl)
        d = rand_doc(rng, sp, fl, stale=0)
        w = join(build(sp, d))
        gone = rng.sample(fl, rng.choice([1, 1, len(fl)]))
        for k in gone:
            sp.pop(str(k), None)
        if rng.random() < 0.4:
            sp.pop("1", None)
        s = tr.session("undefined")
        s.dec(w, sp)
        s.enc(d, sp)
    for _ in range(n):
        sp = base(None, "ascii", rng.choice(["b", "ascii"]))
        if rng.random() < 0.3:
            del sp["1"]
        bits = {rng.randint(1, 64) for _ in range(rng.choice([1, 2, 64]))}
        w = b"0200" + gen.build_bitmap(sp["p"], bits, 0) + bytes(rng.choice([0, 8, 16, 30]))
        single(tr, "dec", w, sp, "undefined-wire")


def wrong_decode(rng, tr, n):
    import iso8583
    sp = base(None, "ascii", "b")
    bad = [None, "", "0200", 1, 2.5, [], [48, 50], (48,), {}, set(), memoryview(b"0200"), range(3), object(), True, iter(b"x"),
           StrSub("x"), type, b"".join, array_of(b"0200"), frozenset(), Ellipsis]
    s = tr.session("wrong-type")
    for b in bad:
        s.wrong("C10", outcome(lambda: iso8583.decode(b, sp)), type(b).__name__)


def wrong_encode(rng, tr, n):
    import collections
    import types
    import iso8583
    sp = base(None, "ascii", "b")
    bad = [None, "", "0200", b"0200", 1, 2.5, [], [("t", "0200")], (("t", "0200"),), set(), object(), True, iter([]),
           types.MappingProxyType({"t": "0200"}), collections.UserDict({"t": "0200"}), collections.ChainMap({"t": "0200"}),
           type, frozenset(), Ellipsis, {"t": 1}.items()]
    s = tr.session("wrong-type")
    for b in bad:
        s.wrong("C11", outcome(lambda: iso8583.encode(b, sp)), type(b).__name__)


def array_of(b):
    import array
    return array.array("B", b)


def outcome(f):
    try:
        f()
        return "ok"
    except Exception as e:
        return type(e).__name__
