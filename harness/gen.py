"""Generators of specifications, documents and wires, and an untrusted wire
builder (it only provides inputs; judging is done by the TLA+ specification)."""
import codecs
import collections
import encodings.aliases
import random

DIG = "0123456789"
HEXU = "0123456789ABCDEF"
HEXA = "0123456789ABCDEFabcdef"

def _known(name):
    try:
        return codecs.lookup(name).name
    except LookupError:
        return None


ALIASES = {
    "ascii": ["ascii", "us-ascii", "ASCII", "646"],
    "latin1": ["latin-1", "latin1", "iso-8859-1", "L1"],
    "cp500": ["cp500", "ebcdic-cp-be", "CP500"],
    "cp037": ["cp037", "ebcdic-cp-us"],
    "cp1252": ["cp1252", "windows-1252"],
    "koi8r": ["koi8-r", "koi8_r"],
    "cp437": ["cp437"],
    "cp273": ["cp273"],
    "utf8": ["utf-8", "UTF8"],
    "utf16be": ["utf-16-be"],
}
# everything else Python calls them
for _c, _names in ALIASES.items():
    _id = codecs.lookup(_names[0]).name
    _names += sorted(a for a in encodings.aliases.aliases if a not in _names and _known(a) == _id)
    _names += [_names[0]] * (len(_names) - 1)
COMMON = ["ascii", "ascii", "cp500", "latin1"]
SINGLE = ["ascii", "latin1", "cp500", "cp037", "cp1252", "koi8r", "cp437", "cp273"]
BYTEWIDE = SINGLE + ["utf8"]
ALLTEXT = BYTEWIDE + ["utf16be"]

_repertoire = {}


def repertoire(c):
    if c not in _repertoire:
        if c == "utf8":
            r = [chr(i) for i in list(range(0, 0x180)) + [0x3b1, 0x416, 0x5d0, 0x661, 0x7ff, 0x800, 0x966, 0x2028,
                                                         0x20ac, 0x2fff, 0x33ff]]
        elif c == "utf16be":
            r = [chr(i) for i in list(range(0, 0x180)) + [0x3b1, 0x20ac, 0x33ff, 0x10000, 0x1f600]]
        else:
            r = []
            for b in range(256):
                try:
                    r.append(bytes([b]).decode(ALIASES[c][0]))
                except UnicodeDecodeError:
                    pass
        _repertoire[c] = r
    return _repertoire[c]


def fs(de="ascii", le="ascii", lt=0, ml=0, nib=None, lp=None, rp=None, desc="Field"):
    """field specification from model codec names"""
    r = {"data_enc": ALIASES[de][0] if de in ALIASES else de,
         "len_enc": ALIASES[le][0] if le in ALIASES else le,
         "len_type": lt, "max_len": ml, "desc": desc}
    if nib is not None:
        r["len_count"] = "nibbles" if nib else "bytes"
    if lp is not None:
        r["left_pad"] = lp
    if rp is not None:
        r["right_pad"] = rp
    return r


def base(h=None, t="ascii", p="b", one=None, p_enc=None):
    """header, type, bitmaps"""
    s = {"h": h if h is not None else fs("ascii", "ascii", 0, 0),
         "t": fs(t, "ascii", 0, 2 if t == "b" else 4, desc="Message Type"),
         "p": fs(p, "ascii", 0, 8 if p == "b" else 16, desc="Bitmap, Primary")}
    o = p if one is None else one
    s["1"] = fs(o, "ascii", 0, 8 if o == "b" else 16, desc="Bitmap, Secondary")
    return s


def cap(le, lt):
    """largest number a length prefix can express"""
    if le == "b":
        return 256 ** lt - 1
    if le == "bcd":
        return 10 ** (2 * lt) - 1
    return 10 ** lt - 1


WIDE = [4, 5, 5, 6, 7, 8, 9, 10, 12, 20]   # more width than any length needs
PADS = ["0", "F", "f", "A", "9", "01", "F0", "c", "0123456789", "aF"]


def rand_fs(rng, text=None, big=False, fixed=None, allow_nib=True):
    is_bin = rng.random() < 0.4 if text is None else not text
    codec = "b" if is_bin else rng.choice(COMMON + BYTEWIDE)
    le = rng.choice(["b", "bcd", "ascii", "ascii", "cp500"] + BYTEWIDE)
    is_fixed = rng.random() < 0.3 if fixed is None else fixed
    lt = 0 if is_fixed else rng.choice([1, 1, 2, 2, 2, 3, 3, 4, rng.choice(WIDE)])
    sizes = [0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 25, 31, 32, 33, 40]
    if big:
        sizes += [99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 300, 510, 999, 1000]
    ml = rng.choice(sizes)
    nib = allow_nib and rng.random() < 0.45
    if lt and rng.random() < 0.7:
        ml = min(ml, cap(le, lt))
    lp = rp = None
    if nib or rng.random() < 0.1:
        c = rng.random()
        if c < 0.35:
            lp = rng.choice(PADS)
        elif c < 0.7:
            rp = rng.choice(PADS)
        elif c < 0.85:
            lp, rp = rng.choice(PADS), rng.choice(PADS)
        elif c < 0.9:
            lp, rp = "", rng.choice(PADS)
    f = fs(codec, le, lt, ml, nib if (nib or rng.random() < 0.3) else None, lp, rp)
    if f["data_enc"] != "b":
        f["data_enc"] = rng.choice(ALIASES[codec])
    if f["len_enc"] not in ("b", "bcd"):
        f["len_enc"] = rng.choice(ALIASES[le])
    return f


_MODEL = {a: m for m, al in ALIASES.items() for a in al}


def model_codec(name):
    return name if name in ("b", "bcd") else _MODEL.get(name, name)


def rand_text(rng, codec, n):
    """text whose encoding has exactly n bytes (codec 'utf16be': n even)"""
    style = rng.random()
    if n > 1 and codec != "utf16be" and rng.random() < 0.2:
        # a run of one character at an end, or in the middle
        c = rng.choice("\0\0  00\n\t9AaZzF'" + ("" if codec == "utf8" else "".join(rng.choice(repertoire(codec)) for _ in range(4))))
        if codec in BYTEWIDE and len(c.encode(ALIASES[codec][0], "replace")) == 1 and c in repertoire("ascii" if codec == "utf8" else codec):
            k = rng.choice([1, 2, 3, 4, 5, 8, n // 2, n - 1, n])
            k = max(1, min(k, n))
            rest = rand_text(rng, codec, n - k)
            return rng.choice([c * k + rest, rest + c * k, rest + c * k])
    if codec == "utf16be":
        return "".join(rng.choice(DIG + "AZ\u20ac") for _ in range(n // 2))
    if codec == "utf8" and style < 0.6:
        out, left = [], n
        while left > 0:
            c = rng.choice(repertoire("utf8") + list(DIG))
            w = len(c.encode("utf-8"))
            if w <= left:
                out.append(c)
                left -= w
        return "".join(out)
    if style < 0.35:
        al = DIG
    elif style < 0.5:
        al = "ABCdef 0123,'\""
    elif style < 0.6:
        al = " "
    elif style < 0.65:
        al = "\0 \t\n"
    else:
        al = repertoire("ascii" if codec == "utf8" else codec)
    return "".join(rng.choice(al) for _ in range(n))


def rand_hex(rng, n, lower=True):
    c = rng.random()
    if c < 0.2:
        al = "0"
    elif c < 0.3:
        al = "F"
    elif c < 0.4:
        al = "0F"
    elif c < 0.6:
        al = DIG
    else:
        al = HEXA if lower else HEXU
    s = "".join(rng.choice(al) for _ in range(n))
    if n > 1 and rng.random() < 0.2:
        k = max(1, min(n, rng.choice([1, 2, 3, 4, n // 2, n - 1])))
        d = rng.choice("00FF9A1")
        s = rng.choice([d * k + s[k:], s[:n - k] + d * k])
    return s


def value_of_size(rng, f, n, lower=True):
    """a value occupying n units of field f (n in its unit), or nearest possible"""
    nib = f.get("len_count") == "nibbles"
    if f["data_enc"] == "b":
        return rand_hex(rng, n if nib else 2 * n, lower)
    c = model_codec(f["data_enc"])
    return rand_text(rng, c, n // 2 if nib else n)


def size_in(rng, f):
    """a size that fits field f"""
    nib = f.get("len_count") == "nibbles"
    if f["len_type"] == 0:
        n = f["max_len"]
    else:
        top = min(f["max_len"], cap(f["len_enc"], f["len_type"]))
        n = rng.choice([0, 1, top, top, max(0, top - 1), rng.randint(0, top), rng.randint(0, top)])
        n = min(n, top)
    return n


def fits(f):
    """does any value at all fit field f at every size it may pick?"""
    nib = f.get("len_count") == "nibbles"
    if f["data_enc"] == "b":
        if nib and f["len_type"] == 0 and f["max_len"] % 2 and not (f.get("left_pad") or f.get("right_pad")):
            return False
        return True
    if nib and f["len_type"] == 0 and f["max_len"] % 2:
        return False
    if f["data_enc"] == "utf-16-be":
        return f["len_type"] > 0
    return True


def good_value(rng, f, lower=True):
    """a value that fits field f"""
    nib = f.get("len_count") == "nibbles"
    n = size_in(rng, f)
    if nib and n % 2:
        if f["data_enc"] != "b" or not (f.get("left_pad") or f.get("right_pad")):
            n -= 1 if f["len_type"] else 0
    v = value_of_size(rng, f, n, lower)
    return echo(rng, f, n, v) if rng.random() < 0.06 else v


def encoded_size(f, v):
    """size of value v in the unit of field f"""
    try:
        data = build_field(f, v)[1]
    except (ValueError, LookupError):
        return None
    if f.get("len_count") != "nibbles":
        return len(data)
    return len(v) if f["data_enc"] == "b" else 2 * len(data)


def echo(rng, f, n, v):
    """a value that begins or ends like its own length, or like other parts of a message"""
    try:
        b = rng.choice([build_len(f, n), build_len(f, n) * 2, b"0200", b"\x02\x00", bytes(8), build_len(f, n) + b"0200"])
        x = b.hex().upper() if f["data_enc"] == "b" else b.decode(f["data_enc"])
        if not x or len(x) > len(v):
            return v
        w = x + v[len(x):] if rng.random() < 0.7 else v[:-len(x)] + x
        if f["data_enc"] != "b" and len(w.encode(f["data_enc"])) != len(v.encode(f["data_enc"])):
            return v
        return w
    except (ValueError, LookupError, OverflowError):
        return v


def rand_header(rng):
    c = rng.random()
    if c < 0.4:
        return fs("ascii", "ascii", 0, 0, desc="Message Header")
    if c < 0.7:
        f = rand_fs(rng, fixed=True)
        while not fits(f) or f["max_len"] == 0:
            f = rand_fs(rng, fixed=True)
        return f
    f = rand_fs(rng, fixed=False)
    while not fits(f) or f["max_len"] == 0:
        f = rand_fs(rng, fixed=False)
    return f


BORDERS = [2, 3, 8, 9, 16, 17, 32, 33, 62, 63, 64, 66, 67, 72, 73, 96, 97, 120, 121, 127, 128, 129, 130, 136, 137,
           160, 161, 190, 191, 192]


def field_ranges(rng, limit=40):
    """each bitmap's fields on its own: none, one, a few, many, all"""
    s = set()
    for lo, hi in ((2, 64), (66, 128), (129, 192)):
        if rng.random() < 0.3:      # one byte repeated at an end of the bitmap
            c, b = rng.randint(1, 8), rng.choice([1, 1, 2, 128, 128, 255, 32, 48, 10, 9, 15, 240, 170, rng.randrange(256)])
            m = rng.choice([bytes([b] * c).ljust(8, b"\0"), bytes([b] * c).rjust(8, b"\0"),
                            bytes([b] * c).rjust(8, bytes([rng.randrange(256)]))])
            first = {2: 0, 66: 64, 129: 128}[lo]
            s.update(k for k in range(lo, hi + 1) if m[(k - first - 1) // 8] >> (7 - (k - first - 1) % 8) & 1)
            continue
        c = rng.choice([0, 0, 1, 2, 3, 8, 12, 20, 40, 64])
        pool = [k for k in range(lo, hi + 1)]
        s.update(rng.sample(pool, min(c, limit, len(pool))))
    return sorted(s)


def big_size(rng, top=70000):
    """sizes of every magnitude, more often next to powers of two and ten"""
    c = rng.random()
    if c < 0.5:
        n = rng.choice([2 ** rng.randrange(3, 17), 10 ** rng.randrange(1, 5), 100 * rng.randrange(1, 11)]) + rng.choice([-1, 0, 0, 1, 2])
    else:
        n = int(2 ** (rng.random() * 17))
    return max(0, min(n, top))


def field_set(rng, size):
    if size > 3 and rng.random() < 0.15:
        r = field_ranges(rng, 12)
        if r:
            return r
    if size > 1 and rng.random() < 0.15:        # a run
        k = rng.choice([2, 60, 66, 120, 129, rng.randint(2, 192 - size)])
        return [j for j in range(k, k + size) if j != 65]
    lo, hi = rng.choice([(2, 64), (2, 64), (2, 128), (2, 192), (60, 70), (126, 132), (66, 128), (129, 192)])
    pool = [n for n in range(lo, hi + 1) if n != 65]
    s = set()
    while len(s) < min(size, len(pool)):
        if rng.random() < 0.3:
            n = rng.choice(BORDERS)
            s.add(n)
        else:
            s.add(rng.choice(pool))
    return sorted(s)


def rand_type(rng, enc):
    if enc == "b":
        return "".join(rng.choice(HEXA if rng.random() < 0.3 else DIG) for _ in range(4))
    c = model_codec(enc)
    if rng.random() < 0.8 or c in ("utf8", "utf16be"):
        return "".join(rng.choice(DIG) for _ in range(4))
    return "".join(rng.choice(repertoire(c)) for _ in range(4))


def variant(rng, f):
    """the same field, or one that differs in an attribute or two"""
    f = dict(f)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        c = rng.random()
        if c < 0.3:
            f["data_enc"] = rng.choice(ALIASES[rng.choice(COMMON + BYTEWIDE)]) if f["data_enc"] != "b" else "b"
        elif c < 0.5:
            f["len_enc"] = rng.choice(["b", "bcd", "ascii", "cp500"])
        elif c < 0.65 and f["len_type"] > 0:
            f["len_type"] = rng.choice([1, 2, 3, 4])
        elif c < 0.75:
            f["max_len"] += rng.choice([0, 1, 2]) if f["len_type"] else 0
        elif c < 0.9 and (f.get("left_pad") or f.get("right_pad")):
            f["left_pad"], f["right_pad"] = rng.choice([("0", ""), ("", "F"), ("", "0"), ("A", ""), (f.get("right_pad", ""), f.get("left_pad", ""))])
        elif f["len_type"] and f["data_enc"] == "b":
            f["len_count"] = rng.choice(["bytes", "nibbles"])
    return f


def admits(f, v):
    """does value v fit field f?"""
    try:
        _, data = build_field(f, v)
    except (ValueError, LookupError):
        return False
    n = len(v) if f["data_enc"] == "b" else 2 * len(data)
    if f.get("len_count") != "nibbles":
        n = len(data)
    elif f["data_enc"] == "b" and n % 2 and not (f.get("left_pad") or f.get("right_pad")):
        return False
    return n == f["max_len"] if f["len_type"] == 0 else n <= min(f["max_len"], cap(f["len_enc"], f["len_type"]))


def rand_spec(rng, fields, big=False, must_fit=True, alike=None):
    bm = rng.choice(["b", "b", "ascii", "cp500", "utf8", "cp037", "latin1"])
    one = bm if rng.random() < 0.7 else rng.choice(["b", "ascii", "cp500"])
    if alike is None:
        alike = rng.random() < 0.25
    s = base(rand_header(rng), rng.choice(["b", "ascii", "ascii", "cp500", "latin1", "koi8r"]), bm, one)
    for n in fields:
        f = rand_fs(rng, big=big)
        while must_fit and not fits(f):
            f = rand_fs(rng, big=big)
        earlier = [k for k in s if k.isdecimal() and k != "1"]
        if alike and earlier and rng.random() < 0.7:
            f = variant(rng, s[rng.choice(earlier)])
            while must_fit and not fits(f):
                f = rand_fs(rng, big=big)
        f["desc"] = "Field %d" % n
        s[str(n)] = f
    if rng.random() < 0.3:  # attributes of 65 never matter
        s["65"] = rand_fs(rng)
    return unused(rng, s)


def unused(rng, s):
    """the type and the bitmaps have sizes of their own: attributes nobody reads"""
    for k in ("t", "p", "1"):
        if k in s and rng.random() < 0.25:
            f = rand_fs(rng)
            s[k] = dict(f, data_enc=s[k]["data_enc"], desc=s[k]["desc"])
    if s["h"]["max_len"] == 0 and rng.random() < 0.3:   # nothing of a header that is not expected matters
        s["h"] = dict(rand_fs(rng), max_len=0, desc=s["h"]["desc"])
    return s


def rand_doc(rng, spec, fields, stale=0.4, lower=True, alike=None):
    d = {}
    if spec["h"]["max_len"] > 0:
        d["h"] = good_value(rng, spec["h"], lower)
    elif rng.random() < 0.2:
        d["h"] = rng.choice(["ignored", "ignored", "", "x", "0000", "\u20ac"])
    d["t"] = rand_type(rng, spec["t"]["data_enc"])
    if rng.random() < stale:
        d["p"] = rng.choice(["", "FFFFFFFFFFFFFFFF", "junk", "0000000000000000"])
    if rng.random() < stale:
        d["1"] = rng.choice(["", "FFFFFFFFFFFFFFFF", "junk"])
    if rng.random() < stale / 2:
        d["65"] = rng.choice(["", "8000000000000000", "junk"])
    if alike is None:
        alike = rng.random() < 0.35
    again = [] if alike else None
    for n in fields:
        f = spec[str(n)]
        d[str(n)] = good_value(rng, f, lower)
        if again is not None:       # values met before
            same = [v for v in again if admits(f, v)] if rng.random() < 0.7 else []
            d[str(n)] = rng.choice(same or [d[str(n)]])
            again.append(d[str(n)])
    items = list(d.items())
    rng.shuffle(items)
    return some_dict(rng, items)


class Blank(dict):
    """a dictionary that answers for keys it does not have"""

    def __missing__(self, k):
        return "0200"

    def __repr__(self):
        return dict.__repr__(self)


class Buffer(bytes):
    pass


class Array(bytearray):
    pass


def some_dict(rng, items):
    """a dict; now and then of a subclass"""
    if rng.random() < 0.93:
        return dict(items)
    return rng.choice([collections.OrderedDict, Blank, lambda i: collections.defaultdict(str, i)])(items)


# ------------------------------------------------------------ wire builder


def build_len(f, n):
    if f["len_type"] == 0:
        return b""
    if f["len_enc"] == "b":
        return n.to_bytes(max(f["len_type"], (n.bit_length() + 7) // 8), "big")
    if f["len_enc"] == "bcd":
        return bytes.fromhex(str(n).rjust(2 * f["len_type"], "0")[-2 * f["len_type"]:])
    return str(n).rjust(f["len_type"], "0").encode(f["len_enc"])


def build_field(f, v):
    """-> (length bytes, data bytes)"""
    nib = f.get("len_count") == "nibbles"
    if f["data_enc"] == "b":
        x = v
        if len(v) % 2 and nib:
            lp, rp = f.get("left_pad", "")[:1], f.get("right_pad", "")[:1]
            x = lp + v if lp else v + (rp or "0")
        data = bytes.fromhex(x)
        n = len(v) if nib else len(data)
    else:
        data = v.encode(f["data_enc"])
        n = 2 * len(data) if nib else len(data)
    return build_len(f, n), data


def build_bitmap(f, nums, off):
    b = bytearray(8)
    for n in nums:
        if off < n <= off + 64:
            b[(n - off - 1) // 8] |= 1 << (7 - (n - off - 1) % 8)
    return bytes(b) if f["data_enc"] == "b" else bytes(b).hex().upper().encode(f["data_enc"])


def build(spec, doc):
    """-> list of (key, length bytes, data bytes) in wire order"""
    out = []
    if spec["h"]["max_len"] > 0:
        out.append(("h",) + build_field(spec["h"], doc["h"]))
    t = doc["t"]
    out.append(("t", b"", bytes.fromhex(t) if spec["t"]["data_enc"] == "b" else t.encode(spec["t"]["data_enc"])))
    nums = sorted(int(k) for k in doc if k.isdecimal() and k not in ("1", "65"))
    bits = set(nums)
    if any(n > 128 for n in nums):
        bits.add(65)
    if any(n > 64 for n in bits):
        bits.add(1)
    out.append(("p", b"", build_bitmap(spec["p"], bits, 0)))
    if 1 in bits:
        one = build_bitmap(spec["1"], bits, 64)
        if 65 in bits:
            one += build_bitmap(spec["1"], bits, 128)
        out.append(("1", b"", one))
    for n in nums:
        out.append((str(n),) + build_field(spec[str(n)], doc[str(n)]))
    return out


def join(parts):
    return b"".join(a + b for _, a, b in parts)
