"""Calls of the real library and recording of their outcomes."""
import contextlib
import io
import os
import signal
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import iso8583  # noqa: E402
import iso8583.specs  # noqa: E402
import project as pj  # noqa: E402

if not os.path.realpath(iso8583.__file__).startswith(os.path.realpath(REPO) + os.sep):
    print("machinery error: iso8583 is not imported from %s" % REPO, file=sys.stderr)
    sys.exit(2)


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang()


@contextlib.contextmanager
def limit(seconds=20):
    try:
        old = signal.signal(signal.SIGALRM, _alarm)
    except ValueError:  # not the main thread
        yield
        return
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


NOTY = {"doc": "", "enc": "", "raw": "", "dk": [], "dv": [], "ek": [], "ev": []}


def kind(e, want):
    if isinstance(e, want):
        return want.__name__ if isinstance(e, ValueError) else want.__name__ + "-no-ValueError"
    return type(e).__name__


def _blank(k):
    return {"k": k, "dk": [], "dv": [], "dx": [], "ek": [], "el": [], "ed": [], "ex": [], "raw": [],
            "f": 0, "pos": 0, "msg": "", "txt": "", "own": True, "ty": NOTY}


def msg_text(m):
    return m.encode("ascii", "backslashreplace").decode() if isinstance(m, str) else "<%s>" % type(m).__name__


def record_decode_error(e, s):
    o = _blank(kind(e, iso8583.DecodeError))
    o.update(pj.doc(getattr(e, "doc_dec", None)))
    o.update(pj.enc(getattr(e, "doc_enc", None)))
    o["raw"] = pj.octets(getattr(e, "s", None))
    o["f"] = pj.err_field(getattr(e, "field", None))
    o["pos"] = pj.num(getattr(e, "pos", None))
    o["msg"] = msg_text(getattr(e, "msg", None))
    o["txt"] = msg_text(str(e))
    o["own"] = getattr(e, "s", None) is s
    return o


def record_encode_error(e, d):
    o = _blank(kind(e, iso8583.EncodeError))
    o.update(pj.enc(getattr(e, "doc_enc", None)))
    o["f"] = pj.err_field(getattr(e, "field", None))
    o["msg"] = msg_text(getattr(e, "msg", None))
    o["txt"] = msg_text(str(e))
    o["own"] = getattr(e, "doc_dec", None) is d
    return o


def decode(s, spec):
    """-> outcome record, (doc, enc) or None, exception or None"""
    try:
        with limit():
            r = iso8583.decode(s, spec)
    except Hang:
        return _blank("Hang"), None, None
    except Exception as e:
        if isinstance(e, iso8583.DecodeError):
            return record_decode_error(e, s), None, e
        return _blank(type(e).__name__), None, e
    try:
        d, en = r
    except Exception:
        return _blank("not-a-pair"), None, None
    o = _blank("ok")
    o.update(pj.doc(d))
    o.update(pj.enc(en))
    o["ty"] = pj.types(d, en)
    return o, (d, en), None


def encode(d, spec):
    """-> outcome record, (raw, enc) or None, exception or None"""
    try:
        with limit():
            r = iso8583.encode(d, spec)
    except Hang:
        o, res, exc = _blank("Hang"), None, None
    except Exception as e:
        res, exc = None, e
        o = record_encode_error(e, d) if isinstance(e, iso8583.EncodeError) else _blank(type(e).__name__)
    else:
        try:
            raw, en = r
        except Exception:
            return _blank("not-a-pair"), None, None
        res, exc = (raw, en), None
        o = _blank("ok")
        o.update(pj.enc(en))
        o["raw"] = pj.octets(raw)
        o["ty"] = pj.types(d, en, raw)
    o.update(pj.doc(d, given=True))
    return o, res, exc


class WriteOnly:
    """a stream with nothing but write()"""
    __slots__ = ("parts",)

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def getvalue(self):
        return "".join(self.parts)


def pp(doc, spec, dw, lw, how="stream"):
    """-> {"k", "tx"}"""
    out = WriteOnly() if how == "write" else io.StringIO()
    try:
        with limit():
            if how != "write" and (dw == 30 or lw == 80):
                # what is the default need not be said
                kw = {} if dw == 30 else {"desc_width": dw}
                if lw != 80:
                    kw["line_width"] = lw
                if how == "stdout":
                    with contextlib.redirect_stdout(out):
                        iso8583.pp(doc, spec, **kw)
                else:
                    iso8583.pp(doc, spec, stream=out, **kw)
            elif how == "stdout":
                with contextlib.redirect_stdout(out):
                    iso8583.pp(doc, spec, dw, None, lw)
            else:
                iso8583.pp(doc, spec, desc_width=dw, stream=out, line_width=lw)
    except Hang:
        return {"k": "Hang", "tx": []}
    except Exception as e:
        return {"k": type(e).__name__, "tx": pj.text(out.getvalue())}
    return {"k": "ok", "tx": pj.text(out.getvalue())}
