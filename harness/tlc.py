"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """the check itself failed; never a verdict"""


def scratch(prefix="vpi-"):
    return tempfile.mkdtemp(prefix=prefix)


def run(module, cfg=None, env=None, args=(), timeout=1500, workers=8, heap="6g", spec_dir=SPEC):
    """-> stdout of TLC"""
    meta = scratch()
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-nowarning", "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(spec_dir, (cfg or module) + ".cfg"), *args, os.path.join(spec_dir, module + ".tla")]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode("utf-8", "replace")
    return r.returncode, out, time.time() - t0


def errors(out):
    """the telling lines of a failed run"""
    ls = [ln for ln in out.splitlines() if not ln.startswith(('<<"', "Parsing", "Semantic", "Linting"))]
    at = [i for i, ln in enumerate(ls) if ln.startswith(("Error", "***"))]
    return ls[at[0]:at[0] + 40] + ["..."] + ls[-15:] if at else ls[-40:]


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def counts(out):
    m = None
    for m in STATES.finditer(out):
        pass
    if not m:
        return None
    return int(m.group(1)), int(m.group(2)), int(m.group(3))


# -- values printed by PrintT, possibly over several lines ------------------

_TOK = re.compile(r'\s*(<<|>>|\{|\}|,|"(?:[^"\\]|\\.)*"|-?\d+|TRUE|FALSE)')


def parse_value(s, pos):
    m = _TOK.match(s, pos)
    if not m:
        raise Machinery("cannot read TLC output near: %r" % s[pos:pos + 80])
    t = m.group(1)
    pos = m.end()
    if t in ("<<", "{"):
        close = ">>" if t == "<<" else "}"
        out = []
        m = _TOK.match(s, pos)
        if m and m.group(1) == close:
            return out, m.end()
        while True:
            v, pos = parse_value(s, pos)
            out.append(v)
            m = _TOK.match(s, pos)
            if not m:
                raise Machinery("cannot read TLC output near: %r" % s[pos:pos + 80])
            pos = m.end()
            if m.group(1) == close:
                return out, pos
    if t[0] == '"':
        return json.loads(t), pos
    if t in ("TRUE", "FALSE"):
        return t == "TRUE", pos
    return int(t), pos


def printed(out, tag):
    """values <<tag, ...>> printed"""
    res = []
    for m in re.finditer(r'<<\s*"%s"' % tag, out):
        v, _ = parse_value(out, m.start())
        res.append(v[1:])
    return res
