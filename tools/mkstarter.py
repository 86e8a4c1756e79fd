"""Write spec/Starter.tla: the starter specifications as documented in the
docstring of iso8583/specs.py at the pinned commit (frozen; never regenerated
by a check)."""
import ast, os, re, sys

src = open("/repo/iso8583/specs.py").read()
doc = ast.get_docstring(ast.parse(src), clean=False)
out = []
for name in ("default", "default_ascii"):
    m = re.search(r"^    %s = (\{.*?^    \})" % name, doc, re.S | re.M)
    tab = ast.literal_eval(m.group(1).strip())
    key = {"h": -3, "t": -2, "p": -1}
    rows = []
    for k in sorted(tab, key=lambda k: key.get(k) if k in key else int(k)):
        f = tab[k]
        rows.append('  (%s :> Row("%s", "%s", %d, %d))' % (
            key.get(k, k), f["data_enc"], f["len_enc"], f["len_type"], f["max_len"]))
    out.append("Starter_%s ==\n" % name + " @@\n".join(rows))
text = """------------------------------ MODULE Starter ------------------------------
(* The two starter specifications as documented (docstring of             *)
(* iso8583.specs).  Written once by tools/mkstarter.py; descriptions are    *)
(* left out.  Keys: -3 header, -2 message type, -1 primary bitmap.          *)
EXTENDS Integers, TLC

Row(de, le, lt, ml) == [de |-> de, le |-> le, lt |-> lt, ml |-> ml,
                        nib |-> FALSE, lp |-> <<>>, rp |-> <<>>]

%s

Starter(name) == IF name = "default" THEN Starter_default ELSE Starter_default_ascii
=============================================================================
""" % "\n\n".join(out)
open(os.path.join(os.path.dirname(__file__), "..", "spec", "Starter.tla"), "w").write(text)
