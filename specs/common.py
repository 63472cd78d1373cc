import re, os
REPO = os.environ.get("VC_REPO", "/repo")


def defines(path):
    out = {}
    for l in open(REPO + "/include/" + path).read().replace("\\\n", " ").split("\n"):
        m = re.match(r"#define\s+(\w+)\s+\(?(-?(?:0[xX][0-9a-fA-F]+|\d+))[uUlL]*\)?\s*(?:/|$)", l)
        if m:
            out[m.group(1)] = int(m.group(2), 0)
    return out


for _f in ("fml32.h", "atmidefs.h", "tx.h", "xa.h", "xatmi.h", "atmi.h"):
    globals().update(defines(_f))
