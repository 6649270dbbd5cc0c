"""Calls functions of the compiled Python module on behalf of the checks.

One JSON request per line: {"f": name, "a": [args]}; one JSON answer per line:
{"ok": value} | {"err": text, "cls": exception class} | {"bad": text}
("bad" is anything but an ordinary exception).
"""
import json
import os
import resource
import sys

resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
import cosmian_abe_gpsw as m


def arg(a):
    if a is None:
        return None
    (k, v), = a.items()
    if k == "b":
        return bytes.fromhex(v)
    if k == "l":
        return list(bytes.fromhex(v))
    if k == "y":
        return bytearray.fromhex(v)
    if k in ("s", "i", "f", "o"):
        return int(v) if k == "i" else v
    if k == "u":
        return chr(0xD800 + v)
    raise ValueError(k)


def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return {"b": bytes(v).hex()}
    if isinstance(v, str):
        return {"s": v}
    if isinstance(v, int):
        return {"i": str(v)}
    if isinstance(v, tuple):
        return {"t": [enc(x) for x in v]}
    if isinstance(v, list):
        return {"b": bytes(v).hex()}
    return {"n": repr(type(v))}


# what the module prints must not mix with the answers
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
for line in sys.stdin:
    r = json.loads(line)
    try:
        ans = {"ok": enc(getattr(m, r["f"])(*[arg(a) for a in r["a"]]))}
    except Exception as e:
        ans = {"err": str(e), "cls": type(e).__name__}
    except BaseException as e:
        ans = {"bad": "%s: %s" % (type(e).__name__, e)}
    out.write(json.dumps(ans) + "\n")
    out.flush()
