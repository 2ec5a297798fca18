#!/usr/bin/env -S python3 -I -S
"""A stand-in for nixd-attrset-eval: serves a JSON database over the protocol
of the workers. NIXD_FAKE_DIR holds db.json; each query is appended to
<dir>/<pid>.log. Which database a worker uses is decided by the expression it
is asked to evaluate: db["exprs"][expr] -> tree.

A tree is {"k": "set", "v": {name: tree}, ...info}; behaviours of the whole worker are in db["mode"].
"""
import json
import os
import sys
import time

D = os.environ["NIXD_FAKE_DIR"]
with open(os.path.join(D, "db.json")) as f:
    DB = json.load(f)
pid = os.getpid()
log = open(os.path.join(D, "%d.log" % pid), "a", 1)
inp, out = sys.stdin.buffer, sys.stdout.buffer


def read():
    n = None
    while True:
        l = inp.readline()
        if not l:
            return None
        l = l.strip()
        if not l:
            if n is None:
                continue
            b = inp.read(n)
            if len(b) < n:
                return None
            return json.loads(b)
        if l.lower().startswith(b"content-length:"):
            n = int(l.split(b":")[1])


def send(m):
    b = json.dumps(m, ensure_ascii=False).encode()
    out.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
    out.flush()


expr = None
tree = {}
served = 0


def at(path):
    n = tree
    for p in path:
        n = (n.get("v") or {}).get(p)
        if n is None:
            return None
    return n


def answer(m):
    global expr, tree
    meth, p = m["method"], m.get("params")
    if meth == "attrset/evalExpr":
        expr = p
        tree = DB["exprs"].get(p)
        if tree is None:
            tree = {}
            return "not an expression: %s" % p
        return None
    if meth == "attrset/attrpathInfo":
        n = at(p)
        if n is None or "info" not in n:
            raise KeyError("no such path: %s" % p)
        return n["info"]
    if meth == "attrset/attrpathComplete":
        n = at(p["Scope"])
        if n is None or "v" not in n:
            raise KeyError("no such scope: %s" % p)
        return sorted(k for k in n["v"] if k.startswith(p["Prefix"]))[:31]
    if meth == "attrset/optionInfo":
        n = at(p)
        if n is None or "option" not in n:
            raise KeyError("not an option: %s" % p)
        return n["option"]
    if meth == "attrset/optionComplete":
        n = at(p["Scope"])
        if n is None or "v" not in n:
            raise KeyError("no such scope: %s" % p)
        res = []
        for k, c in sorted(n["v"].items()):
            if k.startswith(p["Prefix"]):
                r = {"Name": k}
                if "option" in c:
                    r["Description"] = c["option"]
                res.append(r)
        return res[:31]
    raise KeyError(meth)


while True:
    m = read()
    if m is None:
        log.write("eof\n")
        break
    log.write(json.dumps([m.get("method"), m.get("params")]) + "\n")
    if m.get("method") == "exit":
        break
    if "id" not in m or "method" not in m:
        continue
    mode = (DB.get("modes") or {}).get(expr if m["method"] != "attrset/evalExpr" else m["params"]) or DB.get("mode") or {}
    # mode: {"delay": s, "die": n, "abort": n, "hang": n, "stuck": n, "junk": [n, text], "silent": [methods], "error": [methods], "raw": {method: result}}
    served += 1
    if mode.get("delay"):
        time.sleep(mode["delay"])
    if mode.get("die") is not None and served > mode["die"]:
        os._exit(1)
    if mode.get("abort") is not None and served > mode["abort"]:
        os.kill(pid, 9)
    if mode.get("hang") is not None and served > mode["hang"]:
        time.sleep(300)
    if mode.get("stuck") is not None and served > mode["stuck"]:
        out.write(b'Content-Length: 60\r\n\r\n{"jsonrpc": "2.0"')
        out.flush()
        time.sleep(300)
    if mode.get("junk") and served > mode["junk"][0]:
        out.write(mode["junk"][1].encode("latin-1"))
        out.flush()
    if m["method"] in mode.get("silent", []):
        continue
    if m["method"] in mode.get("error", []):
        send({"jsonrpc": "2.0", "id": m["id"], "error": {"code": -32000, "message": "cannot"}})
        continue
    if m["method"] in mode.get("raw", {}):
        send({"jsonrpc": "2.0", "id": m["id"], "result": mode["raw"][m["method"]]})
        continue
    try:
        send({"jsonrpc": "2.0", "id": m["id"], "result": answer(m)})
    except KeyError as e:
        send({"jsonrpc": "2.0", "id": m["id"], "error": {"code": -32001, "message": str(e)}})
    except BrokenPipeError:
        break
