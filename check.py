#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current tree."""
import hashlib
import importlib
import json
import os
import sys
import time

sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"]]


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv else "quick"
    t0 = time.time()
    from lintlib import kit, dump
    rule = importlib.import_module("rules." + pid.lower())
    c = kit.Check(pid, tier)
    try:
        rule.check(c)
    except kit.Missing as ex:
        c.obl.append(dict(obligation="anchors", status="violated", detail="anchor missing: %s" % ex))
    except kit.Violated as ex:
        c.obl.append(dict(obligation="anchors", status="violated", detail=str(ex)))
    except (Exception, kit.OutOfResources) as ex:
        import traceback
        c.obl.append(dict(obligation="rule", status="undecided", detail="internal: %s\n%s" % (ex, traceback.format_exc()[-1500:])))
    if not c.obl:
        c.obl.append(dict(obligation="coverage", status="violated", detail="no obligation was generated"))
    known = {e["obligation"]: e for e in known_findings() if e["property"] == pid}
    bad, und, kn = [], [], []
    for o in c.obl:
        if o["status"] == "violated":
            k = known.get(o["obligation"])
            if k is not None and all(s in (o["detail"] or "") for s in k.get("detail_contains", [])):
                kn.append((o, k))
                o["status"] = "known-finding"
            else:
                bad.append(o)
        elif o["status"] == "undecided":
            und.append(o)
    held = sum(1 for o in c.obl if o["status"] == "held")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": rule.__doc__.strip(),
            "obligations": len(c.obl), "discharged": held, "undecided": len(und), "known_findings": len(kn),
            "functions_analysed": len(c.functions),
            "counts": c.counts,
            "rules": [dict((k, v) for k, v in o.items() if v is not None) for o in c.obl],
            "functions": sorted(c.functions),
            "tree": dump.tree_hash(),
            "notes": c.notes,
        },
        "assumptions": getattr(rule, "ASSUMES", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for o, k in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if "-v" in argv:
        for o in c.obl:
            print("%-10s %-60s %s %s" % (o["status"], o["obligation"], o["s"] if "s" in o else "", " ".join((o.get("detail") or "").split())[-420:] if o["status"] == "undecided" else (o.get("detail") or "")[:700]))
    print("%s: %d obligations, %d held, %d undecided, %d known, %d violated; %d functions analysed; %.1fs" %
          (pid, len(c.obl), held, len(und), len(kn), len(bad), len(c.functions), time.time() - t0))
    if bad:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, pid + ".txt")
        with open(p, "w") as f:
            for o in bad:
                f.write("property: %s\nrule: %s\nwhere: %s\n%s\n\n" % (pid, o["obligation"], o.get("where"), o["detail"]))
            f.write("replay: cd %s && ./check.py %s -v\n" % (HERE, pid))
        for o in bad[:12]:
            print("  %s: %s %s" % (o["obligation"], o["detail"][:700], "[%s]" % o["where"] if o.get("where") else ""))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0


LIMIT_OB, LIMIT_ALL, LIMIT_MEM = 200, 720, 14 << 30


def resident():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def guard(th, t0):
    """end an obligation that takes too long or too much memory; it stays undecided"""
    import ctypes
    from lintlib import kit
    hit = None
    while th.is_alive():
        th.join(0.5)
        now = time.time()
        if now - t0 > LIMIT_ALL:
            kit.STOP[0] = "out of time"
        elif resident() > LIMIT_MEM:
            kit.STOP[0] = "out of memory"
        cur = kit.CURRENT[0]
        if cur is not None and cur != hit and (kit.STOP[0] or now - cur > LIMIT_OB):
            hit = cur
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(th.ident), ctypes.py_object(kit.OutOfResources))


if __name__ == "__main__":
    if "PYTHONHASHSEED" not in os.environ:
        # the same order of every set in every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    rc = [2]
    start = time.time()

    def run():
        rc[0] = main(sys.argv[1:])
    th = threading.Thread(target=run)
    th.start()
    guard(th, start)
    sys.stdout.flush()
    sys.exit(rc[0])
