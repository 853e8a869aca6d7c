#!/usr/bin/env python3
"""check.py ID              decides property ID for /repo's working tree (tier: VERIF_TIER)
   check.py ID --replay F   runs one reported violation again
   check.py --setup         builds the drivers
   check.py --list          what runs for each property"""
import concurrent.futures as cf, functools, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import gen
from harness import *
from plan import PLAN


def cfg_of(consts, invs, graph=False, props="", extra=""):
    t = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    if consts:
        t += "CONSTANTS\n" + "".join("  %s\n" % c for c in consts.split())
    if invs:
        t += "INVARIANTS %s\n" % invs
    if props:
        t += "PROPERTIES %s\n" % props
    return t + extra


def run_item(c, it, mask, workers):
    if c.nbad >= 40:
        return
    mask = it.get("mask", mask)
    exe = build(it.get("exe", "asan"))
    iso, to = it.get("isolate", False), it.get("timeout", 10)
    if "model" in it:
        extra = "VIEW View\nACTION_CONSTRAINT EmitT\n" if it.get("view") else ""
        if it.get("constraint"):
            extra += "CONSTRAINT Constraint\n"
        c.model(it["model"], cfg_of(it.get("consts", ""), it["invs"], props=it.get("props", ""), extra=extra), mask,
                replay=not it.get("pure"), exe=exe, isolate=iso, timeout=to, label=it.get("consts", ""), workers=workers)
    elif "control" in it:   # a variant of the model in which the property must fail
        negative_control(c, it["control"], cfg_of(it["consts"], it["invs"]), it["consts"])
    elif "sweep" in it:
        sweep(c, it["sweep"], mask)
    else:
        f = getattr(gen, it["gen"])
        rng = random.Random("%s/%s/%s/%s" % (c.pid, it["gen"], json.dumps(it.get("kw", {}), sort_keys=True), SEED))
        n = it["n"]
        while n > 0:
            k = min(n, 1500)
            c.conform([f(rng, **it.get("kw", {})) for _ in range(k)], mask, exe=exe, isolate=iso, timeout=to,
                      label=it["gen"] + (" %s" % it["kw"] if it.get("kw") else ""), workers=workers)
            n -= k
            if c.nbad >= 40:
                break


def negative_control(c, module, cfg, label):
    try:
        tlc(module, cfg, want_prints=False)
    except Broken as e:
        if "the specification itself fails" in str(e):
            with c.lock:
                c.models.append({"module": module, "label": label, "negative_control": str(e).splitlines()[0]})
            log("negative control %s: %s" % (module, str(e).splitlines()[0][:120]))
            return
        raise
    raise Broken("negative control %s passed" % module)


def sweep(c, step, mask):
    """Every supported rule at every step-th count up to 2^31-1 (against n mod 100, which
    PluralMC!Sound proves to be what the rule's expression depends on)."""
    exe = build("fast")
    items = []
    for r in gen.rules():
        for lo in range(0, 2**31, 2**31 // 8):
            items.append(["pf 1 " + X("Plural-Forms: " + r), "psweep 1 %d %d %d" % (max(lo, 100), lo + 2**31 // 8 - 1, step)])
    c.conform(items, mask, exe=exe, timeout=800, label="sweep step %d" % step)


def replay(pid, path):
    v = json.load(open(path))
    c = Check(pid)
    exe = build("tsan" if any(e.get("op") == "thr" for e in v.get("events", [])) or any(l.startswith("thr") for l in v.get("script", [])) else "asan")
    if v["kind"] == "behaviour":
        c._found([(v["events"], [0, "the recorded one"], v.get("before", []))], exe, v["mask"], True, v.get("module"))
    else:
        c._again(v["script"], v["mask"], exe, not v.get("before"), v.get("before", []))
    return 1 if c.violations else 0


def main():
    if sys.argv[1] == "--setup":
        for v in VARIANTS:
            build(v)
        return 0
    if sys.argv[1] == "--list":
        for p in sorted(PLAN):
            print(p, PLAN[p]["mask"], *("\n    %s %s" % (t, i) for t in ("quick", "thorough") for i in PLAN[p][t]))
        return 0
    pid = sys.argv[1]
    if "--replay" in sys.argv:
        return replay(pid, sys.argv[sys.argv.index("--replay") + 1])
    p = PLAN[pid]
    c = Check(pid)
    items = p["thorough" if THOROUGH else "quick"]
    par = min(len(items), 3)
    for v in sorted({i.get("exe", "asan") for i in items}):
        build(v)
    with cf.ThreadPoolExecutor(par) as ex:
        futs = [ex.submit(run_item, c, i, p["mask"], max(2, NCPU // par)) for i in items]
        err = None
        for f in futs:
            try:
                f.result()
            except Broken as e:
                err = err or e
    if err and not c.violations:
        raise err
    known(pid)
    return c.finish(p.get("assume", []))


def known(pid):
    """Open findings (there are none at present) are listed as such."""
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for l in open(f):
        if l.startswith("open: property=%s " % pid):
            print("KNOWN-FINDING: " + l[len("open: "):].strip())


if __name__ == "__main__":
    try:
        rc = main()
    except Broken as e:
        print("# BROKEN:", e, flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
