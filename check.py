#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough]

Decides one property from /repo's current sources.  Exit 0: held; exit 1 with a VIOLATION line: broken;
exit 2: the analysis itself could not be carried out."""
import json, os, shutil, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True


def known_findings():
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                head, _, text = line[len("finding: "):].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1))
                out.setdefault(d["property"], {})[d["key"]] = text
    return out


def main():
    import ir, props
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    scratch = ir.scratch_dir()
    try:
        ctx = props.Context(scratch, tier, seed)
        res = props.CHECKS[pid](ctx)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings().get(pid, {})
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    new = []; old = []
    for v in res.violations:
        (old if v["key"] in known else new).append(v)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": res.coverage, "assumptions": res.assumptions, "violations": len(new), "wall_s": round(time.time() - t0, 2)}
    ev["coverage"]["reports"] = [v["text"] for v in res.violations][:40]
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]]))
    for n, v in enumerate(new):
        print("%s: %s" % (pid, v["text"]))
    if new:
        replay = os.path.join(evdir, "%s.violations.json" % pid)
        json.dump(new, open(replay, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(1)
    print("%s held: %s" % (pid, res.summary))


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("analysis error", file=sys.stderr)
        sys.exit(2)
