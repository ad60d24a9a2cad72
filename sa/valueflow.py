"""Decides reference specifications for groups of functions in parallel."""
import multiprocessing, os, signal, time, traceback
import spec

MOD = None
JOBS = None


class Timeout(Exception):
    pass


def alarm(*a):
    raise Timeout()


def work(n):
    fn, specf, opts = JOBS[n]
    V = spec.Verdict(fn)
    t = time.time()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(opts["limit"])
    err = None
    try:
        V = spec.check_fn(MOD, fn, specf, samples=opts["samples"], seed=opts["seed"], engine=opts.get("engine", spec.FunEngine), opts=None, verdict=V)
    except Timeout:
        err = "time limit"
    except Exception as x:
        err = "%s: %s" % (type(x).__name__, x)
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    bad = []
    seen = set()
    for key, inst, text in V.bad:
        if key in seen:
            continue
        seen.add(key)
        loc = inst.loc if inst is not None else None
        bad.append((key, "%s:%d" % loc if loc else MOD.fns[fn].name, inst.fn.name if inst is not None else fn, text))
    return dict(fn=fn, bad=bad, obligations=V.obligations, decided=V.decided, undecided=V.undecided, samples=V.samples, accesses=V.accesses, obs=getattr(V, "obs", 0), why=V.why, err=err, t=time.time() - t)


def run(mod, jobs, samples=24, seed=1, limit=240):
    """jobs: [(function, specification, options)]; -> list of results"""
    global MOD, JOBS
    MOD = mod
    JOBS = []
    for fn, specf, o in jobs:
        d = dict(samples=samples, seed=seed, limit=limit)
        d["samples"] = max(4, int(d["samples"] * o.get("scale", 1)))
        d.update({k: v for k, v in o.items() if k != "scale"})
        JOBS.append((fn, specf, d))
    order = sorted(range(len(JOBS)), key=lambda i: -JOBS[i][2].get("weight", 1))
    mod.entry_infos() if hasattr(mod, "entry_infos") else None
    with multiprocessing.get_context("fork").Pool(min(8, max(1, len(JOBS)))) as p:
        res = list(p.imap_unordered(work, order))
    return sorted(res, key=lambda r: r["fn"])
