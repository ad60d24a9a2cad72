"""Whole-library pass: every function with a body is analysed as an entry point for every caller-supplied
argument, every outcome of every allocation / file operation / callback, and every branch."""
import multiprocessing, os, time
import engine
from engine import un


# analysed in full as entry points of their own; at call sites inside other functions only their contract is used
# (any outcome, any contents for what their pointer arguments refer to)
SUMMARISED = {"sp_windowed_sinc_bp_br", "sp_render_range_file"}


class Checker(engine.Engine):
    def __init__(self, mod, opts=None):
        engine.Engine.__init__(self, mod, opts)
        self.opaque = set(SUMMARISED)

    def on_entry_return(self, f, st, rv, inst):
        seen = set()

        def mark(v):
            if v is None:
                return
            if v[0] == "agg":
                for x in v[1]:
                    mark(x)
            elif v[0] == "p":
                markoid(v[1])

        def markoid(o):
            if o in seen:
                return
            seen.add(o)
            ob = st.heap.get(o)
            if ob is None:
                return
            for c in ob.cells.values():
                mark(c[0])
            for u in ob.unk:
                markoid(u)
        mark(rv)
        for oid, o in st.heap.items():
            if o.kind in ("X", "G"):
                markoid(oid)
            if o.kind == "A" and un(oid)[0] == "X" and "sret" in f.params[un(oid)[1][2]]:
                markoid(oid)
        self.sites["ret"].add((f.name, inst.id if inst is not None else -1))
        for oid, o in st.heap.items():
            if o.kind in ("H", "F") and o.freed is None and not o.esc and oid not in seen:
                what = "file handle" if o.kind == "F" else "memory"
                self.report("leak", inst, "%s acquired in %s line %d is not released and not reachable by the caller%s" % (what, o.meta[0], o.meta[1][1], self.failtext(st)), st, extra=(o.meta[0], o.meta[1][1]))
        if st.fail and self.is_status_type(f.ret):
            self.dangling(f, st, rv, inst)
        if rv is not None and (rv[0] == "undef" or rv[0] == "agg" and rv[1][0][0] == "undef"):
            self.report("undef-ret", inst, "a path returns no value", st)
        if self.is_status_type(f.ret) and st.fail and rv[0] == "agg":
            r = self.rng(st, rv[1][0]) if rv[1][0][0] in ("i", "s", "o") else None
            if r == (0, 0):
                self.report("swallow", inst, "success is returned%s" % self.failtext(st), st, extra=(self.entry, tuple(sorted(st.fail))))

    def dangling(self, f, st, rv, inst):
        """after a failure the caller's objects do not refer to memory that was released"""
        r = self.rng(st, rv[1][0]) if rv is not None and rv[0] == "agg" and rv[1][0][0] in ("i", "s", "o") else None
        if r is None or r == (0, 0):
            return
        for oid, o in st.heap.items():
            n = un(oid)
            if o.freed is None or n[0] != "X" or n[1][0] != "s":
                continue
            l = un(n[1][1])
            if l[0] != "ld" or l[3] != 0 or isinstance(l[2], tuple):
                continue
            c = st.heap.get(l[1])
            if c is None or c.kind != "X" or c.freed is not None or c.unk or c.ver != 0 or c.alias:
                continue
            v = c.cells.get(l[2])
            if v is None or v[0] == n[1] or v[0] == ("p", oid, 0, ()):
                self.report("dangling", inst, "%s still refers to memory that was released at %s:%s%s" % (self.describe(l[1], l[2]), o.freed[0], o.freed[1], self.failtext(st)), st, extra=(o.freed,))

    def describe(self, oid, off):
        n = un(oid)
        return "the object of the caller (field at byte %s)" % off

    def failtext(self, st):
        if not st.fail:
            return ""
        return " after " + ", ".join("%s failing in %s line %d" % x for x in sorted(st.fail))


class Twice(Checker):
    """follows two iterations of the loops of the function itself before all others are covered by an arbitrary one.
    Only what became of memory and failures is reported, no sizes, which are not related to loop counters here"""
    K_ENTRY = 2
    KINDS = {"use-after-free", "double-free", "bad-free", "leak", "swallow"}
    EXCEPT = {"sp_render_range_file"}


class Protocol(Checker):
    """follows up to three iterations of every loop: what a sequence of calls registered, linked or allocated is few"""
    K = 3
    K_ENTRY = 3
    ONCE = {"vp_path", "vp_path_short"}

    def __init__(self, mod, opts=None):
        Checker.__init__(self, mod, opts)
        self.opaque = (self.opaque - {"sp_windowed_sinc_bp_br"}) | {"sp_windowed_sinc_bp_br_ir_f", "sp_windowed_sinc_lp_hp_ir_f", "sp_convolve"}

    def analyze(self, name, *a):
        self.K = self.K_ENTRY = 1 if name in self.ONCE else 3
        return Checker.analyze(self, name, *a)

    def callback_effects(self, i, s, fv, args):
        # a handler that is given a part of an object leaves what is before that part as it is
        keep = []
        for a in args:
            a = self.norm(s, a)
            if a[0] == "p" and not a[3] and a[2] > 0 and a[1] in s.heap:
                keep.append((a[1], {k: c for k, c in s.heap[a[1]].cells.items() if not isinstance(k, tuple) and k + c[1] <= a[2]}))
        r = Checker.callback_effects(self, i, s, fv, args)
        for t in r:
            for oid, cells in keep:
                o = t.wobj(oid)
                o.cells.update(cells)
        return r


_mod = None
_cls = None


def _one(name):
    e = _cls(_mod)
    t = time.time()
    err = None
    try:
        outs = e.analyze(name)
        n = len(outs)
    except engine.Budget as x:
        n = -1; err = str(x)
    except Exception as x:
        n = -1; err = "engine: %r" % (x,)
    viol = []
    for v in e.violations.values():
        viol.append({"kind": v.kind, "fn": v.fn, "file": v.file.split("/")[-1], "line": v.line, "msg": v.msg, "entry": name, "extra": repr(v.extra), "trace": [repr(t) for t in v.trace[-30:]]})
    return {"entry": name, "outs": n, "budget": err, "wall": time.time() - t, "stats": e.stats, "viol": viol, "covered": sorted(e.covered), "sites": {k: sorted(map(repr, v)) for k, v in e.sites.items()}}


def run(mod, names=None, cls=Checker, jobs=None):
    global _mod, _cls
    _mod = mod; _cls = cls
    names = list(names or mod.fns)
    size = {n: sum(len(b) for b in mod.fns[n].blocks) for n in names}
    names.sort(key=lambda n: -weight(mod, n))
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs or min(8, os.cpu_count() or 2)) as p:
        return list(p.imap_unordered(_one, names, chunksize=1))


_w = {}


def weight(mod, n, depth=0):
    if n in _w:
        return _w[n]
    _w[n] = 0
    w = 0
    for b in mod.fns[n].blocks:
        for i in b:
            w += 1
            if i.op == "call":
                c = i.d["callee"]
                if c.get("k") == "f" and c.get("n") in mod.fns:
                    w += 2 * weight(mod, c["n"], depth + 1)
    _w[n] = w
    return w
