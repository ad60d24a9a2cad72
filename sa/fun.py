"""Value-flow summaries of library functions.

FunEngine records, for one entry function, every store, load, copy, callback, internal call and return with its address
and value as terms over the function's inputs, the iteration counters of the enclosing loops, and a gated path condition.
Loops contribute one distinguished and one arbitrary iteration, so a recorded store stands for all iterations.
Eval decides equalities between these terms and a reference term by random interpretation (Gulwani & Necula 2004): inputs
and counters get random values and both sides are evaluated.  A difference is only reported when the path condition,
the address and the value are all resolved; whatever the domain can not resolve is counted as undecided."""
import math, random
import engine
from engine import un, intern, sym, op, width, signed, I0, UNDEF

M32 = (1 << 32) - 1


def i_type(v):
    return "i%d" % (v[2] if v[0] in ("s", "o") else 64)


def inside(c, ctx):
    """context c lies within loop context ctx"""
    while isinstance(c, int):
        if c == ctx:
            return True
        n = un(c)
        if not isinstance(n, tuple) or n[0] not in ("it", "call", "run"):
            return False
        c = n[1]
    return False


class Obs:
    __slots__ = ("kind", "inst", "p", "v", "size", "pc", "chain", "fail", "seq", "extra", "t", "ctx")

    def __repr__(self):
        return "<%s %s:%s>" % (self.kind, self.inst.fn.name if self.inst else "?", self.inst.loc[1] if self.inst else 0)


class FunEngine(engine.Engine):
    collapse = False
    VERCAP = 1 << 20
    MAXDEPTH = 80
    L1 = 24
    L2 = 24
    CALLS = ()          # internal functions to report as calls
    SAME = None         # (parameter, the parameter it is equal to)

    def default_params(self, f, st):
        args = engine.Engine.default_params(self, f, st)
        if self.SAME and f.name == self.entry:
            n = [p["name"] for p in f.params]
            args[n.index(self.SAME[0])] = args[n.index(self.SAME[1])]
        return args

    def __init__(self, mod, opts=None):
        engine.Engine.__init__(self, mod, opts)
        self.obs = []
        self.pcs = [None]            # path condition nodes
        self.pcix = {}
        self.joins = {}
        self.wid = {}                # widened symbol -> [(pc, initial value)]
        self.backs = {}              # ctx -> [(pc, {symbol name: value})]
        self.loadinfo = {}
        self.symtype = {}
        self.chain = ()
        self.marks = []
        self.seq = 0
        self.inmem = 0
        self.externs = {}            # (function, call) -> external function called
        self.quiet = 0
        self.zero_oids = set()
        self.pcctx = {}
        self.nruns = {}
        self.movcache = {}
        self.loopsof = {}
        self.outsites = {}

    # ---- path conditions
    def pc_and(self, parent, cond, val):
        k = (parent, cond, val)
        n = self.pcix.get(k)
        if n is None:
            n = self.pcix[k] = len(self.pcs); self.pcs.append(("and", parent, cond, val))
        return n

    def join_extra(self, x, y):
        if x == y:
            return x
        if x == 0 or y == 0:
            return 0
        k = ("or", min(x, y), max(x, y))
        n = self.pcix.get(k)
        if n is None:
            n = self.pcix[k] = len(self.pcs); self.pcs.append(k)
        return n

    def assume(self, st, b, val):
        d = self.decide(st, b)
        if d is not None and d == val:
            return True
        r = engine.Engine.assume(self, st, b, val)
        if r and not self.quiet:
            st.extra = self.pc_and(st.extra, b, val)
        return r

    def deref(self, st, v, inst, what="access"):
        if v[0] in ("s", "o"):
            c = self.mk_eq(v, I0)
            if c[0] == "b" and self.rng(st, v)[0] == 0:
                st.extra = self.pc_and(st.extra, c, False)
        return engine.Engine.deref(self, st, v, inst, what)

    def join_sym(self, pa, pb, where, x, y, w):
        r = sym(("join", self.ctx, where, x, y, pa, pb), w)
        self.joins[r] = (pa, x, pb, y)
        return r

    def statekey(self, s):
        return (frozenset(s.env.items()), tuple(frozenset(e.items()) for e, _ in s.stack), frozenset((o, x.key()) for o, x in s.heap.items()), s.fail)

    def signature(self, s):
        g = engine.Engine.signature(self, s)
        return g[:3] + (s.fail,)

    def dedup(self, states):
        return [s for s, _, _ in self.merge([(s, None, None) for s in states])]

    def merge(self, outs):
        if len(outs) <= 1:
            return outs
        seen = {}
        for s, rv, i in outs:
            k = (self.statekey(s), rv)
            if k in seen:
                if seen[k][0] is not s:
                    self.join_facts(seen[k][0], s)
            else:
                seen[k] = (s, rv, i)
        outs = list(seen.values())
        if len(outs) > self.L1:
            groups = {}
            for s, rv, i in outs:
                groups.setdefault((self.signature(s), self.retsig(rv)), []).append((s, rv, i))
            res = []
            for g in groups.values():
                s, rv, i = g[0]
                for o in g[1:]:
                    s, rv = self.join_states(s, o[0], rv, o[1])
                res.append((s, rv, i))
            outs = res
        return outs

    def retsig(self, rv):
        return None if rv is None else self.sigval(rv)

    def merge_rets(self, outs):
        for s, rv, i in outs:
            self.gc(s, rv)
        return self.merge(outs)

    # ---- loops
    def run_loop(self, f, loop, states, rets):
        # a loop is run once for each group of states that reaches it: the records of the runs are kept apart
        saved = self.chain
        self.seq += 1
        start = self.seq
        self.marks.append([len(self.obs), saved, start, start])
        outer = self.ctx
        n = self.nruns.get((outer, f.name, loop.header), 0)
        self.nruns[outer, f.name, loop.header] = n + 1
        if n:
            self.ctx = intern(("run", outer, n))
        try:
            return engine.Engine.run_loop(self, f, loop, states, rets)
        finally:
            self.marks.pop(); self.chain = saved; self.ctx = outer

    def on_iteration(self, f, loop, it):
        m, saved, start, _ = self.marks[-1]
        self.chain = saved + ((start, it, None),)

    def on_round(self, f, loop, rnd):
        mk = self.marks[-1]
        m, saved, start, sq = mk
        if rnd == 0:
            mk[0] = len(self.obs); self.seq += 1; mk[3] = self.seq
        else:
            # the previous round did not cover all changes: forget what it recorded
            del self.obs[m:]
            for k, q in list(self.loadinfo.items()):
                q[:] = [x for x in q if x[4] < m]
            for d in (self.backs, self.wid):
                for runs in d.values():
                    for r in [r for r in runs if r > sq]:
                        del runs[r]
        for r in [r for r in self.nruns if inside(r[0], self.ctx)]:
            del self.nruns[r]
        self.backs.setdefault(self.ctx, {}).pop(start, None)
        self.wid.setdefault(self.ctx, {})[start] = {}
        self.chain = saved + ((start, 1 << 40, self.ctx),)

    def moving(self, oid):
        """another object in each iteration of the current loop"""
        n = un(oid)
        if n[0] != "X" or n[1][0] not in ("s", "o"):
            return False
        k = (oid, self.ctx)
        r = self.movcache.get(k)
        if r is None:
            r = self.movcache[k] = self.depends(n[1], self.ctx, set())
        return r

    def depends(self, v, ctx, seen):
        """the term mentions a symbol of the loop context"""
        if v in seen:
            return False
        seen.add(v)
        k = v[0]
        if k == "p":
            return self.dep_obj(v[1], ctx, seen) or any(self.depends(x[1], ctx, seen) for x in v[3])
        if k not in ("s", "o", "b") or not isinstance(v[1], int):
            return False
        n = un(v[1])
        if not isinstance(n, tuple):
            return False
        if k == "s":
            if n[0] in ("ld", "wk"):
                off = n[2]
                return self.dep_obj(n[1], ctx, seen) or isinstance(off, tuple) and isinstance(off[1], tuple) and any(self.depends(x[1], ctx, seen) for x in off[1] if isinstance(x, tuple))
            return len(n) > 1 and isinstance(n[1], int) and inside(n[1], ctx)
        if n[0] == "lin":
            return any(self.depends(t, ctx, seen) for _, t in n[3])
        return any(self.depends(x, ctx, seen) for x in n[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))

    def dep_obj(self, oid, ctx, seen):
        n = un(oid)
        if n[0] == "X":
            return n[1][0] in ("s", "o", "p") and self.depends(n[1], ctx, seen)
        return n[0] in ("H", "A") and inside(n[1] if isinstance(n[1], int) else n[2], ctx)

    def on_widened(self, f, loop, before, after):
        w = self.wid[self.ctx][self.marks[-1][2]]
        for i in f.blocks[loop.header]:
            if i.op != "phi":
                break
            nv = after.env.get(i.id); ov = before.env.get(i.id)
            if nv is not None and nv != ov:
                w.setdefault(nv, []).append((before.extra, ov, ("phi", i.id)))
        for oid, o in after.heap.items():
            b = before.heap.get(oid)
            if b is None or b is o:
                continue
            for k, c in o.cells.items():
                oc = b.cells.get(k)
                if oc is None and not isinstance(k, tuple) and c[0][0] == "s" and un(c[0][1])[0] == "wcell":
                    oc = (self.default_value(before, oid, b, k, c[1], "i%d" % (8 * c[1])), c[1])
                if oc is not None and oc[0] != c[0]:
                    w.setdefault(c[0], []).append((before.extra, oc[0], ("cell", oid, k)))
        n = len(self.pcs)
        k = ("loop", self.ctx, after.extra, self.marks[-1][2])
        if k not in self.pcix:
            self.pcix[k] = n; self.pcs.append(k)
        after.extra = self.pcix[k]
        return after

    def on_widened_back(self, f, loop, back):
        out = []
        start = self.marks[-1][2]
        for s in back:
            d = {}
            for nv, l in self.wid[self.ctx][start].items():
                for _, _, where in l:
                    if where[0] == "phi":
                        d[nv] = s.env.get(where[1])
                    else:
                        o = s.heap.get(where[1]); c = o.cells.get(where[2]) if o is not None else None
                        d[nv] = c[0] if c else ("mem", where[1], where[2], self.chain)
            out.append((s.extra, d, s.fail))
        self.backs.setdefault(self.ctx, {})[start] = out

    def all_backs(self, ctx):
        return [x for r in self.backs.get(ctx, {}).values() for x in r]

    def all_wid(self, ctx, v):
        return [x for r in self.wid.get(ctx, {}).values() for x in r.get(v, ())]

    # ---- observations
    def record(self, kind, s, inst, p=None, v=None, size=0, extra=None, t=None):
        o = Obs()
        self.seq += 1
        o.kind = kind; o.inst = inst; o.p = p; o.v = v; o.size = size; o.pc = s.extra; o.chain = self.chain; o.fail = s.fail; o.seq = self.seq; o.extra = extra; o.t = t; o.ctx = self.ctx
        self.obs.append(o)
        return o

    def on_load(self, s, i, p, v, size):
        v = self.loaded(s, i, p, v, size)
        self.record("load", s, i, p, v, size, t=i.t)
        return v

    def loaded(self, s, i, p, v, size):
        if v[0] == "s":
            n = un(v[1])
            if n[0] in ("ld", "wk"):
                self.symtype.setdefault(v, i.t)
                self.seq += 1
                l = self.loadinfo.setdefault(v, [])
                if not any(q[6] == s.extra and q[0] == self.chain for q in l):
                    l.append((self.chain, self.seq, p, size, len(self.obs), i.t, s.extra))
        return v

    def on_store(self, s, i, p, v, size):
        self.record("store", s, i, p, v, size, t=i.d.get("vt"))

    def on_memwrite(self, s, i, dst, n, src):
        self.record("copy" if src is not None else "set", s, i, dst, src, n, extra=self.setval if src is None else None)

    def on_move(self, s, i, new, n, old):
        self.record("move", s, i, new, old, n)

    def read_content(self, s, i, p, size, n, tot):
        t = ("i", tot) if tot is not None else self.norm(s, self.binop(s, "mul", size, n, "i64", i))
        self.on_memwrite(s, i, p, t, None)
        self.inmem += 1
        try:
            o = self.havoc_range(s, p, tot, i)
        finally:
            self.inmem -= 1
        self.record("move", s, i, p, ("p", intern(("X", ("fread", self.ctx, i.id))), 0, ()), t)
        return o

    setval = None

    def memset_model(self, i, s, args):
        self.setval = self.norm(s, args[1])
        self.inmem += 1
        try:
            return engine.Engine.memset_model(self, i, s, args)
        finally:
            self.inmem -= 1

    def memcpy_model(self, i, s, args):
        self.inmem += 1
        try:
            return engine.Engine.memcpy_model(self, i, s, args)
        finally:
            self.inmem -= 1

    def havoc_range(self, st, dst, n, inst, src=None):
        if not self.inmem:
            self.record("havoc", st, inst, dst, None, ("i", n) if n is not None and not dst[3] else None)
        return engine.Engine.havoc_range(self, st, dst, n, inst, src)

    def havoc_obj(self, st, oid, tag):
        o = self.obj(st, oid)
        if not (o.kind == "G" and o.default == "const"):
            self.record("havoc", st, tag if hasattr(tag, "fn") else None, ("p", oid, 0, ()), None, None)
        return engine.Engine.havoc_obj(self, st, oid, tag)

    def on_recursion(self, s, i):
        self.record("recursion", s, i, None, None, 0)

    def on_callback(self, s, i, fnv, args):
        self.externs[(i.fn.name, i.id)] = fnv[1] if fnv[0] == "fn" else "callback"
        self.record("callback", s, i, None, fnv, 0, extra=[self.norm(s, a) for a in args])
        self.on_call_args(s, i, fnv, args)

    def initial_fork(self, s, i, p, v):
        return None

    def on_call_args(self, s, i, fnv, args):
        pass

    NOFAIL = False       # only follow the paths on which every operation succeeds

    def call(self, f, i, s):
        n = s.fail
        r = engine.Engine.call(self, f, i, s)
        return [x for x in r if x.fail == n] if self.NOFAIL else r

    PURECB = False       # callbacks leave the objects they are given as they are

    def callback_effects(self, i, s, fv, args):
        if not self.PURECB:
            return engine.Engine.callback_effects(self, i, s, fv, args)
        r = engine.Engine.callback_effects(self, i, s, fv, [])
        name = fv[1] if fv[0] == "fn" else "callback"
        for n, size, *at in self.WRITES.get(name, ()):
            p = self.norm(s, args[n])
            if at:
                if p[0] != "p":
                    continue
                p = ("p", p[1], p[2] + at[0], p[3])
            self.written_by_call(i, s, p, size, args, name, n)
        return r

    WRITES = {}          # called function -> [(argument, bytes or (argument with the number, bytes of one))]: memory it sets

    def written_by_call(self, i, s, p, size, args, name, n):
        if p[0] in ("s", "o") and self.rng(s, p)[1] > 0:
            p = self.deref(s, p, i, "write") or p
        if p[0] != "p":
            return
        self.outsites.setdefault(name, {})[i.id] = i.loc
        oid = intern(("X", ("fread", self.ctx, (name, n, i.id))))
        t = ("i", size) if isinstance(size, int) else self.norm(s, self.binop(s, "mul", self.ext64(s, self.norm(s, args[size[0]])), ("i", size[1]), "i64", i))
        self.record("set", s, i, p, None, t, extra=None)
        self.inmem += 1
        try:
            o = self.havoc_range(s, p, size if isinstance(size, int) else None, i)
        finally:
            self.inmem -= 1
        self.record("move", s, i, p, ("p", oid, 0, ()), t)
        s.heap.setdefault(oid, engine.Obj("X", "ext"))
        if o is not None and o.default == "undef" and isinstance(size, int):
            o.alias = ((p[2], size, oid, 0, 0),) + o.alias
            o.ver = max(0, o.ver - 1)

    def ext64(self, s, v):
        return v if v[0] == "i" or width(i_type(v)) == 64 else self.cast(s, "zext", v, i_type(v), "i64")

    def on_internal_call(self, s, i, g, args):
        if g.name in self.CALLS:
            self.record("call", s, i, None, ("fn", g.name), 0, extra=[self.norm(s, a) for a in args])

    def on_extern(self, s, i, name, args):
        self.externs[(i.fn.name, i.id)] = name
        self.record("extern", s, i, None, ("fn", name), 0, extra=[self.norm(s, a) for a in args])

    def on_alloc(self, s, i, oid, kind):
        if s.heap[oid].default == "zero":
            self.zero_oids.add(oid)
        self.record("alloc", s, i, ("p", oid, 0, ()), None, s.heap[oid].size)

    def on_free(self, s, i, oid):
        self.record("free", s, i, ("p", oid, 0, ()))

    def on_entry_return(self, f, st, rv, inst):
        self.chain = ()
        o = self.record("return", st, inst, None, rv)
        o.extra = st

    def analyze(self, name, setup=None):
        self.depmemo = {}; self.written = None; self.first = {}
        def s2(eng, f, st, args):
            st.extra = 0
            if setup:
                setup(eng, f, st, args)
        return engine.Engine.analyze(self, name, s2)

    consts = None

    def reach(self):
        """largest iteration count worth instantiating: nested loops multiply"""
        d = max([sum(1 for c in o.chain if c[2] is not None) for o in self.obs] + [0])
        return {0: 1 << 20, 1: 70, 2: 36}.get(d, 4)

    def constants(self):
        """constants the summary compares with, and their neighbours"""
        if self.consts is None:
            ints = set(); reals = set()
            seen = set()

            def look(v):
                if not isinstance(v, tuple) or v in seen or len(seen) > 20000:
                    return
                seen.add(v)
                if v[0] == "b" or v[0] in ("o", "s") and isinstance(v[1], int):
                    a = un(v[1])
                    if isinstance(a, tuple):
                        for x in a:
                            if isinstance(x, tuple):
                                look(x)
                        if a and a[0] == "lin" or v[0] == "o":
                            for x in a[2:]:
                                if isinstance(x, tuple) and x and isinstance(x[0], tuple):
                                    for y in x:
                                        if isinstance(y, tuple) and len(y) == 2:
                                            look(y[1])
                        if a and a[0] in ("eq", "ult", "slt", "fcmp"):
                            for x in a[1:]:
                                if isinstance(x, tuple):
                                    num(x)
                        if a and a[0] == "lin" and isinstance(a[2], int):
                            w = v[2]; c = a[2] % (1 << w); ints.add(c); ints.add(-c % (1 << w))
                elif v[0] == "i":
                    pass

            def num(x):
                if x[0] == "i":
                    for d in (-1, 0, 1):
                        if 0 <= x[1] + d:
                            ints.add(x[1] + d)
                elif x[0] == "f":
                    try:
                        f = float(x[1]) if not x[1].startswith("0x") else float.fromhex(x[1])
                    except ValueError:
                        return
                    reals.add(f)
            for q in self.pcs:
                if q and q[0] == "and":
                    look(q[2])
            for o in self.obs:
                if o.v is not None and isinstance(o.v, tuple):
                    look(o.v)
            self.consts = (sorted(x for x in ints if x < 1 << 33), sorted(x for x in reals if abs(x) < 1e9))
        return self.consts

    # small-loop probing must not leave observations behind
    def small_loop(self, f, loop, s):
        n = len(self.obs)
        try:
            return engine.Engine.small_loop(self, f, loop, s)
        finally:
            del self.obs[n:]


LATER = "later"


class Budget(Exception):
    """the sample takes too many steps"""


class Unresolved(Exception):
    pass


class Uninit(Unresolved):
    """the contents are those of new memory that nothing was written to before"""


def tclass(t):
    return "f" if t in ("double", "float") else "p" if t == "ptr" else "i"


def punned(a, b):
    """a number is not read as an address and the other way around"""
    return a is not None and b is not None and {tclass(a), tclass(b)} == {"f", "p"}


PENDING = ("pending",)


class Eval:
    """one random interpretation"""

    def __init__(self, eng, fn, rnd, args=None, kmax=3, null=0.25, ints=(0, 1, 2, 3, 4, 5, 7), doubles=None):
        self.e = eng; self.f = eng.m.fns[fn]; self.rnd = rnd; self.kmax = kmax
        self.null = null; self.ints = ints
        self.k = {}              # loop ctx -> counter
        self.args = args or {}   # position -> value
        self.mem0 = {}           # (base, off, type) -> value
        self.free = {}
        self.memo = {}
        self.pcmemo = {}
        self.proj = {}
        self.chosen = {}; self.ruled = {}
        self.fixedbase = {}      # object -> base, for those that are the same in every iteration
        self.force = {}          # sym -> value
        self.freewide = False
        self.nofail = True
        self.resolving = set()
        self.busy = 0
        self.hits = [0]
        self.steps = [0, 400000]
        self.cache = {frozenset(): self}

    def extend(self, kmax):
        """look at more iterations"""
        self.kmax = max(self.kmax, kmax)
        self.memo = {}; self.pcmemo = {}; self.proj = {}; self.chosen = {}; self.ruled = {}
        self.cache = {frozenset(self.k.items()): self}
        self.steps[0] = 0

    # ---- sampling
    def rnd_value(self, t, name=None):
        r = self.rnd
        ints, reals = self.e.constants()
        if t in ("double", "float") and reals and r.random() < 0.25:
            return r.choice(reals)
        if t in ("i16", "i32", "i64") and r.random() < 0.2:
            c = [x for x in ints if x < 1 << int(t[1:])]
            return r.choice(c + [r.randrange(1 << 16)])
        if t in ("double", "float"):
            return r.choice((-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0, 0.5, -0.5, -1.5, 2.25, r.uniform(0, 1), r.uniform(-1, 0), r.uniform(-4, 4), r.uniform(-4, 4)))
        if t == "ptr":
            return None
        if t == "i1":
            return r.choice((0, 1))
        if t == "i8":
            return r.choice((0, 1, 2))
        return r.choice(self.ints)

    def mem(self, base, off, t):
        """initial contents"""
        k = (base, off, t)
        if k not in self.mem0:
            v = self.mem_hook(base, off, t)
            if v is None:
                if t == "ptr":
                    v = 0 if self.rnd.random() < self.null else ("ptr", ("m", base, off), 0)
                else:
                    v = self.rnd_value(t)
            self.mem0[k] = v
        return self.mem0[k]

    def mem_hook(self, base, off, t):
        return None

    def arg(self, i):
        if i not in self.args:
            p = self.f.params[i]
            if p["t"] == "ptr":
                self.args[i] = 0 if self.rnd.random() < self.null else ("ptr", ("arg", i), 0)
            else:
                v = self.rnd_value(p["t"])
                if p["name"] == "channel_count" and p["t"] == "i8":
                    v = min(v, 2)
                self.args[i] = v
        return self.args[i]

    # ---- bases of pointers
    def base(self, oid):
        """-> (base, offset) of the start of an abstract object"""
        n = un(oid)
        if n[0] == "X":
            if n[1][0] == "param":
                return ("param", n[1][2]), 0
            if n[1][0] in ("s", "o"):
                v = self.ev(n[1])
                if isinstance(v, tuple) and v[0] == "ptr":
                    return v[1], v[2]
                raise Unresolved("null base")
            if n[1][0] == "fread":
                ks = []
                for c in self.e.loops_of(n[1][1]):
                    if c not in self.k:
                        raise Unresolved("which read")
                    ks.append(self.k[c])
                if isinstance(n[1][2], tuple):
                    name, j, site = n[1][2]
                    sites = self.e.outsites[name]
                    return ("out", name, j, sorted(sites, key=lambda x: (sites[x], x)).index(site), tuple(ks)), 0
                return ("fread", n[1][2], tuple(ks)), 0
            raise Unresolved("base")
        if n[0] == "G":
            return ("g", n[1]), 0
        if n[0] in ("H", "A"):
            # one object for each iteration of the loops around its allocation
            ks = []
            for c in self.e.loops_of(n[1] if isinstance(n[1], int) else n[2]):
                if c not in self.k:
                    raise Unresolved("which object")
                ks.append(self.k[c])
            if ks:
                return ("o", oid, tuple(ks)), 0
        return ("o", oid), 0

    def addr(self, p):
        b, o = self.base(p[1])
        o += p[2]
        for s, t, n in p[3]:
            x = self.ev(t)
            if not isinstance(x, int):
                raise Unresolved("offset")
            w = t[2] if t[0] in ("s", "o") else 64
            o += s * signed(x, w if w == 64 else 64)
        o = signed(o, 64)
        return b, o

    # ---- evaluation
    def ev(self, v):
        k = v[0]
        if k == "i":
            return v[1]
        if k == "f":
            return float(v[1]) if not v[1].startswith("0x") else float.fromhex(v[1])
        if k in ("s", "o", "b", "p"):
            p = self.at(v)
            if p is not self:
                return p.ev(v)
        key = v
        m = self.memo.get(key)
        if m is not None:
            if isinstance(m, Unresolved):
                raise m
            return m
        h = self.hits[0]
        try:
            r = self.ev1(v)
        except Unresolved as x:
            if self.hits[0] == h:
                self.memo[key] = x
            raise
        except (OverflowError, ZeroDivisionError, ValueError) as x:
            self.memo[key] = Unresolved(str(x))
            raise self.memo[key]
        self.memo[key] = r
        return r

    def ev1(self, v):
        k = v[0]
        if k == "p":
            b, o = self.addr(v)
            return ("ptr", b, o)
        if k == "fn":
            return ("fn", v[1])
        if k == "agg":
            return ("agg",) + tuple(self.ev(x) for x in v[1])
        if k == "undef":
            raise Uninit("undef")
        if k == "b":
            return 1 if self.atom(un(v[1])) == v[2] else 0
        if k == "s":
            return self.symbol(v)
        if k == "o":
            return self.term(un(v[1]), v)
        raise Unresolved(k)

    def atom(self, a):
        k = a[0]
        if k == "eq":
            x = self.ev(a[1]); y = self.ev(a[2])
            return self.same(x, y)
        if k == "ult":
            x = self.ev(a[1]); y = self.ev(a[2])
            if not (isinstance(x, int) and isinstance(y, int)):
                raise Unresolved("ult")
            return x < y
        if k == "slt":
            x = self.ev(a[1]); y = self.ev(a[2])
            if not (isinstance(x, int) and isinstance(y, int)):
                raise Unresolved("slt")
            return signed(x, a[3]) < signed(y, a[3])
        if k == "fcmp":
            x = self.ev(a[2]); y = self.ev(a[3])
            x = float(x); y = float(y)
            return {"olt": x < y, "ole": x <= y, "ult": x < y, "ule": x <= y, "oeq": x == y, "ueq": x == y, "one": x != y, "une": x != y, "ord": True, "uno": False}[a[1]]
        raise Unresolved(k)

    def same(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x[0] == "ptr" and y[0] == "ptr" and x[1] != y[1]:
                return False
            return x == y
        if isinstance(x, tuple) or isinstance(y, tuple):
            z = y if isinstance(x, tuple) else x
            if z == 0:
                return False
            raise Unresolved("pointer compared with integer")
        return x == y

    def symbol(self, v):
        if v in self.force:
            return self.force[v]
        n = un(v[1])
        if not isinstance(n, tuple):
            raise Unresolved("symbol")
        k = n[0]
        if k == "arg":
            return self.arg(n[2])
        if k == "k":
            c = n[1]
            if c not in self.k:
                raise Unresolved("counter")
            return self.k[c]
        if k == "ld":
            t = self.e.symtype.get(v) or ("double" if v[2] == 64 else "i%d" % v[2])
            if n[3] == 0:
                o = n[1]; off = n[2]
                p = ("p", o, off, ()) if not isinstance(off, tuple) else ("p", o, off[0], off[1])
                b, a = self.addr(p)
                if b[0] == "g":
                    return self.mem(b, a, t)
                if b[0] == "o":
                    raise Unresolved("uninitialised")
                if self.maybe_written(o, b, t) and v in self.e.loadinfo:
                    return self.memory_at(v, t)
                return self.mem(b, a, t)
            return self.memory_at(v, t)
        if k == "wk":
            return self.memory_at(v, self.e.symtype.get(v))
        if k == "join":
            pa, x, pb, y = self.e.joins[v]
            a = self.pc(pa)
            b = self.pc(pb)
            if a is True and b is not True:
                return self.ev(x)
            if b is True and a is not True:
                return self.ev(y)
            if a is True and b is True:
                x = self.ev(x); y = self.ev(y)
                if self.same(x, y):
                    return x
            raise Unresolved("join")
        if k in ("wphi", "wcell"):
            return self.carried(v, n)
        if k == "pcmp":
            a = self.ev(n[2]); b = self.ev(n[3])
            if isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]:
                x, y = a[2], b[2]
                return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[n[1]])
            raise Unresolved("pcmp")
        if k in ("ret", "ext", "cb", "cbid", "cbgrp", "short"):
            key = v
            if k in ("ext", "cb"):
                # every iteration is a call of its own
                ctxs = self.e.loops_of(n[1])
                if ctxs:
                    if any(c not in self.k for c in ctxs):
                        raise Unresolved("which call")
                    key = (v, tuple(self.k[c] for c in ctxs))
            if key not in self.free:
                x = self.results.get(self.e.externs.get(n[2:4]) if k in ("ext", "cb") else "short" if k == "short" else None)
                if callable(x):
                    x = x(self, n)
                self.free[key] = self.rnd_value("i%d" % v[2]) if x is None else x
            return self.free[key]
        raise Unresolved(k)

    results = {}         # external function -> what it returns

    def carried(self, v, n):
        """value of a loop-carried variable in iteration k"""
        ctx = n[1]
        if self.freewide:
            if v not in self.free:
                self.free[v] = self.rnd_value("double" if v[2] == 64 else "i%d" % v[2])
            return self.free[v]
        if ctx not in self.k:
            raise Unresolved("counter")
        l = self.e.all_wid(ctx, v)
        if not l:
            raise Unresolved("carried")
        kk = self.k[ctx]
        init = None
        vals = []
        for pc, ov, w in l:
            if ov is None:
                raise Unresolved("carried")
            c = self.pc(pc)
            if c is None:
                raise Unresolved("carried init")
            if c:
                vals.append(ov)
        if not vals or any(x != vals[0] for x in vals):
            raise Unresolved("carried init")
        init = self.ev(vals[0])
        if kk == 0:
            return init
        # the recurrence along the back edge that is taken from the previous iteration
        o = self.shift({ctx: kk - 1})
        unknown = False
        for pc, d, fail in self.e.all_backs(ctx):
            if fail and self.nofail:
                continue
            for q in o.choices(self.e.pc_ctxs(pc), pc):
                r = q.pc(pc)
                if r is None:
                    unknown = True
                elif r:
                    b = d.get(v)
                    if b is None:
                        raise Unresolved("carried step")
                    if b[0] == "mem":
                        # not known as one value: what memory contains when the iteration starts
                        a = ("p", b[1], b[2][0], b[2][1]) if isinstance(b[2], tuple) else ("p", b[1], b[2], ())
                        x, y = self.addr(a)
                        return self.resolve(x, y, v[2] // 8, "ptr" if isinstance(init, tuple) else "double" if isinstance(init, float) else "i%d" % v[2], self.order(b[3], 0))
                    if b == v:
                        # unchanged in this iteration
                        return o.ev(v)
                    return q.ev(b)
        raise Unresolved("carried step")

    def invariant(self, t, ctx, depth=0):
        """t does not change during the loop"""
        if depth > 40:
            return False
        if t[0] in ("i", "f", "fn", "undef"):
            return True
        if t[0] == "s":
            n = un(t[1])
            if not isinstance(n, tuple):
                return False
            if n[0] in ("k", "wphi", "wcell"):
                # symbols of enclosing loops are fixed while this loop runs
                return n[1] != ctx and not self.inside(n[1], ctx)
            if n[0] == "ld":
                off = n[2]
                if isinstance(off, tuple) and not all(self.invariant(x[1], ctx, depth + 1) for x in off[1]):
                    return False
                return n[3] == 0
            return n[0] == "arg"
        if t[0] == "p":
            return all(self.invariant(x[1], ctx, depth + 1) for x in t[3])
        if t[0] == "o":
            return all(self.invariant(x, ctx, depth + 1) for x in self.subterms(t))
        return False

    def inside(self, c, ctx):
        return inside(c, ctx)

    def subterms(self, v):
        a = un(v[1])
        if a[0] == "lin":
            return [t for _, t in a[3]]
        return [x for x in a[2:] if isinstance(x, tuple)]

    def term(self, a, v):
        o = a[0]; w = a[1]
        if o == "lin":
            r = a[2]
            for c, t in a[3]:
                x = self.ev(t)
                if isinstance(x, tuple):
                    raise Unresolved("pointer arithmetic")
                r += c * x
            return r % (1 << w)
        if o == "select":
            return self.ev(a[3]) if self.ev(a[2]) else self.ev(a[4])
        args = [self.ev(x) for x in a[2:] if isinstance(x, tuple)]
        if any(isinstance(x, tuple) for x in args):
            raise Unresolved("pointer operand")
        m = 1 << w if w else 0
        if o in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fmuladd", "fma", "fabs", "floor", "ceil", "sqrt", "minnum", "maxnum") or o.startswith("call:"):
            x = float(args[0]); y = float(args[1]) if len(args) > 1 else 0.0
            if o == "fadd": return x + y
            if o == "fsub": return x - y
            if o == "fmul": return x * y
            if o == "fdiv":
                if y == 0.0:
                    return math.nan if x == 0.0 or math.isnan(x) else math.copysign(math.inf, math.copysign(1.0, x) * math.copysign(1.0, y))
                return x / y
            if o == "frem": return math.fmod(x, y)
            if o == "fneg": return -x
            if o in ("fmuladd", "fma"): return x * y + float(args[2])
            if o == "minnum": return min(x, y)
            if o == "maxnum": return max(x, y)
            f = o[5:] if o.startswith("call:") else o
            if f in ("htonl", "ntohl"):
                n = int(args[0]); return int.from_bytes(n.to_bytes(4, "little"), "big")
            if f in ("htons", "ntohs"):
                n = int(args[0]); return int.from_bytes(n.to_bytes(2, "little"), "big")
            if f in ("fabs", "floor", "ceil", "sqrt", "sin", "cos", "exp", "log"):
                r = getattr(math, f)(x)
                return float(r)
            if f == "pow": return float(math.pow(x, y))
            if f == "fmod": return math.fmod(x, y)
            raise Unresolved(o)
        if o in ("zext", "trunc"):
            return args[0] % m
        if o == "sext":
            t = a[2]; fw = t[2] if t[0] in ("s", "o") else 1
            return signed(args[0], fw) % m
        if o in ("uitofp", "sitofp"):
            t = a[2]; fw = t[2] if t[0] in ("s", "o") else 1
            return float(signed(args[0], fw) if o == "sitofp" else args[0])
        if o in ("fptoui", "fptosi"):
            x = math.trunc(args[0])
            if o == "fptoui" and not 0 <= x < m or not -m <= x < m:
                raise Unresolved("conversion out of range")
            return x % m
        if o in ("fpext", "fptrunc"):
            return args[0]
        x = args[0]; y = args[1] if len(args) > 1 else 0
        if not isinstance(x, int) or not isinstance(y, int):
            raise Unresolved("float bits")
        if o == "mul": return x * y % m
        if o == "udiv": return x // y
        if o == "urem": return x % y
        if o == "sdiv":
            x = signed(x, w); y = signed(y, w); q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) % m
        if o == "srem":
            x = signed(x, w); y = signed(y, w); q = abs(x) % abs(y)
            return (q if x >= 0 else -q) % m
        if o == "and": return x & y
        if o == "or": return x | y
        if o == "xor": return x ^ y
        if o == "shl": return (x << y) % m if y < w else 0
        if o == "lshr": return x >> y
        if o == "ashr": return (signed(x, w) >> y) % m
        if o in ("umax", "umin"): return (max if o == "umax" else min)(x, y)
        if o == "bswap": return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
        if o in ("smax", "smin"):
            return (max if o == "smax" else min)(signed(x, w), signed(y, w)) % m
        if o == "abs": return abs(signed(x, w)) % m
        raise Unresolved(o)

    # ---- path conditions: True / False / None
    def pc(self, n):
        r = self.path(n)
        return None if r is LATER else r

    def at(self, v):
        """the evaluator that only knows the counters the value depends on"""
        if self.freewide or not self.k:
            return self
        p = self.proj.get(v)
        if p is not None:
            return p
        d = self.e.deps(v)
        p = self.proj.get(d)
        if p is None:
            k = {c: x for c, x in self.k.items() if c in d}
            p = self if len(k) == len(self.k) else self.fixed(k)
            self.proj[d] = p
        self.proj[v] = p
        return p

    def path(self, n):
        if n == 0 or n is None:
            return True
        return self.at(("pc", n)).path1(n)

    def path1(self, n):
        """like pc, and LATER for a condition that includes one that is just being determined: what happens under it
        happens after everything that the other condition depends on"""
        if n == 0 or n is None:
            return True
        if n in self.pcmemo:
            r = self.pcmemo[n]
            if r == "busy":
                # not known while it is being determined: what follows from this is not remembered
                self.hits[0] += 1
                return LATER
            return r
        self.pcmemo[n] = "busy"
        h = self.hits[0]
        q = self.e.pcs[n]
        if q[0] == "and":
            p = self.path(q[1])
            if p is False or p is LATER:
                r = p
            else:
                try:
                    c = bool(self.ev(q[2])) == q[3]
                except Unresolved:
                    c = None
                r = False if c is False else (True if p and c else None)
        elif q[0] == "or":
            a = self.path(q[1]); b = self.path(q[2])
            if a is True or b is True:
                r = True
            elif a is None or b is None:
                r = None
            elif a is LATER or b is LATER:
                r = LATER
            else:
                r = False
        else:
            # arbitrary iteration of a loop: entered, and the previous iteration came back to the start
            p = self.path(q[2])
            ctx = q[1]; run = q[3]
            r = p
            if p is not False and p is not LATER:
                if ctx not in self.k:
                    r = None
                elif self.k[ctx] > 0:
                    b = self.previous(ctx, run)
                    r = b if b is False or b is LATER else (True if p and b else None)
        if (r is None or r is LATER) and self.hits[0] != h:
            del self.pcmemo[n]
        else:
            self.pcmemo[n] = r
        return r

    def excluded(self, n):
        """known already: this condition is false, or only decided later"""
        first = None
        while n:
            e = self.at(("pc", n)).pcmemo
            m = e.get(n)
            if m is False:
                if first is not None and first[1] not in first[0]:
                    first[0][first[1]] = False
                return True
            if m == "busy":
                return True
            if m is True:
                return False
            if first is None:
                first = (e, n)
            q = self.e.pcs[n]
            if q[0] == "or":
                return False
            n = q[1] if q[0] == "and" else q[2]
        return False

    def previous(self, ctx, run):
        backs = self.e.backs.get(ctx, {}).get(run)
        if backs is None:
            return None
        o = self.shift({ctx: self.k[ctx] - 1})
        unknown = later = False
        for pc, _, fail in backs:
            if fail and self.nofail:
                continue
            for q in o.choices(self.e.pc_ctxs(pc), pc):
                r = q.path(pc)
                if r is True:
                    return True
                if r is None:
                    unknown = True
                if r is LATER:
                    later = True
        return None if unknown else LATER if later else False

    def ruled_out(self, n):
        """a condition that includes this one is false for the counters that are fixed"""
        r = self.ruled.get(n)
        if r is None:
            r = self.ruled[n] = self.ruled_out1(n)
        return r

    def ruled_out1(self, n):
        while n:
            q = self.e.pcs[n]
            if all(c in self.k for c in self.e.pc_ctxs(n)):
                return self.path(n) is False
            if q[0] == "or":
                return self.ruled_out(q[1]) and self.ruled_out(q[2])
            n = q[1] if q[0] == "and" else q[2]
        return False

    def choices(self, ctxs, n=0):
        key = (tuple(ctxs), n)
        r = self.chosen.get(key)
        if r is None:
            # only iterations that are known not to happen are left out, what is found remains sufficient
            r = self.chosen[key] = list(self.choices1(ctxs, n))
        return r

    def choices1(self, ctxs, n):
        """evaluators for all values of the counters in ctxs that are not fixed yet; iterations that are known not to
        happen are left out"""
        todo = sorted(c for c in ctxs if c not in self.k)
        if not todo:
            yield self
            return
        c = todo[0]
        nodes = self.e.loop_nodes(c)
        for k in range(self.kmax + 1):
            q = self.shift({c: k}, keep=True)
            stop = nodes and all(q.ruled_out(n) for n in nodes)
            if stop and k:
                break
            if len(todo) == 1 or not q.ruled_out(n):
                for r in q.choices(todo[1:], n):
                    yield r
            if stop:
                break

    def shift(self, ks, keep=False):
        k = dict(self.k); k.update(ks)
        if not keep:
            # counters of loops inside the shifted ones are open again
            for c in list(k):
                if c not in ks and any(self.inside(c, x) for x in ks):
                    del k[c]
        return self.fixed(k)

    def fixed(self, k):
        key = frozenset(k.items())
        o = self.cache.get(key)
        if o is None:
            o = Eval.__new__(type(self))
            o.__dict__.update(self.__dict__)
            o.k = k
            o.memo = {}; o.pcmemo = {}; o.proj = {}; o.chosen = {}; o.ruled = {}
            self.cache[key] = o
        return o

    # ---- memory in the middle of the execution
    def order(self, chain, seq):
        out = []
        for start, it, ctx in chain:
            if ctx is None:
                out.append((start, it))
            else:
                out.append((start, it + self.k[ctx]))
        out.append((seq, 0))
        return out

    def memory_at(self, v, t):
        info = self.e.loadinfo.get(v)
        if not info:
            raise Unresolved("load")
        if len(info) > 1:
            # the same load reached in different ways: take the one on the path at hand
            sure = None; maybe = []
            for x in info:
                r = self.path(x[6])
                if r is True:
                    sure = x
                    break
                if r is None:
                    maybe.append(x)
            if sure is None:
                if len(maybe) != 1:
                    raise Unresolved("load path")
                sure = maybe[0]
            info = [sure]
        chain, seq, p, size, _, lt, _ = info[0]
        b, a = self.addr(p)
        for c in chain:
            if c[2] is not None and c[2] not in self.k:
                raise Unresolved("counter")
        return self.resolve(b, a, size, t or lt, self.order(chain, seq))

    def instances(self, o):
        """evaluators for all instances of observation o in this sample"""
        ctxs = [c[2] for c in o.chain if c[2] is not None]
        rest = [c for c in self.e.pc_ctxs(o.pc) if c not in ctxs]
        base = self.shift0()
        for q in base.choices(ctxs + rest, o.pc):
            yield q

    def instances_at(self, o, b, a, size, before):
        """the instances of a write that come before a point of the execution order and can touch the address: the
        counter of the innermost loop is solved for when the address moves evenly with it"""
        ctxs = [c[2] for c in o.chain if c[2] is not None]
        rest = [c for c in self.e.pc_ctxs(o.pc) if c not in ctxs]
        inner = sorted(c for c in rest if any(self.inside(c, x) for x in ctxs))
        outer = sorted(c for c in rest if c not in inner)
        for q in self.shift0().choices(outer, o.pc):
            for r in self.before(q, o, 0, [], before, b, a, size):
                for x in r.choices(inner, o.pc):
                    yield x

    def before(self, q, o, i, prefix, before, b, a, size):
        if i == len(o.chain):
            if prefix + [(o.seq, 0)] < before:
                yield q
            return
        start, it, ctx = o.chain[i]
        if ctx is None:
            p = prefix + [(start, it)]
            if p <= before[:len(p)]:
                for r in self.before(q, o, i + 1, p, before, b, a, size):
                    yield r
            return
        ks = None
        if i == len(o.chain) - 1 and o.kind == "store" and self.kmax > 5:
            ks = self.solve(q, o, ctx, b, a, size)
        nodes = self.e.loop_nodes(ctx)
        for k in ks if ks is not None else range(self.kmax + 1):
            p = prefix + [(start, it + k)]
            if p > before[:len(p)]:
                break
            r = q.shift({ctx: k}, keep=True)
            if ks is None and nodes and p < before[:len(p)] and all(r.ruled_out(n) for n in nodes):
                break
            for x in self.before(r, o, i + 1, p, before, b, a, size):
                yield x

    def solve(self, q, o, inner, b, a, size):
        if inner in self.e.deps(("p", o.p[1], 0, ())):
            return None
        try:
            p = []
            for k in (0, 1, 2, self.kmax):
                ob, oa = q.shift({inner: k}, keep=True).addr(o.p)
                p.append((ob, oa))
        except Unresolved:
            return None
        if any(x[0] != p[0][0] for x in p):
            return None
        d = p[1][1] - p[0][1]
        if not d or p[2][1] - p[1][1] != d or p[3][1] - p[0][1] != d * self.kmax:
            return None
        if p[0][0] != b:
            return ()
        lo = (a - o.size - p[0][1]) // d; hi = (a + size - p[0][1]) // d
        return range(max(0, min(lo, hi) - 1), min(self.kmax, max(lo, hi) + 1) + 1)

    def shift0(self):
        return self.fixed({})

    MEMKINDS = ("store", "copy", "set", "havoc", "move")

    def resolve(self, b, a, size, t, before):
        """contents of address (b, a) at a point of the execution order"""
        best = None; bo = None
        st = self.steps
        if st[0] > st[1]:
            raise Budget()
        if self.busy > 150:
            raise Unresolved("deep")
        self.busy += 1
        try:
            for o in self.e.obs:
                if o.kind not in self.MEMKINDS or o.fail and self.nofail:
                    continue
                if self.e.earliest(o) >= before or self.cheap_miss(o, b) or o.kind == "store" and punned(o.t, t) or self.other_base(o.p[1], b):
                    continue
                for s in self.instances_at(o, b, a, size, before):
                    st[0] += 1
                    try:
                        od = s.order(o.chain, o.seq)
                    except KeyError:
                        raise Unresolved("order")
                    if od >= before:
                        continue
                    m = s.at(o.p).memo.get(o.p)
                    if m.__class__ is tuple and m[1] != b or s.excluded(o.pc):
                        continue
                    try:
                        _, ob, oa = s.ev(o.p)
                    except Unresolved as x:
                        if s.pc(o.pc) is False:
                            continue
                        raise Unresolved(str(x))
                    if ob != b:
                        continue
                    if o.kind == "havoc" and o.size is None:
                        n = 1 << 62
                        oa = oa if not o.p[3] and o.inst is not None else -(1 << 62)
                    elif o.kind in ("copy", "set", "havoc", "move"):
                        try:
                            n = s.ev(o.size)
                        except Unresolved as x:
                            if s.pc(o.pc) is False:
                                continue
                            raise Unresolved(str(x))
                    else:
                        n = o.size
                    if oa + n <= a or a + size <= oa:
                        continue
                    c = s.path(o.pc)
                    if c is False or c is LATER:
                        continue
                    if o.kind == "havoc" or c is None or not (oa <= a and a + size <= oa + n):
                        raise Unresolved("unknown write")
                    if o.kind == "store" and (oa != a or n != size):
                        raise Unresolved("partial write")
                    if best is None or od > bo:
                        best = (o, s, oa); bo = od
            if best is None:
                return self.initial(b, a, t)
            o, s, oa = best
            if o.kind == "store":
                return s.ev(o.v)
            if o.kind == "set":
                if o.extra == I0:
                    return 0.0 if t in ("double", "float") else 0
                raise Unresolved("set")
            sb, sa = s.addr(o.v)
            return s.resolve(sb, sa + (a - oa), size, t, bo)
        finally:
            self.busy -= 1

    def maybe_written(self, oid, b, t):
        """there are writes through a pointer to another abstract object that can be the same memory"""
        if self.e.written is None:
            self.e.written = {}
        cl = tclass(t)
        w = self.e.written.get(cl)
        if w is None:
            w = self.e.written[cl] = sorted({o.p[1] for o in self.e.obs if o.kind in self.MEMKINDS and un(o.p[1])[0] not in ("H", "A") and not (o.kind == "store" and punned(o.t, t))})
        return any(x != oid and not self.other_base(x, b) for x in w)

    def other_base(self, oid, b):
        r = self.fixedbase.get(oid, False)
        if r is False:
            r = None
            self.fixedbase[oid] = PENDING     # finding out where it is does not go through itself
            if not self.e.deps(("p", oid, 0, ())):
                try:
                    r = self.shift0().base(oid)[0]
                except Unresolved:
                    if self.hits[0]:
                        del self.fixedbase[oid]
                        return False
                except BaseException:
                    self.fixedbase.pop(oid, None)
                    raise
            self.fixedbase[oid] = r
        return r is not None and r != b

    def cheap_miss(self, o, b):
        """an object allocated by the call itself is only reached through its own identity"""
        n = un(o.p[1])[0]
        if n in ("H", "A") and b[:2] != ("o", o.p[1]):
            return True
        if b[0] == "o" and n in ("H", "A") and b[1] != o.p[1]:
            return True
        return False

    heapfill = False     # numbers in new memory come from somewhere else (other threads)

    def initial(self, b, a, t):
        if b[0] == "o":
            n = un(b[1])
            if n[0] == "H" and self.heapfill:
                return self.mem(b, a, t)
            if n[0] == "H" and self.e.zeroed(b[1]):
                return 0.0 if t in ("double", "float") else 0
            raise Uninit("uninitialised")
        return self.mem(b, a, t)


def loops_of(self, c):
    """the arbitrary-iteration loop contexts around a context"""
    r = self.loopsof.get(c)
    if r is None:
        r = []
        x = c
        while isinstance(x, int):
            n = un(x)
            if not isinstance(n, tuple) or n[0] not in ("it", "call", "run"):
                break
            if n[0] == "it" and n[4] == "w":
                r.append(x)
            x = n[1]
        self.loopsof[c] = r
    return r


FunEngine.loops_of = loops_of


def earliest(self, o):
    """the position in the execution order before which the observation does not occur"""
    r = self.first.get(o.seq)
    if r is None:
        r = self.first[o.seq] = [(start, it) for start, it, ctx in o.chain] + [(o.seq, 0)]
    return r


FunEngine.earliest = earliest


def zeroed(self, oid):
    return oid in self.zero_oids


FunEngine.zeroed = zeroed


def pc_ctxs(self, n):
    """loop contexts whose counters the path condition refers to"""
    c = self.pcctx
    if n in c:
        return c[n]
    order = []; work = [n]
    seen = set()
    while work:
        x = work.pop()
        if x in seen or not x:
            continue
        seen.add(x)
        q = self.pcs[x]
        if q[0] == "and":
            work.append(q[1])
        elif q[0] == "or":
            work.append(q[1]); work.append(q[2])
        else:
            order.append(q[1]); work.append(q[2])
    r = c[n] = sorted(set(order))
    return r


FunEngine.pc_ctxs = pc_ctxs


def loop_nodes(self, c):
    if self.loopn is None or self.loopn[0] != len(self.pcs):
        d = {}
        for i, q in enumerate(self.pcs):
            if q and q[0] == "loop":
                d.setdefault(q[1], []).append(i)
        self.loopn = (len(self.pcs), d)
    return self.loopn[1].get(c, ())


FunEngine.loopn = None
FunEngine.loop_nodes = loop_nodes


def obj_terms(oid):
    n = un(oid)
    if n[0] == "X" and n[1][0] in ("s", "o", "p"):
        return [n[1]]
    return []


def callobs(self, n):
    """the recorded calls that a result belongs to"""
    if self.callindex is None or self.callindex[0] != len(self.obs):
        d = {}
        for o in self.obs:
            if o.kind == "callback":
                d.setdefault((o.ctx, o.inst.fn.name, o.inst.id), []).append(o)
        self.callindex = (len(self.obs), d)
    return self.callindex[1].get(n[1:4], ())


FunEngine.callobs = callobs
FunEngine.callindex = None


def dep_edges(self, v):
    """(loop contexts, further nodes) that the value of a term or of a path condition depends on"""
    if v[0] == "pc":
        n = v[1]
        if not n:
            return (), ()
        q = self.pcs[n]
        if q[0] == "and":
            return (), (("pc", q[1]), q[2])
        if q[0] == "or":
            return (), (("pc", q[1]), ("pc", q[2]))
        return (q[1],) + tuple(self.loops_of(q[1])), (("pc", q[2]),) + tuple(("pc", b[0]) for b in self.backs.get(q[1], {}).get(q[3], ()))
    k = v[0]
    if k == "p":
        n = un(v[1])
        c = self.loops_of(n[1] if isinstance(n[1], int) else n[2]) if n[0] in ("H", "A") else ()
        return tuple(c), tuple(obj_terms(v[1])) + tuple(x[1] for x in v[3])
    if k == "agg":
        return (), tuple(v[1])
    if k in ("o", "b"):
        a = un(v[1])
        if a[0] == "lin":
            return (), tuple(t for _, t in a[3])
        return (), tuple(x for x in a[1:] if isinstance(x, tuple))
    if k != "s":
        return (), ()
    n = un(v[1])
    if not isinstance(n, tuple):
        return (), ()
    cs = []; ns = []
    if n[0] in ("k", "wphi", "wcell") and isinstance(n[1], int):
        cs.append(n[1]); cs += self.loops_of(n[1])
        for pc, ov, w in self.all_wid(n[1], v):
            ns.append(("pc", pc))
            if ov is not None:
                ns.append(ov)
        if n[0] != "k":
            for pc, d, fail in self.all_backs(n[1]):
                if fail:
                    continue
                ns.append(("pc", pc))
                if d.get(v) is not None:
                    ns.append(d[v])
    if n[0] == "join":
        j = self.joins.get(v)
        if j:
            ns += [("pc", j[0]), j[1], ("pc", j[2]), j[3]]
    if n[0] in ("ext", "cb"):
        cs += self.loops_of(n[1])
        for o in self.callobs(n):
            ns += o.extra
    if n[0] == "pcmp":
        ns += [n[2], n[3]]
    if n[0] == "ld" and isinstance(n[1], int) and len(n) > 3:
        off = n[2]
        ns.append(("p", n[1], off, ()) if not isinstance(off, tuple) else ("p", n[1], off[0], off[1]))
    for x in self.loadinfo.get(v, ()):
        for c in x[0]:
            if c[2] is not None:
                cs.append(c[2]); cs += self.loops_of(c[2])
        ns.append(x[2]); ns.append(("pc", x[6]))
    return tuple(cs), tuple(x for x in ns if isinstance(x, tuple))


def deps(self, v):
    """loop contexts whose counters decide the value"""
    d = self.depmemo
    if v in d:
        return d[v]
    # strongly connected components
    index = {}; low = {}; on = set(); stack = []; work = [(v, None)]
    edges = {}
    while work:
        x, it = work[-1]
        if it is None:
            index[x] = low[x] = len(index); stack.append(x); on.add(x)
            cs, ns = self.dep_edges(x)
            edges[x] = (set(cs), ns)
            it = iter(ns); work[-1] = (x, it)
        nxt = None
        for y in it:
            if y in d:
                edges[x][0].update(d[y])
            elif y not in index:
                nxt = y; break
            elif y in on:
                low[x] = min(low[x], index[y])
        if nxt is not None:
            work.append((nxt, None)); continue
        work.pop()
        if low[x] == index[x]:
            comp = []
            while True:
                y = stack.pop(); on.discard(y); comp.append(y)
                if y == x:
                    break
            s = set()
            for y in comp:
                s |= edges[y][0]
            s = frozenset(s)
            for y in comp:
                d[y] = s
        if work:
            px = work[-1][0]
            if x in d:
                edges[px][0].update(d[x])
            else:
                low[px] = min(low[px], low[x])
    return d[v]


FunEngine.dep_edges = dep_edges
FunEngine.deps = deps
FunEngine.depmemo = None
