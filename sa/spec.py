"""Reference specifications and the decision of value-flow summaries against them.

A specification fixes small sizes and distinct memory areas for the parameters of one function and states the final
contents of each area, the returned value, what may be read and what must stay untouched.  Everything else (contents,
scalars) is free and is interpreted randomly."""
import math, random
import fun
from fun import Eval, Unresolved, Uninit, FunEngine

SIZE = {"double": 8, "i64": 8, "i32": 4, "i16": 2, "i8": 1, "ptr": 8, "float": 4}
END = [(1 << 60, 0)]
ANY = object()
MANY = 70             # iterations after which a loop over at most a few elements is taken to be endless


class Skip(Exception):
    """the sampled inputs are outside of what the specification covers"""


def close(x, y):
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, tuple) or isinstance(y, tuple):
            return False
        if math.isnan(y) or math.isinf(y):
            return True
        if math.isnan(x) or math.isinf(x):
            return False
        return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))
    return x == y


class Sample:
    """one choice of sizes and inputs, and what is expected of it"""

    def __init__(self, eng, fn, rnd):
        self.eng = eng; self.f = eng.m.fns[fn]; self.rnd = rnd
        self.E = Eval(eng, fn, rnd, kmax=4, null=0.0)
        self.E.mem_hook = self.mem_hook
        self.areas = {}          # base -> (type, count, write)
        self.expected_fresh = []
        self.expected = []       # (base, offset, type, value, text)
        self.preset = {}
        self.returns = ANY
        self.outs = {}
        self.structs = {}
        self.blank = set()       # areas that hold nothing before
        self.checks = []
        self.inplace = {}
        self.drawn = []
        self.fail_free = True
        self.names = {p["name"]: i for i, p in enumerate(self.f.params)}

    def mem_hook(self, base, off, t):
        if base in self.blank:
            raise Uninit("output")
        return self.preset.get((base, off))

    def pos(self, name):
        if isinstance(name, int):
            return name
        return self.names[name]

    # scalars
    def size(self, name, lo=0, hi=4):
        """a number of elements: small, or next to a constant the code compares with"""
        v = self.rnd.randint(lo, hi)
        c = [x for x in self.eng.constants()[0] if hi < x <= self.eng.reach()]
        if c and self.rnd.random() < 0.15:
            v = self.rnd.choice(c)
        self.grow(v)
        self.E.args[self.pos(name)] = v
        return v

    def grow(self, v):
        self.E.kmax = max(self.E.kmax, v)

    def val(self, name, lo=0, hi=7):
        """any number, mostly small"""
        v = self.rnd.randint(lo, hi)
        x = self.rnd.random()
        if x < 0.3:
            v = max(lo, self.E.rnd_value("i32"))
        elif x < 0.5 and self.drawn:
            # in some relation to what was chosen before
            a = self.rnd.choice(self.drawn); b = self.rnd.choice(self.drawn + [0, 0])
            v = self.rnd.choice((a + b, abs(a - b), a))
            if not lo <= v <= 0xffff:
                v = self.rnd.randint(lo, hi)
        self.drawn.append(v)
        self.E.args[self.pos(name)] = v
        return v

    def int(self, name, lo, hi=None):
        v = self.rnd.randint(lo, lo if hi is None else hi)
        self.E.args[self.pos(name)] = v
        return v

    def choice(self, name, vals):
        v = self.rnd.choice(vals)
        self.E.args[self.pos(name)] = v
        return v

    def real(self, name, lo=None, hi=None):
        v = self.E.rnd_value("double") if lo is None else self.rnd.choice((lo, hi, self.rnd.uniform(lo, hi), (lo + hi) / 2))
        self.E.args[self.pos(name)] = float(v)
        return float(v)

    def null(self, name):
        self.E.args[self.pos(name)] = 0

    def func(self, name, tag):
        self.E.args[self.pos(name)] = ("fn", tag)

    # memory
    def arr(self, name, t, n, write=False, values=None):
        """array parameter with n elements; returns the initial values"""
        i = self.pos(name)
        base = ("arg", i)
        self.E.args[i] = ("ptr", base, 0)
        return self.area(base, t, n, write, values)

    def same(self, name, other, text="in place"):
        """the documentation allows both parameters to be the same array"""
        if self.eng.SAME == (name, other):
            self.inplace[self.pos(name)] = (self.pos(other), text)
            return True
        return False

    def area(self, base, t, n, write=False, values=None):
        self.areas[base] = (t, n, write)
        r = []
        for j in range(n):
            v = values[j] if values is not None else self.E.rnd_value(t)
            if t == "double":
                v = float(v)
            self.preset[(base, j * SIZE[t])] = v
            r.append(v)
        return r

    def lay(self, struct):
        """field name -> offset"""
        d = self.eng.m.dist.get(struct)
        if d is None:
            raise Unresolved("no layout of " + struct)
        return {n: o for o, n, sz in d["el"]}

    def struct(self, base, struct, fields, write=True, off=0):
        """memory of a structure; fields that are not named are free"""
        l = self.lay(struct)
        n = self.eng.m.dist[struct]["size"]
        if base not in self.areas or off + n > self.areas[base][1]:
            self.areas[base] = ("i8", off + n, write)
        for k, v in fields.items():
            self.preset[(base, off + l[k])] = v
        return ("ptr", base, off)

    def setptr(self, name, v):
        self.E.args[self.pos(name)] = v

    def field(self, base, struct, f, t, v, text, off=0):
        self.expect(base, off + self.lay(struct)[f], t, v, text)

    def ptr(self, base, off=0):
        return ("ptr", base, off)

    def out(self, name, t, values, n=None):
        """the parameter is an array whose first len(values) elements end up with the given values"""
        i = self.pos(name)
        if i in self.inplace:
            j, text = self.inplace[i]
            self.E.args[i] = self.E.args[j]
            i = j; name = "%s (%s)" % (name, text)
        base = ("arg", i)
        if base not in self.areas:
            self.E.args[i] = ("ptr", base, 0)
            self.area(base, t, max(len(values), n or 0), True)
            self.blank.add(base)
        else:
            self.areas[base] = (t, max(self.areas[base][1], len(values), n or 0), True)
        for j, v in enumerate(values):
            self.expect(base, j * SIZE[t], t, v, "%s[%d]" % (name, j))

    def expect(self, base, off, t, v, text):
        self.expected.append((base, off, t, v, text))

    def fresh(self, name, t, values):
        """*name is set to new memory with the given contents"""
        i = self.pos(name)
        base = ("arg", i)
        self.E.args[i] = ("ptr", base, 0)
        self.areas[base] = ("ptr", 1, True)
        self.expected_fresh.append((base, 0, t, values, name))

    def ret(self, v):
        self.returns = v


class Verdict:
    def __init__(self, fn):
        self.fn = fn; self.samples = 0; self.decided = 0; self.undecided = 0; self.bad = []; self.skipped = 0; self.obligations = 0; self.why = {}
        self.accesses = 0

    def fail(self, key, inst, text):
        self.bad.append((key, inst, text))

    def unknown(self, why):
        self.undecided += 1
        self.why[str(why)] = self.why.get(str(why), 0) + 1


def last_writer(E, base, off, size):
    """observation that defines the final contents of an address (for the report)"""
    best = None; bo = None
    for o in E.e.obs:
        if o.kind not in E.MEMKINDS or o.fail and E.nofail or E.cheap_miss(o, base):
            continue
        try:
            for s in E.instances(o):
                if s.pc(o.pc) is not True:
                    continue
                b, a = s.addr(o.p)
                n = o.size if o.kind == "store" else s.ev(o.size)
                if b == base and a < off + size and off < a + n:
                    od = s.order(o.chain, o.seq)
                    if best is None or od > bo:
                        best = o; bo = od
        except (Unresolved, KeyError, TypeError):
            continue
    return best


def run_sample(S, V, bounds=True):
    E = S.E
    V.samples += 1
    rets = [o for o in E.e.obs if o.kind == "return"]
    def returns():
        return any(s.pc(o.pc) is not False for o in rets if not (o.fail and S.fail_free) for s in E.instances(o))
    if rets and not returns():
        # more iterations than are looked at
        E.extend(MANY)
        V.obligations += 1
        if not returns():
            V.fail("endless:return", rets[0].inst, "the function does not return: its loops are still going on after %d iterations" % MANY)
        else:
            V.unknown("no return")
        return
    if any(s.pc(o.pc) is not False for o in E.e.obs if o.kind == "recursion" for s in E.instances(o)):
        V.obligations += 1; V.unknown("recursion"); return
    sure = any(s.pc(o.pc) is True for o in rets if not (o.fail and S.fail_free) for s in E.instances(o))

    def uninit(x, what, inst=None):
        """nothing is ever written to what has to have a value"""
        if isinstance(x, Uninit) and sure:
            V.fail("value:" + what.split("[")[0], inst, "%s is left uninitialised" % what)
            return True
        return False
    # final memory
    for base, off, t, v, text in S.expected:
        V.obligations += 1
        try:
            r = E.resolve(base, off, SIZE[t], t, END)
        except Unresolved as x:
            if v is ANY or not uninit(x, text):
                V.unknown(x)
            continue
        if v is ANY:
            V.decided += 1
            continue
        if not close(r, v):
            o = last_writer(E, base, off, SIZE[t])
            V.fail("value:%s" % text.split("[")[0], o.inst if o is not None else None, "%s ends up as %s instead of %s" % (text, show(r), show(v)))
        else:
            V.decided += 1
    for base, off, t, vals, name in S.expected_fresh:
        V.obligations += 1
        try:
            r = E.resolve(base, off, 8, "ptr", END)
            if not (isinstance(r, tuple) and r[0] == "ptr" and r[1][0] == "o" and fun.un(r[1][1])[0] == "H"):
                o = last_writer(E, base, off, 8)
                V.fail("value:" + name, o.inst if o is not None else None, "*%s is not new memory but %s" % (name, show(r)))
                continue
        except Unresolved as x:
            V.unknown(x)
            continue
        V.decided += 1
        for j, v in enumerate(vals):
            V.obligations += 1
            try:
                got = E.resolve(r[1], r[2] + j * SIZE[t], SIZE[t], t, END)
            except Unresolved as x:
                if v is ANY or not uninit(x, "(*%s)[%d]" % (name, j)):
                    V.unknown(x)
                continue
            if v is ANY or close(got, v):
                V.decided += 1
            else:
                o = last_writer(E, r[1], r[2] + j * SIZE[t], SIZE[t])
                V.fail("value:" + name, o.inst if o is not None else None, "(*%s)[%d] ends up as %s instead of %s" % (name, j, show(got), show(v)))
        # the block is large enough for what was written to it
        for o in E.e.obs:
            if o.kind == "alloc" and not o.fail and o.p[1] == r[1][1] and o.size is not None:
                for s in E.instances(o):
                    if s.pc(o.pc) is not True:
                        continue
                    try:
                        if s.base(o.p[1])[0] != r[1]:
                            continue
                        n = s.ev(o.size if isinstance(o.size, tuple) else ("i", o.size))
                    except Unresolved:
                        continue
                    if isinstance(n, int) and n < len(vals) * SIZE[t]:
                        V.fail("size:" + name, o.inst, "%d bytes are allocated for *%s, which holds %d" % (n, name, len(vals) * SIZE[t]))
    # returned value
    if S.returns is not ANY:
        V.obligations += 1
        got = None; unk = None; inst = None
        for o in E.e.obs:
            if o.kind != "return" or (o.fail and S.fail_free):
                continue
            for s in E.instances(o):
                c = s.pc(o.pc)
                if c is True:
                    try:
                        got = s.ev(o.v); inst = o.inst
                    except Unresolved as x:
                        unk = x
                elif c is None:
                    unk = "path"
        if got is None:
            V.unknown(unk or "no return")
        else:
            want = S.returns
            if isinstance(got, tuple) and got[0] == "agg" and not isinstance(want, tuple):
                got = got[1]
            if isinstance(want, tuple) and want[0] == "agg":
                ok = isinstance(got, tuple) and got[0] == "agg" and all(close(x, y) for x, y in zip(got[1:], want[1:]))
            else:
                ok = want(got) if callable(want) else close(got, want)
                want = getattr(want, "__doc__", None) if callable(want) else want
            if not ok:
                V.fail("return", inst, "the result is %s instead of %s" % (show(got), show(want)))
            else:
                V.decided += 1
    # accesses stay inside of the areas; read-only areas are not written
    for o in E.e.obs:
        if o.fail and S.fail_free:
            continue
        if o.kind in ("load", "store"):
            parts = [(o.p, o.size, o.kind == "store")]
        elif o.kind == "copy":
            parts = [(o.p, None, True), (o.v, None, False)]
        elif o.kind == "set":
            parts = [(o.p, None, True)]
        else:
            continue
        for s in E.instances(o):
            if s.pc(o.pc) is not True:
                continue
            for p, n, w in parts:
                try:
                    b, a = s.addr(p)
                    m = n if n is not None else s.ev(o.size)
                except Unresolved as x:
                    continue
                if b not in S.areas or m == 0:
                    continue
                V.accesses += 1
                t, cnt, wr = S.areas[b]
                if a < 0 or a + m > cnt * SIZE[t]:
                    if bounds:
                        V.fail("bounds:%s" % base_name(S, b), o.inst, "%s of bytes %d to %d of %s, which has %d" % ("write" if w else "read", a, a + m - 1, base_name(S, b), cnt * SIZE[t]))
                elif w and not wr:
                    V.fail("readonly:%s" % base_name(S, b), o.inst, "write to %s, which is an input" % base_name(S, b))
    heap_bounds(E, V, S, bounds)
    for c in S.checks:
        V.obligations += 1
        n = len(V.bad)
        try:
            c(E, V)
        except Unresolved as x:
            if not uninit(x, getattr(c, "__doc__", None) or "memory of the result"):
                V.unknown(x)
        else:
            if len(V.bad) == n:
                V.decided += 1


def heap_bounds(E, V, S, bounds):
    """accesses to memory that was allocated on the way stay inside of it"""
    size = {}
    for o in E.e.obs:
        if o.kind != "alloc" or o.size is None or o.fail and S.fail_free:
            continue
        for s in E.instances(o):
            if s.pc(o.pc) is not True:
                continue
            try:
                b = s.base(o.p[1])[0]; n = s.ev(o.size if isinstance(o.size, tuple) else ("i", o.size))
            except Unresolved:
                continue
            if not isinstance(n, int):
                continue
            if size.setdefault(b, n) != n:
                size[b] = None
    size = {b: n for b, n in size.items() if n is not None}
    if not size:
        return
    for o in E.e.obs:
        if o.fail and S.fail_free or o.kind not in ("load", "store", "copy", "set"):
            continue
        parts = [(o.p, o.size if o.kind in ("load", "store") else None, o.kind != "load")]
        if o.kind == "copy":
            parts.append((o.v, None, False))
        parts = [x for x in parts if not all(E.other_base(x[0][1], b) for b in size)]
        if not parts:
            continue
        for s in E.instances(o):
            if s.pc(o.pc) is not True:
                continue
            for p, n, w in parts:
                try:
                    b, a = s.addr(p)
                    m = n if n is not None else s.ev(o.size)
                except Unresolved:
                    continue
                if b not in size or not isinstance(m, int) or not isinstance(a, int) or m == 0:
                    continue
                V.accesses += 1
                if bounds and (a < 0 or a + m > size[b]):
                    V.fail("bounds:allocated", o.inst, "%s of bytes %d to %d of memory for which %d bytes are allocated" % ("write" if w else "read", a, a + m - 1, size[b]))


class At:
    """one instance of a recorded effect"""

    def __init__(self, E, o, s):
        self.o = o; self.s = s; self.E = E
        self.order = s.order(o.chain, o.seq)

    def args(self):
        return [self.s.ev(a) for a in self.o.extra]

    def target(self):
        return self.s.ev(self.o.v)

    def result(self, kind="cb"):
        """what the call returns"""
        i = self.o.inst
        return self.s.ev(fun.engine.sym((kind, self.o.ctx, i.fn.name, i.id), fun.engine.width(i.t) or 64))

    def mem(self, base, off, t):
        return self.E.resolve(base, off, SIZE[t], t, self.order)

    def at(self, p, off, t):
        if not (isinstance(p, tuple) and p[0] == "ptr"):
            raise Unresolved("no address")
        return self.mem(p[1], p[2] + off, t)


def returned(E):
    """the returned value of this sample"""
    for o in E.e.obs:
        if o.kind == "return" and not o.fail:
            for s in E.instances(o):
                if s.pc(o.pc) is True:
                    return s.ev(o.v)
    raise Unresolved("no return")


CALLPATHS = {}


def callpath(ctx):
    """the calls that lead to a context"""
    r = CALLPATHS.get(ctx)
    if r is None:
        r = []; x = ctx
        while isinstance(x, int):
            n = fun.un(x)
            if not isinstance(n, tuple) or n[0] not in ("it", "call", "run"):
                break
            if n[0] == "call":
                r.append(n[2:])
            x = n[1]
        r = CALLPATHS[ctx] = tuple(r)
    return r


def effects(E, *kinds, name=None):
    """instances of recorded effects on the path of this sample, in execution order"""
    out = []
    for o in E.e.obs:
        if o.kind not in kinds or o.fail and E.nofail:
            continue
        if name is not None and not (o.v and o.v[0] == "fn" and o.v[1] == name):
            continue
        for s in E.instances(o):
            c = s.pc(o.pc)
            if c is None:
                raise Unresolved("path")
            if c:
                out.append(At(E, o, s))
    out.sort(key=lambda a: a.order)
    # one call of one function at one place in one iteration happens once: it was recorded on several paths
    r = []; seen = {}
    for a in out:
        k = (callpath(a.o.ctx), a.o.inst.fn.name, a.o.inst.id, tuple(x[1] for x in a.order[:-1]))
        if k in seen:
            b = seen[k]
            if (a.o.p, a.o.extra, a.o.v) == (b.o.p, b.o.extra, b.o.v):
                continue
            if a.o.kind != b.o.kind or a.o.p is not None and a.s.addr(a.o.p) != b.s.addr(b.o.p):
                raise Unresolved("one effect on two paths")
            if a.o.extra is not None and (a.target(), a.args()) != (b.target(), b.args()):
                raise Unresolved("one effect on two paths")
            continue
        seen[k] = a
        r.append(a)
    return r


def base_name(S, b):
    if b[0] in ("arg", "param"):
        return S.f.params[b[1]]["name"]
    if b[0] == "n":
        return "%s %s" % b[1:3]
    if b[0] == "m":
        return base_name(S, b[1]) + "->%d" % b[2]
    return str(b[1])


def show(x):
    if isinstance(x, float):
        return "%g" % x
    if isinstance(x, tuple) and x[0] == "ptr":
        return "address %s+%d" % (x[1], x[2])
    return str(x)


def inplace(name, other):
    """engine for calls in which two pointer parameters are the same"""
    return type("InPlace", (FunEngine,), {"SAME": (name, other)})


def check_fn(mod, fn, specf, samples=24, seed=1, engine=FunEngine, opts=None, engcache=None, verdict=None):
    V = verdict or Verdict(fn)
    if fn in mod.changed:
        raise Unresolved("other parameters")
    if engcache is not None and fn in engcache:
        eng = engcache[fn]
    else:
        eng = engine(mod, opts)
        eng.analyze(fn)
        if engcache is not None:
            engcache[fn] = eng
    rnd = random.Random("%s %s" % (fn, seed))
    for i in range(samples):
        S = Sample(eng, fn, rnd)
        try:
            specf(S)
        except Skip:
            V.skipped += 1
            continue
        try:
            run_sample(S, V)
        except fun.Budget:
            V.unknown("too many steps")
        if len({b[0] for b in V.bad}) > 3 or len(V.bad) > 400 or sum(b[0] == "endless:return" for b in V.bad) > 2:
            break
    V.obs = len(eng.obs)
    return V
