"""Forward abstract interpreter over the LLVM-derived IR.

Abstract domain: a disjunction of states; a state maps SSA values to abstract values (constants, pointers
to abstract objects, opaque symbols, hash-consed terms), keeps one abstract object per allocation site and
calling context (with ownership status), interval facts per term and an order/equality fact table that is
closed transitively.  States are merged at control-flow joins and at call returns; loops are analysed with a
fixed number of distinguished first iterations followed by a widened iteration in which every SSA value and
memory cell modified by the loop is havocked, so the loop body is covered for every later iteration.
No solver is involved and nothing from the repository is executed.
"""
import math
import sys
sys.setrecursionlimit(20000)

_tab = {}
_rev = []


def intern(x):
    i = _tab.get(x)
    if i is None:
        i = len(_rev); _tab[x] = i; _rev.append(x)
    return i


def un(i):
    return _rev[i]


I0 = ("i", 0)
I1 = ("i", 1)
UNDEF = ("undef",)


def width(t):
    if t == "ptr":
        return 64
    if t.startswith("i") and t[1:].isdigit():
        return int(t[1:])
    if t == "double":
        return 64
    if t == "float":
        return 32
    return 0


def is_int(t):
    return t.startswith("i") and t[1:].isdigit()


def sym(name, w):
    return ("s", intern(name), w)


_depth = {}


def depth_of(v):
    if v[0] == "o":
        return _depth.get(v[1], 1)
    return 0


def op(opcode, w, *args):
    n = intern((opcode, w) + args)
    if n not in _depth:
        _depth[n] = 1 + max([depth_of(a) for a in args if isinstance(a, tuple)] + [0])
    return ("o", n, w)


def opargs(v):
    return un(v[1]) if v[0] == "o" else None


# ---- linear terms modulo 2^w -------------------------------------------------
def lin_of(v, w):
    """-> (const, {atom: coef})"""
    if v[0] == "i":
        return v[1] % (1 << w), {}
    if v[0] == "o":
        a = un(v[1])
        if a[0] == "lin" and a[1] == w:
            return a[2], dict((t, c) for c, t in a[3])
    return 0, {v: 1}


def mk_lin(c, d, w):
    m = 1 << w
    c %= m
    d = {t: k % m for t, k in d.items() if k % m}
    if not d:
        return ("i", c)
    if c == 0 and len(d) == 1:
        t, k = next(iter(d.items()))
        if k == 1:
            return t
    items = tuple(sorted(((k, t) for t, k in d.items()), key=lambda x: (x[1], x[0])))
    n = intern(("lin", w, c, items))
    if n not in _depth:
        _depth[n] = 1 + max(depth_of(t) for _, t in items)
    return ("o", n, w)


def lin_add(a, b, w, sign=1):
    ca, da = lin_of(a, w); cb, db = lin_of(b, w)
    for t, k in db.items():
        da[t] = da.get(t, 0) + sign * k
    return mk_lin(ca + sign * cb, da, w)


def lin_scale(a, k, w):
    c, d = lin_of(a, w)
    return mk_lin(c * k, {t: x * k for t, x in d.items()}, w)


def signed(n, w):
    n %= 1 << w
    return n - (1 << w) if n >> (w - 1) else n


class Obj:
    """immutable once shared; use clone()"""
    __slots__ = ("kind", "cells", "default", "ver", "unk", "size", "freed", "meta", "alias", "esc", "_key")

    def __init__(self, kind, default, size=None, meta=None):
        self.kind = kind; self.cells = {}; self.default = default; self.ver = 0; self.unk = frozenset(); self.size = size
        self.freed = None; self.meta = meta; self.alias = (); self.esc = False; self._key = None

    def clone(self):
        o = Obj.__new__(Obj)
        o.kind = self.kind; o.cells = dict(self.cells); o.default = self.default; o.ver = self.ver; o.unk = self.unk; o.size = self.size
        o.freed = self.freed; o.meta = self.meta; o.alias = self.alias; o.esc = self.esc; o._key = None
        return o

    def key(self):
        if self._key is None:
            self._key = intern(("objkey", self.kind, frozenset(self.cells.items()), self.default, self.ver, self.unk, self.size, self.freed, self.alias, self.esc))
        return self._key


class State:
    __slots__ = ("env", "stack", "heap", "rng", "facts", "fail", "trace", "frame", "extra")

    def __init__(self):
        self.env = {}; self.stack = (); self.heap = {}; self.rng = {}; self.facts = {}; self.fail = frozenset(); self.trace = None; self.frame = (); self.extra = None

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.stack = self.stack; s.heap = dict(self.heap); s.rng = dict(self.rng); s.facts = dict(self.facts)
        s.fail = self.fail; s.trace = self.trace; s.frame = self.frame; s.extra = self.extra
        return s

    def key(self, facts=True):
        k = (frozenset(self.env.items()), tuple(frozenset(e.items()) for e, _ in self.stack), frozenset((o, x.key()) for o, x in self.heap.items()), bool(self.fail), self.extra)
        if facts:
            k += (frozenset(self.rng.items()), frozenset(self.facts.items()))
        return k

    def wobj(self, oid):
        o = self.heap[oid].clone(); self.heap[oid] = o; return o


class Violation:
    def __init__(self, kind, inst, msg, trace, entry, extra=None):
        self.kind = kind; self.inst = inst; self.msg = msg; self.trace = trace; self.entry = entry; self.extra = extra
        self.fn = inst.fn.name if inst is not None else entry
        self.file, self.line = inst.loc if inst is not None else ("?", 0)

    def dedup(self):
        return (self.kind, self.fn, self.line, self.extra)


class Budget(Exception):
    pass


class Engine:
    K_ENTRY = None    # same for loops of the function the analysis starts from
    K = 1             # distinguished loop iterations (loops with a small constant bound are followed up to 5)
    SMALL = 3
    L1 = 4            # states per point before fact-only joins
    L2 = 8            # states per point before value joins
    MAXDEPTH = 26
    MAXINST = 1500000
    VERCAP = 3

    def __init__(self, mod, opts=None):
        self.m = mod
        self.violations = {}
        self.entry = None
        self.wlogs = []
        self.callstack = []
        self.stats = {"insts": 0, "states": 0, "calls": 0, "loops": 0, "joins": 0, "branches": 0, "allocs": 0, "frees": 0, "loads": 0, "stores": 0, "fail_branches": 0, "derefs": 0}
        self.covered = set()
        self.opaque = set()       # functions treated as opaque calls
        self.havoc_ok = True
        self.entry_insts = 0
        self.ctx = intern(("ctx",))
        self.sites = {"alloc": set(), "free": set(), "callback": set(), "ret": set(), "fail": set(), "mem": set(), "ext": set()}

    # ------------------------------------------------------------ reporting
    def report(self, kind, inst, msg, st, extra=None):
        v = Violation(kind, inst, msg, self.trace_list(st), self.entry, extra)
        self.violations.setdefault(v.dedup(), v)

    def trace_list(self, st):
        out = []; t = st.trace
        while t is not None and len(out) < 60:
            out.append(t[0]); t = t[1]
        return out[::-1]

    # ------------------------------------------------------------ ranges and facts
    def rng(self, st, v):
        if v[0] == "i":
            return (v[1], v[1])
        w = v[2] if len(v) > 2 and v[0] in ("s", "o") else 64
        full = (0, (1 << w) - 1) if w else (0, 0)
        r = st.rng.get(v)
        b = full
        if v[0] == "o":
            a = un(v[1])
            if a[0] == "zext":
                b = self.rng(st, a[2]) if a[2][0] != "b" else (0, 1)
            elif a[0] == "and":
                hi = min(self.rng(st, a[2])[1], self.rng(st, a[3])[1]); b = (0, hi)
            elif a[0] == "urem":
                m = self.rng(st, a[3])
                hi = m[1] - 1 if m[1] > 0 else full[1]
                b = (0, min(hi, self.rng(st, a[2])[1]) if m[1] > 0 else hi)
            elif a[0] == "udiv":
                x = self.rng(st, a[2]); y = self.rng(st, a[3])
                b = (x[0] // max(y[1], 1), x[1] // max(y[0], 1))
            elif a[0] == "lshr" and a[3][0] == "i":
                x = self.rng(st, a[2]); b = (x[0] >> a[3][1], x[1] >> a[3][1])
            elif a[0] == "trunc":
                x = self.rng(st, a[2])
                if x[1] <= full[1]:
                    b = x
            elif a[0] == "lin" and w:
                lo = hi = a[2] if a[2] < (1 << (w - 1)) or len(a[3]) == 0 else a[2] - (1 << w)
                for k, t in a[3]:
                    k = signed(k, w); x = self.rng(st, t)
                    if k > 0:
                        lo += k * x[0]; hi += k * x[1]
                    else:
                        lo += k * x[1]; hi += k * x[0]
                if 0 <= lo and hi <= full[1]:
                    b = (lo, hi)
            elif a[0] == "select":
                x = self.rng(st, a[3]); y = self.rng(st, a[4]); b = (min(x[0], y[0]), max(x[1], y[1]))
        if r is None:
            return b
        return (max(r[0], b[0]), min(r[1], b[1]))

    def norm(self, st, v):
        if v[0] in ("s", "o"):
            r = st.rng.get(v)
            if r is not None and r[0] == r[1]:
                return ("i", r[0])
        return v

    def norm_lin(self, st, v):
        v = self.norm(st, v)
        if v[0] == "o":
            a = un(v[1])
            if a[0] == "lin" and any(st.rng.get(t, (0, 1))[0] == st.rng.get(t, (0, 1))[1] for _, t in a[3]):
                w = a[1]; r = ("i", a[2])
                for k, t in a[3]:
                    r = lin_add(r, lin_scale(self.norm(st, t), k, w), w)
                return self.norm(st, r)
        return v

    def set_rng(self, st, v, lo, hi):
        if v[0] == "i":
            return lo <= v[1] <= hi
        r = self.rng(st, v)
        lo = max(lo, r[0]); hi = min(hi, r[1])
        if lo > hi:
            return False
        st.rng[v] = (lo, hi)
        if lo == hi and r != (lo, hi) and not self.eq_propagate(st, v, ("i", lo)):
            return False
        a = opargs(v)
        if a:
            if a[0] == "zext" and a[2][0] in ("s", "o"):
                return self.set_rng(st, a[2], lo, hi)
            if a[0] == "lin" and len(a[3]) == 1 and a[3][0][0] == 1:
                # c + t in [lo,hi] without wrap -> t in [lo-c, hi-c] when that is certain
                w = a[1]; c = signed(a[2], w); t = a[3][0][1]; tr = self.rng(st, t)
                if tr[0] + c >= 0 and tr[1] + c < (1 << w):
                    return self.set_rng(st, t, max(0, lo - c), hi - c)
                if lo == hi:
                    x = (lo - a[2]) % (1 << w)
                    return self.set_rng(st, t, x, x)
            elif a[0] == "lin" and len(a[3]) == 1 and a[2] == 0 and 1 < a[3][0][0] < (1 << (a[1] // 2)):
                # k * t in [lo,hi]: sizes are assumed not to overflow, so t in [lo/k, hi/k]
                k, t = a[3][0]
                return self.set_rng(st, t, -(-lo // k), hi // k)
        return True

    # order graph over terms: list of (a, b, strict) meaning a < b or a <= b (unsigned)
    def edges(self, st):
        out = {}
        for at, val in st.facts.items():
            k = at[0]
            if k == "ult":
                if val:
                    out.setdefault(at[1], []).append((at[2], 1))
                else:
                    out.setdefault(at[2], []).append((at[1], 0))
            elif k == "eq" and val:
                out.setdefault(at[1], []).append((at[2], 0)); out.setdefault(at[2], []).append((at[1], 0))
        return out

    def leq(self, st, a, b, strict=False):
        """prove a <= b (or a < b) from ranges and the fact graph"""
        if a == b and not strict:
            return True
        ra = self.rng(st, a); rb = self.rng(st, b)
        if (ra[1] < rb[0]) or (not strict and ra[1] <= rb[0]):
            return True
        e = self.edges(st)
        # longest strictness path search, small graphs
        best = {a: 0}; work = [a]
        while work:
            x = work.pop()
            for y, s in e.get(x, ()):
                n = best[x] | s
                if y not in best or n > best[y]:
                    best[y] = n; work.append(y)
        for y, s in best.items():
            if y == b and (s or not strict):
                return True
            ry = self.rng(st, y)
            if ry[1] < rb[0] or (ry[1] <= rb[0] and (s or not strict)):
                return True
        # min/max style terms and remainders
        pa = opargs(a)
        if pa:
            if pa[0] == "zext" and pa[2][0] in ("s", "o"):
                pb = opargs(b)
                if pb and pb[0] == "zext" and pb[2][0] in ("s", "o"):
                    return self.leq(st, pa[2], pb[2], strict)
            if pa[0] == "urem" and self.leq(st, pa[3], b, False):
                return True
            if pa[0] == "udiv" and not strict and self.leq(st, pa[2], b, False):
                return True
        return False

    def decide_atom(self, st, at):
        k = at[0]
        v = st.facts.get(at)
        if v is not None:
            return v
        if k == "eq":
            a, b = at[1], at[2]
            if a == b:
                return True
            ra = self.rng(st, a) if a[0] in ("i", "s", "o") else None
            rb = self.rng(st, b) if b[0] in ("i", "s", "o") else None
            if ra and rb:
                if ra[1] < rb[0] or rb[1] < ra[0]:
                    return False
                if ra[0] == ra[1] == rb[0] == rb[1]:
                    return True
            if a[0] in ("s", "o") or b[0] in ("s", "o"):
                if a[2:] and b[2:] and a[0] in ("s", "o") and b[0] in ("s", "o"):
                    if self.leq(st, a, b, True) or self.leq(st, b, a, True):
                        return False
                    if self.leq(st, a, b) and self.leq(st, b, a):
                        return True
            return None
        if k == "ult":
            a, b = at[1], at[2]
            if a == b:
                return False
            if self.leq(st, a, b, True):
                return True
            if self.leq(st, b, a, False):
                return False
            return None
        if k == "slt":
            a, b, w = at[1], at[2], at[3]
            if a == b:
                return False
            ra = self.rng(st, a); rb = self.rng(st, b)
            h = 1 << (w - 1)
            # both within the non-negative half, or constants
            def sr(r):
                if r[1] < h:
                    return r
                if r[0] >= h:
                    return (r[0] - 2 * h, r[1] - 2 * h)
                return (-h, h - 1)
            sa, sb = sr(ra), sr(rb)
            if sa[1] < sb[0]:
                return True
            if sa[0] >= sb[1]:
                return False
            return None
        if k == "fcmp":
            return None
        return None

    def decide(self, st, b):
        """b: boolean value"""
        if b[0] == "i":
            return bool(b[1] & 1)
        if b[0] == "b":
            r = self.decide_atom(st, un(b[1]))
            return None if r is None else (r == b[2])
        if b[0] == "o":
            a = un(b[1])
            if a[0] in ("and", "or"):
                x = self.decide(st, a[2]); y = self.decide(st, a[3])
                if a[0] == "and":
                    if x is False or y is False:
                        return False
                    if x and y:
                        return True
                else:
                    if x or y:
                        return True
                    if x is False and y is False:
                        return False
                return None
            if a[0] == "xor" and a[3] == I1:
                x = self.decide(st, a[2])
                return None if x is None else not x
            if a[0] == "select":
                c = self.decide(st, a[2])
                if c is not None:
                    return self.decide(st, a[3] if c else a[4])
        r = self.rng(st, b) if b[0] in ("s", "o") else None
        if r and r[0] == r[1]:
            return bool(r[0])
        return None

    def assume(self, st, b, val):
        """add b == val; returns False when contradictory"""
        d = self.decide(st, b)
        if d is not None:
            return d == val
        if b[0] == "b":
            return self.assume_atom(st, un(b[1]), val == b[2])
        if b[0] == "o":
            a = un(b[1])
            if a[0] == "and" and val or a[0] == "or" and not val:
                return self.assume(st, a[2], val) and self.assume(st, a[3], val)
            if a[0] == "xor" and a[3] == I1:
                return self.assume(st, a[2], not val)
        if b[0] in ("s", "o"):
            return self.set_rng(st, b, int(val), int(val))
        return True

    def assume_atom(self, st, at, val):
        k = at[0]
        if k == "eq":
            a, b = at[1], at[2]
            if b[0] == "i" and a[0] in ("s", "o"):
                if val:
                    st.facts[at] = val
                    if not self.set_rng(st, a, b[1], b[1]):
                        return False
                    return self.eq_propagate(st, a, b)
                pa = opargs(a)
                if pa and pa[0] in ("urem", "udiv", "and", "lshr") and b[1] == 0 and pa[2][0] in ("s", "o"):
                    if not self.set_rng(st, pa[2], 1, (1 << 64) - 1):
                        return False
                r = self.rng(st, a)
                if r[0] == b[1]:
                    if not self.set_rng(st, a, r[0] + 1, r[1]):
                        return False
                elif r[1] == b[1]:
                    if not self.set_rng(st, a, r[0], r[1] - 1):
                        return False
                st.facts[at] = val
                return True
            st.facts[at] = val
            if val and a[0] in ("s", "o") and b[0] in ("s", "o"):
                ra, rb = self.rng(st, a), self.rng(st, b)
                return self.set_rng(st, a, *rb) and self.set_rng(st, b, *ra)
            return True
        if k == "ult":
            a, b = at[1], at[2]
            st.facts[at] = val
            ra, rb = self.rng(st, a), self.rng(st, b)
            if val:
                return rb[1] > 0 and self.set_rng(st, a, 0, rb[1] - 1) and self.set_rng(st, b, ra[0] + 1, (1 << 64) - 1)
            return self.set_rng(st, a, rb[0], (1 << 64) - 1) and self.set_rng(st, b, 0, ra[1])
        if k == "slt":
            a, b, w = at[1], at[2], at[3]
            st.facts[at] = val
            h = 1 << (w - 1)
            if b[0] == "i" and a[0] in ("s", "o"):
                n = signed(b[1], w)
                if val and n <= 0:
                    return self.set_rng(st, a, h, 2 * h - 1 + n if n < 0 else 2 * h - 1)
                if not val and n >= 0:
                    return self.set_rng(st, a, n, h - 1)
            if a[0] == "i" and b[0] in ("s", "o"):
                n = signed(a[1], w)
                if val and n >= -1:
                    return self.set_rng(st, b, n + 1, h - 1)
            return True
        st.facts[at] = val
        return True

    def eq_propagate(self, st, a, b):
        """a takes the constant b: terms built directly from a become constants too"""
        for t, r in list(st.rng.items()):
            if t[0] == "o":
                q = un(t[1])
                if q[0] in ("urem", "udiv", "and") and q[2] == a and q[3][0] == "i" and q[3][1]:
                    n = {"urem": lambda x, y: x % y, "udiv": lambda x, y: x // y, "and": lambda x, y: x & y}[q[0]](b[1], q[3][1])
                    if not r[0] <= n <= r[1]:
                        return False
        return True

    # ------------------------------------------------------------ objects
    def obj(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.initial_obj(oid)
            st.heap[oid] = o
        return o

    def initial_obj(self, oid):
        n = un(oid)
        if n[0] == "G":
            g = self.m.globals.get(n[1])
            if g is not None and g["const"]:
                o = Obj("G", "const", ("i", g["sz"]))
            else:
                o = Obj("G", "ext", ("i", g["sz"]) if g else None)
            return o
        return Obj("X", "ext")

    def deref(self, st, v, inst, what="access"):
        """pointer value -> ('p',...) or None (path ends)"""
        if v[0] == "p":
            return v
        if v[0] == "undef":
            self.report("uninit-deref", inst, "%s through an uninitialised pointer" % what, st)
            return None
        if v[0] == "i":
            if v[1] < 4096:
                self.report("null-deref", inst, "%s through a null pointer" % what, st)
            return None
        if v[0] == "fn":
            return None
        v = self.norm(st, v)
        if v[0] == "i":
            if v[1] < 4096:
                self.report("null-deref", inst, "%s through a null pointer" % what, st)
            return None
        if v[0] in ("s", "o"):
            self.set_rng(st, v, 1, (1 << 64) - 1)
            return ("p", intern(("X", v)), 0, ())
        return None

    # offset key of a pointer
    @staticmethod
    def offkey(p):
        return p[2] if not p[3] else (p[2], p[3])

    def const_cell(self, oid, off, size):
        g = self.m.globals[un(oid)[1]]
        for o, s, v in g.get("init", []):
            if o == off and (s == size):
                return v
        return None

    def ld_sym(self, oid, offkey, ver, w):
        return sym(("ld", oid, offkey, ver), w)

    def default_value(self, st, oid, o, offkey, size, t):
        w = width(t) or size * 8
        if o.default == "const":
            if not isinstance(offkey, tuple):
                c = self.const_cell(oid, offkey, size)
                if c is not None:
                    return self.const_operand(c)
            return self.ld_sym(oid, offkey, 0, w)
        if o.default == "zero":
            if o.ver == 0:
                return I0 if t != "double" and t != "float" else ("f", "0")
            return self.ld_sym(oid, offkey, o.ver, w)
        if o.default == "undef" and o.ver == 0:
            return UNDEF
        return self.ld_sym(oid, offkey, o.ver, w)

    def const_operand(self, c):
        k = c["k"]
        if k == "i":
            return ("i", int(c["v"]))
        if k == "f":
            return ("f", c["v"])
        if k == "null" or k == "zero":
            return I0
        if k == "fn":
            return ("fn", c["n"])
        if k == "g":
            return ("p", intern(("G", c["n"])), 0, ())
        if k == "gep":
            g = c["gep"]; b = self.const_operand(g["b"])
            if b[0] == "p" and not g["vars"]:
                return ("p", b[1], b[2] + g["o"], b[3])
        if k == "undef":
            return UNDEF
        return sym(("const", repr(c)[:200]), 64)

    def may_overlap(self, off, size, lo, hi):
        return off < hi and lo < off + size

    def var_extent(self, p, size):
        """byte range a symbolic pointer may touch inside its object, or None when unbounded"""
        lo = p[2]; hi = p[2] + size
        for s, t, n in p[3]:
            if n is None or n < 0:
                return None
            hi += s * (n - 1)
        return lo, hi

    def load_mem(self, st, p, size, t, inst):
        oid = p[1]
        o = self.obj(st, oid)
        key = self.offkey(p)
        c = o.cells.get(key)
        if c is not None:
            if c[1] == size:
                return c[0]
            # little-endian narrowing of a constant
            if c[0][0] == "i" and not isinstance(key, tuple) and size < c[1]:
                return ("i", c[0][1] & ((1 << (8 * size)) - 1))
            return sym(("part", oid, key, size, c[0]), size * 8)
        if isinstance(key, tuple):
            ext = self.var_extent(p, size)
            hit = []
            for k, (v, s) in o.cells.items():
                if isinstance(k, tuple):
                    hit.append(v)
                elif ext is None or self.may_overlap(k, s, ext[0], ext[1]):
                    if ext is None and k < p[2]:
                        continue
                    hit.append(v)
            if hit or o.unk:
                ptrs = frozenset(v[1] for v in hit if v[0] == "p") | o.unk
                r = sym(("wk", oid, key, o.ver, intern(("hit", tuple(sorted(hit, key=repr))))), width(t) or size * 8)
                if ptrs and t == "ptr":
                    self.weak_ptrs[r] = ptrs
                return r
            if o.alias:
                for (lo, n, soid, soff, sver) in o.alias:
                    if soid != "zero" and (ext is None or (lo <= ext[0] and ext[1] <= lo + n)) and lo <= p[2] and p[2] + size <= lo + n:
                        so = self.obj(st, soid)
                        return self.default_value_src(st, soid, so, (soff + p[2] - lo, p[3]), size, t, sver)
                return sym(("wk", oid, key, o.ver), width(t) or size * 8)
            if o.default == "undef" and o.ver == 0 and o.kind == "H":
                return UNDEF
        else:
            for k, (v, s) in o.cells.items():
                if not isinstance(k, tuple) and k < key + size and key < k + s:
                    # overlapping access of different extent
                    if k <= key and key + size <= k + s:
                        if v == I0 or v == ("f", "0"):
                            return I0 if is_int(t) or t == "ptr" else ("f", "0")
                        return sym(("part", oid, key, size, v), size * 8)
                    return sym(("ovl", oid, key, size, o.ver, v), width(t) or size * 8)
        if not isinstance(key, tuple):
            for (lo, n, soid, soff, sver) in o.alias:
                if lo <= key < lo + n:
                    if soid == "zero":
                        return I0 if is_int(t) or t == "ptr" else ("f", "0")
                    so = self.obj(st, soid)
                    v = self.default_value_src(st, soid, so, soff + key - lo, size, t, sver)
                    return v
        return self.default_value(st, oid, o, key, size, t)

    def default_value_src(self, st, oid, o, off, size, t, ver):
        if o.default in ("ext", "unk"):
            return self.ld_sym(oid, off, ver, width(t) or size * 8)
        return self.default_value(st, oid, o, off, size, t)

    def store_mem(self, st, p, size, v, inst):
        oid = p[1]
        self.obj(st, oid)
        o = st.wobj(oid)
        key = self.offkey(p)
        if isinstance(key, tuple):
            ent = (oid, ("sym",), 0, None)
        else:
            ent = (oid, key, size, (inst.fn.name, inst.id) if inst is not None else None)
        for lg in self.wlogs:
            lg.add(ent)
        if isinstance(key, tuple):
            ext = self.var_extent(p, size)
            dead = []
            lost = set()
            for k, (cv, s) in o.cells.items():
                if k == key:
                    continue
                if isinstance(k, tuple):
                    if not self.distinct_offsets(k, key, s, size):
                        dead.append(k)
                        if cv[0] == "p":
                            lost.add(cv[1])
                elif ext is None:
                    if k >= p[2] and (s == size):
                        dead.append(k)
                        if cv[0] == "p":
                            lost.add(cv[1])
                elif self.may_overlap(k, s, ext[0], ext[1]):
                    dead.append(k)
                    if cv[0] == "p":
                        lost.add(cv[1])
            for k in dead:
                del o.cells[k]
            o.ver += 1 if o.ver < self.VERCAP else 0
            if lost:
                o.unk = o.unk | frozenset(lost)
            if ext is None or True:
                o.alias = tuple(a for a in o.alias if ext is not None and not (a[0] < ext[1] and ext[0] < a[0] + a[1]))
            o.cells[key] = (v, size)
        else:
            dead = [k for k, (cv, s) in o.cells.items() if (isinstance(k, tuple) and not self.const_distinct(k, key, size, s)) or (not isinstance(k, tuple) and k != key and k < key + size and key < k + s)]
            for k in dead:
                cv, s = o.cells[k]
                if cv[0] == "p" and isinstance(k, tuple):
                    o.unk = o.unk | {cv[1]}
                if not isinstance(k, tuple) and cv == I0:
                    # split a larger zero cell
                    for z in range(k, k + s):
                        pass
                del o.cells[k]
            o.cells[key] = (v, size)

    def distinct_offsets(self, a, b, sa, sb):
        return False

    def const_distinct(self, k, key, size, s):
        """symbolic cell k certainly does not overlap the constant range"""
        lo, vars_ = k
        hi = lo + s
        for sc, t, n in vars_:
            if n is None or n < 0:
                return key + size <= lo
            hi += sc * (n - 1)
        return key + size <= lo or hi <= key

    # ------------------------------------------------------------ memory copy / set
    def copy_mem(self, st, dst, src, n, inst):
        if dst[3] or src[3] or n is None:
            self.havoc_range(st, dst, n, inst, src)
            return
        so = self.obj(st, src[1])
        self.obj(st, dst[1])
        for lg in self.wlogs:
            lg.add((dst[1], ("range", dst[2], n), n, None))
        cells = {k: c for k, c in so.cells.items() if not isinstance(k, tuple) and src[2] <= k and k + c[1] <= src[2] + n}
        symcells = [k for k in so.cells if isinstance(k, tuple)]
        alias = []
        for (lo, ln, soid, soff, sver) in so.alias:
            a = max(lo, src[2]); b = min(lo + ln, src[2] + n)
            if a < b:
                alias.append((a - src[2] + dst[2], b - a, soid, soff + a - lo if soid != "zero" else 0, sver))
        if so.default == "zero" and so.ver == 0:
            alias.append((dst[2], n, "zero", 0, 0))
        elif so.default in ("ext", "unk", "const") or so.ver:
            alias.append((dst[2], n, src[1], src[2], so.ver))
        d = st.wobj(dst[1])
        lo, hi = dst[2], dst[2] + n
        for k in [k for k, c in d.cells.items() if not isinstance(k, tuple) and k < hi and lo < k + c[1]]:
            del d.cells[k]
        d.alias = tuple(alias) + self.cut_alias(d.alias, lo, hi)
        for k, c in cells.items():
            d.cells[k - src[2] + dst[2]] = c
        if so.unk or symcells:
            ext = frozenset(so.cells[k][0][1] for k in symcells if so.cells[k][0][0] == "p")
            d.unk = d.unk | so.unk | ext
            if symcells:
                d.ver += 1 if d.ver < self.VERCAP else 0

    @staticmethod
    def cut_alias(alias, lo, hi):
        """the parts of the copied ranges that lie outside of [lo, hi)"""
        keep = []
        for (a, ln, x, y, z) in alias:
            if a < lo:
                keep.append((a, min(ln, lo - a), x, y, z))
            if a + ln > hi:
                b = max(a, hi)
                keep.append((b, a + ln - b, x, y + b - a if x != "zero" else 0, z))
        return tuple(keep)

    def havoc_range(self, st, dst, n, inst, src=None):
        """unknown contents written to [dst, dst+n) (n None = unbounded)"""
        oid = dst[1]
        self.obj(st, oid)
        o = st.wobj(oid)
        for lg in self.wlogs:
            lg.add((oid, ("range", dst[2], n if not dst[3] else None), n, None))
        lo = dst[2]; hi = None if (n is None or dst[3]) else lo + n
        dead = [k for k, c in o.cells.items() if isinstance(k, tuple) or (k + c[1] > lo and (hi is None or k < hi))]
        lost = frozenset(o.cells[k][0][1] for k in dead if o.cells[k][0][0] == "p")
        for k in dead:
            del o.cells[k]
        o.alias = tuple(a for a in o.alias if a[0] + a[1] <= lo or (hi is not None and a[0] >= hi))
        o.unk = o.unk | lost
        if src is not None:
            so = self.obj(st, src[1])
            o.unk = o.unk | so.unk | frozenset(c[0][1] for c in so.cells.values() if c[0][0] == "p")
        o.ver += 1 if o.ver < self.VERCAP else 0
        return o

    def havoc_obj(self, st, oid, tag):
        """arbitrary external code may have changed this object's contents"""
        o = self.obj(st, oid)
        if o.kind == "G" and o.default == "const":
            return
        o = st.wobj(oid)
        lost = frozenset(c[0][1] for c in o.cells.values() if c[0][0] == "p")
        o.cells = {}; o.alias = ()
        o.default = "ext"
        o.unk = o.unk | lost
        o.ver = o.ver + 1 if o.ver < self.VERCAP + 3 else o.ver
        for lg in self.wlogs:
            lg.add((oid, ("range", 0, None), None, None))

    # ------------------------------------------------------------ operands
    def val(self, st, o):
        k = o["k"]
        if k == "l":
            return st.env.get(o["n"], UNDEF)
        if k == "a":
            return st.env[("a", o["n"])]
        if k == "i":
            return ("i", int(o["v"]))
        if k == "null":
            return I0
        if k == "f":
            return ("f", o["v"])
        if k == "undef":
            return UNDEF
        if k == "fn":
            return ("fn", o["n"])
        if k == "g":
            return ("p", intern(("G", o["n"])), 0, ())
        if k == "gep":
            return self.gep(st, o["gep"], None)
        if k == "zero":
            t = o["t"]
            if t.startswith("{"):
                return ("agg", tuple(I0 for _ in t.split(",")))
            return I0
        if k == "agg":
            return ("agg", tuple(self.val(st, x) for x in o["ops"]))
        if k == "ce":
            return sym(("ce", o["op"]) + tuple(self.val(st, x) for x in o["ops"]), 64)
        return sym(("unkop",), 64)

    def gep(self, st, g, inst):
        b = self.norm(st, self.val(st, g["b"]))
        off = g["o"]
        vars_ = []
        for v in g["vars"]:
            t = self.norm(st, self.val(st, v["v"]))
            n = v["n"] if v["n"] >= 0 else None
            s = v["s"]
            if t[0] == "i":
                off += s * signed(t[1], 64); continue
            if t[0] == "undef":
                if inst is not None:
                    self.report("uninit-use", inst, "array index is uninitialised", st)
                t = sym(("undefidx", self.ctx), 64)
            a = opargs(t)
            if a and a[0] == "lin" and a[1] == 64:
                off += s * signed(a[2], 64)
                for k, x in a[3]:
                    vars_.append((s * signed(k, 64), x, None))
                continue
            if t[0] == "f" or t[0] == "agg":
                t = sym(("idx", t), 64)
            vars_.append((s, t, n))
        if b[0] == "i" and b[1] == 0 and not vars_ and off == 0:
            return I0
        if b[0] == "undef":
            return UNDEF if not vars_ else UNDEF
        if b[0] == "p":
            return self.mkptr(b[1], b[2] + off, b[3] + tuple(vars_))
        if b[0] in ("s", "o"):
            if off == 0 and not vars_:
                return b
            # pointer arithmetic on an opaque pointer: name the object by the base
            if b[0] == "s" or b[0] == "o":
                return self.mkptr(intern(("X", b)), off, tuple(vars_))
        if b[0] == "i":
            return ("i", (b[1] + off) % (1 << 64)) if not vars_ else sym(("nullarith", off), 64)
        return sym(("gep?", self.ctx, inst.id if inst else 0), 64)

    def mkptr(self, oid, c, vars_):
        if vars_:
            d = {}
            for s, t, n in vars_:
                if t in d:
                    d[t] = (d[t][0] + s, None)
                else:
                    d[t] = (s, n)
            vars_ = tuple(sorted(((s, t, n) for t, (s, n) in d.items() if s), key=repr))
        return ("p", oid, c, vars_)

    def limit(self, v, inst, t):
        if depth_of(v) > self.MAXDEPTH:
            return sym(("deep", self.ctx, inst.id), width(t) or 64)
        return v

    # ------------------------------------------------------------ boolean / comparison construction
    def mk_eq(self, a, b):
        if a == b and a[0] != "undef":
            return I1
        if a[0] == "i" and b[0] == "i":
            return I1 if a[1] == b[1] else I0
        if b[0] != "i" and (a[0] == "i" or repr(b) < repr(a)):
            a, b = b, a
        # pointers
        if a[0] in ("p", "fn") and b == I0:
            return I0
        if a[0] == "fn" and b[0] == "fn":
            return I0
        if a[0] == "p" and b[0] == "p":
            if a[1] == b[1]:
                if not a[3] and not b[3]:
                    return I0
            else:
                ka, kb = un(a[1])[0], un(b[1])[0]
                if ka in ("H", "A", "F") or kb in ("H", "A", "F"):
                    return I0
        return ("b", intern(("eq", a, b)), True)

    def as_bool(self, v):
        """if v is an integer built from a boolean, return that boolean"""
        if v[0] == "b":
            return v
        a = opargs(v)
        if a and a[0] in ("zext", "trunc", "sext") and a[2][0] in ("b", "o"):
            return self.as_bool(a[2])
        if a and v[2] == 1:
            return v
        return None

    def neg(self, b):
        if b[0] == "i":
            return ("i", 1 - (b[1] & 1))
        if b[0] == "b":
            return ("b", b[1], not b[2])
        return op("xor", 1, b, I1)

    def pcmp(self, st, pred, a, b):
        """comparison of two pointers into one object, as a comparison of the indices"""
        d = {}; c = a[2] - b[2]
        for k, p in ((1, a), (-1, b)):
            for s, t, n in p[3]:
                t = self.norm(st, t)
                if t[0] == "i":
                    c += k * s * signed(t[1], 64); continue
                d[t] = d.get(t, 0) + k * s
        d = {t: s for t, s in d.items() if s}
        if not d:
            return I1 if {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[pred if len(pred) == 2 else pred[1:]] else I0
        g = 0
        for s in d.values():
            g = math.gcd(g, s)
        if any(t[0] not in ("s", "o") or t[2] != 64 for t in d):
            return None
        left = right = ("i", 0)
        for t, s in d.items():
            if s > 0:
                left = lin_add(left, lin_scale(t, abs(s) // g, 64), 64)
            else:
                right = lin_add(right, lin_scale(t, abs(s) // g, 64), 64)
        if pred in ("eq", "ne"):
            if c % g:
                return I0 if pred == "eq" else I1
            q = c // g
        else:
            # g*left + c < g*right: without a common multiple there is no equality, so round towards strictness
            down = pred[1:] in ("lt", "le")
            q = c // g if down else -((-c) // g)
            pred = "s" + (("lt" if down else "gt") if c % g else pred[1:])
        if left == ("i", 0):
            left, right, q = right, left, -q
            pred = {"eq": "eq", "ne": "ne", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}[pred]
        # every index counts elements of one object, so that the sums stay far from wrapping
        if q < 0:
            right = lin_add(right, ("i", -q), 64)
        elif q:
            left = lin_add(left, ("i", q), 64)
        return self.icmp(st, pred, left, right, "i64")

    def icmp(self, st, pred, a, b, t):
        w = width(t)
        a = self.norm_lin(st, a); b = self.norm_lin(st, b)
        if a[0] == "p" and b[0] == "p" and a[1] == b[1] and (a[3] or b[3]):
            r = self.pcmp(st, pred, a, b)
            if r is not None:
                return r
        if pred in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if y[0] == "i" and y[1] in (0, 1):
                    bb = self.as_bool(x)
                    if bb is not None:
                        r = bb if y[1] == 1 else self.neg(bb)
                        return r if pred == "eq" else self.neg(r)
            # strip matching zexts
            pa, pb = opargs(a), opargs(b)
            if pa and pa[0] == "zext" and b[0] == "i" and pa[2][0] in ("s", "o"):
                if b[1] < (1 << pa[2][2]):
                    a = pa[2]
            elif pa and pb and pa[0] == "zext" and pb[0] == "zext" and pa[2][2:] == pb[2][2:]:
                a, b = pa[2], pb[2]
            if a[0] in ("s", "o") and b[0] in ("s", "o", "i") and w:
                # a - b == 0 form
                d = lin_add(a, b, a[2] if a[0] != "i" else w, -1) if (b[0] == "i" or b[2] == a[2]) else None
                if d is not None and d[0] == "i":
                    r = I1 if d[1] == 0 else I0
                    return r if pred == "eq" else self.neg(r)
                pa = opargs(a)
                if b[0] == "i" and pa and pa[0] == "lin":
                    c, dd = lin_of(a, a[2])
                    if len(dd) == 1:
                        (x, k), = dd.items()
                        if k == 1:
                            a, b = x, ("i", (b[1] - c) % (1 << a[2]))
                    elif len(dd) == 2 and sorted(dd.values()) == [1, (1 << a[2]) - 1] and b[1] == c:
                        (x, k), (y, l) = dd.items()
                        a, b = x, y
            r = self.mk_eq(a, b)
            return r if pred == "eq" else self.neg(r)
        if a[0] == "p" or b[0] == "p":
            if a[0] == "p" and b[0] == "p" and a[1] == b[1] and not a[3] and not b[3]:
                x, y = a[2], b[2]
                r = {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred]
                return I1 if r else I0
            return sym(("pcmp", pred, a, b), 1)
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if pred[0] == "s":
                x, y = signed(x, w), signed(y, w)
            r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
            return I1 if r else I0
        if pred[1:] in ("gt", "ge"):
            a, b = b, a; pred = pred[0] + {"gt": "lt", "ge": "le"}[pred[1:]]
        pol = True
        if pred[1:] == "le":
            a, b = b, a; pol = False
        # now pred is lt: atom lt(a,b)
        if pred[0] == "u":
            pa, pb = opargs(a), opargs(b)
            sa = pa[2] if pa and pa[0] == "zext" and pa[2][0] in ("s", "o") else None
            sb = pb[2] if pb and pb[0] == "zext" and pb[2][0] in ("s", "o") else None
            if sa and sb and sa[2] == sb[2]:
                a, b = sa, sb
            elif sa and b[0] == "i" and b[1] < (1 << sa[2]):
                a = sa
            elif sb and a[0] == "i" and a[1] < (1 << sb[2]):
                b = sb
            if a == b:
                return I0 if pol else I1
            at = ("ult", a, b)
            if b == I1:
                at = ("eq", a, I0)
            elif a == I0:
                at = ("eq", b, I0); pol = not pol
            return ("b", intern(at), pol)
        # signed compare of zero-extended narrower values behaves like unsigned
        ra = self.rng(st, a) if a[0] in ("i", "s", "o") else None
        rb = self.rng(st, b) if b[0] in ("i", "s", "o") else None
        if ra and rb and ra[1] < (1 << (w - 1)) and rb[1] < (1 << (w - 1)):
            return self.icmp(st, "ult" if pol else "uge", a, b, t)
        if a == b:
            return I0 if pol else I1
        return ("b", intern(("slt", a, b, w)), pol)

    def fcmp(self, pred, a, b):
        if pred in ("ogt", "oge", "ugt", "uge"):
            a, b = b, a; pred = pred.replace("g", "l")
        if a[0] == "f" and b[0] == "f":
            x, y = float(a[1]), float(b[1])
            r = {"olt": x < y, "ole": x <= y, "oeq": x == y, "une": x != y, "ult": x < y, "ule": x <= y, "one": x != y}.get(pred)
            if r is not None:
                return I1 if r else I0
        if pred == "une":
            return ("b", intern(("fcmp", "oeq") + tuple(sorted((a, b), key=repr))), False)
        if pred == "oeq":
            return ("b", intern(("fcmp", "oeq") + tuple(sorted((a, b), key=repr))), True)
        return ("b", intern(("fcmp", pred, a, b)), True)

    def binop(self, st, opc, a, b, t, inst):
        if a[0] == "undef" or b[0] == "undef":
            if opc == "and" and (a[0] == "i" or b[0] == "i") and width(t) > 1:
                return I0     # packing of a struct return value; the masked-out part is overwritten
            if opc == "or" and a[0] != b[0] and width(t) >= 16:
                return b if a[0] == "undef" else a     # padding of a packed struct
            return UNDEF
        if not is_int(t):
            return op(opc, width(t), a, b)
        w = width(t); m = 1 << w
        a = self.norm(st, a); b = self.norm(st, b)
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "udiv": lambda: x // y, "urem": lambda: x % y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: x >> y, "ashr": lambda: signed(x, w) >> y, "sdiv": lambda: int(signed(x, w) / signed(y, w)), "srem": lambda: signed(x, w) - signed(y, w) * int(signed(x, w) / signed(y, w))}[opc]()
                return ("i", r % m)
            except ZeroDivisionError:
                return UNDEF
        if w == 1:
            if opc == "xor":
                if b[0] == "i":
                    return self.neg(a) if b[1] & 1 else a
                if a[0] == "i":
                    return self.neg(b) if a[1] & 1 else b
            if opc in ("and", "or"):
                for x, y in ((a, b), (b, a)):
                    if x[0] == "i":
                        if opc == "and":
                            return y if x[1] & 1 else I0
                        return I1 if x[1] & 1 else y
            return op(opc, 1, *sorted((a, b), key=repr))
        if a[0] == "p" or b[0] == "p" or a[0] == "agg" or b[0] == "agg":
            return op(opc, w, a, b)
        if opc == "add":
            return lin_add(a, b, w)
        if opc == "sub":
            return lin_add(a, b, w, -1)
        if opc == "mul":
            if b[0] == "i":
                return lin_scale(a, b[1], w)
            if a[0] == "i":
                return lin_scale(b, a[1], w)
            return op("mul", w, *sorted((a, b), key=repr))
        if opc == "shl" and b[0] == "i":
            return lin_scale(a, 1 << b[1], w)
        if opc in ("udiv", "urem") and b == I1:
            return a if opc == "udiv" else I0
        if opc == "lshr" and b[0] == "i" and 0 < b[1] < w:
            pa = opargs(a)
            if pa and pa[0] in ("or", "and"):
                x = self.bits(a, w, b[1], w - b[1])
                if x is not None:
                    return x if x[0] == "i" else op("zext", w, x)
            return op("udiv", w, a, ("i", 1 << b[1]))
        if opc == "and" and b[0] == "i" and (b[1] & (b[1] + 1)) == 0 and b[1]:
            r = self.rng(st, a) if a[0] in ("s", "o") else None
            if r and r[1] <= b[1]:
                return a
        if opc in ("and", "or", "xor"):
            return op(opc, w, *sorted((a, b), key=repr))
        return op(opc, w, a, b)

    def bits(self, v, w, lo, n):
        """the value of bits [lo, lo+n) of v (w bits wide) when it is one of the pieces v was packed from"""
        if v[0] == "i":
            return ("i", (v[1] >> lo) & ((1 << n) - 1))
        if v[0] in ("s", "o") and lo == 0 and n == w and v[2] == w:
            return v
        a = opargs(v)
        if a is None:
            return None
        if a[0] == "zext":
            x = a[2]; iw = 1 if x[0] == "b" else x[2] if len(x) > 2 else 0
            if lo >= iw:
                return I0
            if lo == 0 and n == iw:
                return x
            if lo + n <= iw:
                return self.bits(x, iw, lo, n)
            if lo == 0:
                return op("zext", n, x)
            return None
        if a[0] == "or":
            p = self.bits(a[2], w, lo, n); q = self.bits(a[3], w, lo, n)
            if p == I0:
                return q
            if q == I0:
                return p
            return None
        if a[0] == "and" and a[2][0] == "i":
            a = (a[0], a[1], a[3], a[2])
        if a[0] == "and" and a[3][0] == "i":
            m = (a[3][1] >> lo) & ((1 << n) - 1)
            if m == 0:
                return I0
            if m == (1 << n) - 1:
                return self.bits(a[2], w, lo, n)
            return None
        if a[0] == "lin" and a[2] == 0 and len(a[3]) == 1:
            k, x = a[3][0]
            if k & (k - 1) == 0:
                s = k.bit_length() - 1
                if lo + n <= s:
                    return I0
                if lo >= s:
                    return self.bits(x, w, lo - s, n)
            return None
        if a[0] == "udiv" and a[3][0] == "i" and a[3][1] & (a[3][1] - 1) == 0:
            s = a[3][1].bit_length() - 1
            if lo + s + n <= w:
                return self.bits(a[2], w, lo + s, n)
            if lo + s >= w:
                return I0
        return None

    def cast(self, st, opc, a, frm, to):
        if a[0] == "undef":
            return UNDEF
        wf, wt = width(frm), width(to)
        if opc in ("bitcast", "ptrtoint", "inttoptr"):
            return a
        a = self.norm(st, a) if a[0] in ("s", "o") else a
        if a[0] == "i":
            if opc in ("zext", "trunc"):
                return ("i", a[1] % (1 << wt))
            if opc == "sext":
                return ("i", signed(a[1], wf) % (1 << wt))
            if opc == "uitofp":
                return ("f", repr(float(a[1])).replace(".0", "") if a[1] < 1 << 53 else repr(float(a[1])))
            if opc == "sitofp":
                return ("f", repr(float(signed(a[1], wf))).replace(".0", ""))
        if a[0] == "f" and opc in ("fpext", "fptrunc"):
            return a
        if opc in ("zext", "sext") and wf == 1 and opc == "zext" and a[0] in ("b", "s", "o"):
            return op("zext", wt, a)
        if opc == "trunc":
            pa = opargs(a)
            if pa and pa[0] in ("zext", "sext") and pa[2][0] in ("s", "o") and pa[2][2] == wt:
                return pa[2]
            if pa and pa[0] == "zext" and pa[2][0] == "b" and wt == 1:
                return pa[2]
            if pa and pa[0] in ("or", "udiv", "and"):
                x = self.bits(a, wf, 0, wt)
                if x is not None:
                    return x
            if pa and pa[0] == "lin":
                # truncation distributes over modular sums
                c, d = lin_of(a, a[2]); parts = ("i", c % (1 << wt))
                for x, k in d.items():
                    parts = lin_add(parts, lin_scale(self.cast(st, "trunc", x, frm, to), k, wt), wt)
                return parts
            r = self.rng(st, a) if a[0] in ("s", "o") else None
            if wt == 1 and r and r[1] <= 1:
                ab = self.as_bool(a)
                if ab is not None:
                    return ab
        if opc in ("zext", "sext"):
            pa = opargs(a)
            if pa and pa[0] == "zext":      # the sign bit of a zero-extended value is zero
                return op("zext", wt, pa[2])
        return op(opc, wt, a)

    # ------------------------------------------------------------ entry
    def default_params(self, f, st):
        args = []
        for i, p in enumerate(f.params):
            if "byval" in p or "sret" in p:
                oid = intern(("X", ("param", f.name, i)))
                o = Obj("A", "ext" if "byval" in p else "undef", ("i", p["bsz"]))
                st.heap[oid] = o
                args.append(("p", oid, 0, ()))
            elif p["t"] == "ptr":
                args.append(sym(("arg", f.name, i, p["name"]), 64))
            else:
                v = sym(("arg", f.name, i, p["name"]), width(p["t"]) or 64)
                r = self.param_range(f, p, i)
                if r:
                    st.rng[v] = r
                args.append(v)
        return args

    def param_range(self, f, p, i):
        if p["name"] == "channel_count" and p["t"] == "i8":
            return (0, 2)
        if f.name in ("Fft_transformRadix2", "Fft_transformBluestein", "Fft_convolveComplex", "Fft_convolveReal") and p["t"] == "i64":
            return (1, (1 << 64) - 1)     # internal kernels, called by Fft_transform for non-empty input only
        return None

    def analyze(self, name, setup=None):
        f = self.m.fns[name]
        self.entry = name
        self.entry_insts = 0
        self.wlogs = []
        self.callstack = []
        self.weak_ptrs = {}
        self.list_nodes = set()
        self.ctx = intern(("ctx", name))
        st = State()
        args = self.default_params(f, st)
        self.entry_args = args
        if setup:
            setup(self, f, st, args)
        outs = self.exec_fn(f, args, st, None)
        for s, rv, inst in outs:
            self.on_entry_return(f, s, rv, inst)
        return outs

    def on_entry_return(self, f, st, rv, inst):
        pass

    # ------------------------------------------------------------ function execution
    def exec_fn(self, f, args, st, callinst):
        """-> list of (state, retval, retinst)"""
        self.callstack.append(f.name)
        self.stats["calls"] += 1
        self.covered.add(f.name)
        saved = self.ctx
        if callinst is not None:
            self.ctx = intern(("call", saved, callinst.fn.name, callinst.id))
        before = frozenset(st.heap) if callinst is not None else None
        cctx = self.ctx
        env = {("a", i): v for i, v in enumerate(args)}
        st.stack = st.stack + ((st.env, st.frame),)
        st.env = env
        st.frame = ()
        rets = []
        region = set(range(len(f.blocks)))
        exits = self.run_region(f, 0, {0: [st]}, region, None, rets)
        self.ctx = saved
        out = []
        for s, rv, inst in rets:
            penv, pframe = s.stack[-1]
            s.stack = s.stack[:-1]
            dead = s.frame
            if callinst is not None:
                for oid in dead:
                    s.heap.pop(oid, None)
            s.env = dict(penv); s.frame = pframe
            if callinst is not None and self.collapse:
                rv = self.canonical(s, rv, before, cctx)
            out.append((s, rv, inst))
        self.callstack.pop()
        if callinst is not None:
            out = self.merge_rets(out)
        return out

    def gc(self, s, rv):
        """forget released allocations nothing refers to any more"""
        dead = [oid for oid, o in s.heap.items() if o.freed is not None and o.kind in ("H", "F")]
        if not dead:
            return
        used = set()

        def mark(v):
            if v[0] == "p":
                used.add(v[1])
            elif v[0] == "agg":
                for x in v[1]:
                    mark(x)
            elif v in self.weak_ptrs:
                used.update(self.weak_ptrs[v])
        if rv is not None:
            mark(rv)
        for v in s.env.values():
            mark(v)
        for e, _ in s.stack:
            for v in e.values():
                mark(v)
        for o in s.heap.values():
            for c in o.cells.values():
                mark(c[0])
            used |= o.unk
            for a in o.alias:
                used.add(a[2])
        for oid in dead:
            if oid not in used:
                del s.heap[oid]

    collapse = True

    def canonical(self, s, rv, before, cctx):
        """rename the allocations made by the finished call after the place that refers to them, so that outcomes
        that differ only in where the memory came from become equal; forget numeric contents at symbolic offsets"""
        self.gc(s, rv)
        for oid, o in list(s.heap.items()):
            if o.kind == "X" and not o.ver and not o.cells and o.freed is None and not o.unk and not o.alias and o.default == "ext":
                if oid not in before:
                    del s.heap[oid]
                continue
            if o.kind == "H" and o.freed is None and not o.unk and (o.ver or o.default != "undef") and (o.size is None or o.size[0] != "i" or o.size[1] > 128) and not any(c[0][0] in ("p", "fn") for c in o.cells.values()):
                if o.cells or o.default != "undef" or o.alias or o.ver != 1:
                    o = s.wobj(oid)
                    o.cells = {}; o.default = "undef"; o.alias = (); o.ver = 1
                continue
            if o.ver or o.cells:
                sk = [k for k, c in o.cells.items() if isinstance(k, tuple) and c[0][0] != "p"]
                if sk or o.ver > 1:
                    o = s.wobj(oid)
                    for k in sk:
                        del o.cells[k]
                    o.ver = 1
        new = [oid for oid, o in s.heap.items() if oid not in before and o.kind in ("H", "F")]
        if not new:
            return rv
        newset = set(new)
        names = {}
        work = []

        def see(v, path):
            if v[0] == "p":
                if v[1] in newset and v[1] not in names:
                    kind = s.heap[v[1]].kind
                    n = intern((kind, cctx, "r", path))
                    if n in s.heap and n not in newset or n in names.values():
                        return
                    names[v[1]] = n
                    work.append((v[1], n))
            elif v[0] == "agg":
                for j, x in enumerate(v[1]):
                    see(x, path + (j,))
        if rv is not None:
            see(rv, ("rv",))
        for oid in sorted(s.heap):
            if oid in newset:
                continue
            for k, c in sorted(s.heap[oid].cells.items(), key=lambda x: (isinstance(x[0], tuple), repr(x[0]) if isinstance(x[0], tuple) else x[0])):
                see(c[0], (oid, "s" if isinstance(k, tuple) else k))
            for u in sorted(s.heap[oid].unk):
                see(("p", u), (oid, "u"))
        while work:
            oid, n = work.pop(0)
            for k, c in sorted(s.heap[oid].cells.items(), key=lambda x: (isinstance(x[0], tuple), repr(x[0]) if isinstance(x[0], tuple) else x[0])):
                see(c[0], (n, "s" if isinstance(k, tuple) else k))
            for u in sorted(s.heap[oid].unk):
                see(("p", u), (n, "u"))
        names = {k: v for k, v in names.items() if k != v}
        if not names or set(names.values()) & (set(s.heap) - set(names)):
            return rv

        def sub(v):
            if v[0] == "p" and v[1] in names:
                return ("p", names[v[1]], v[2], v[3])
            if v[0] == "agg":
                return ("agg", tuple(sub(x) for x in v[1]))
            if v[0] == "s" and v in self.weak_ptrs:
                w = self.weak_ptrs[v]
                if w & names.keys():
                    self.weak_ptrs[v] = w | frozenset(names[x] for x in w if x in names)
            return v
        s.env = {k: sub(v) for k, v in s.env.items()}
        s.stack = tuple((e, fr) if not any(v[0] in ("p", "agg", "s") and sub(v) != v for v in e.values()) else ({k: sub(v) for k, v in e.items()}, fr) for e, fr in s.stack)
        heap = {}
        for oid, o in s.heap.items():
            if any(sub(c[0]) != c[0] for c in o.cells.values()) or o.unk & names.keys() or any(a[2] in names for a in o.alias):
                o = o.clone()
                o.cells = {k: (sub(c[0]), c[1]) for k, c in o.cells.items()}
                o.unk = frozenset(names.get(u, u) for u in o.unk)
                o.alias = tuple((a[0], a[1], names.get(a[2], a[2]), a[3], a[4]) for a in o.alias)
            heap[names.get(oid, oid)] = o
        s.heap = heap
        for lg in self.wlogs:
            for e in [e for e in lg if e[0] in names]:
                lg.add((names[e[0]],) + e[1:])
        if s.extra is not None:
            s.extra = self.rename_extra(s.extra, names)
        return sub(rv) if rv is not None else None

    def rename_extra(self, extra, names):
        return extra

    def merge_rets(self, outs):
        seen = {}
        for s, rv, i in outs:
            self.gc(s, rv)
        for s, rv, i in outs:
            k = (s.key(), rv)
            if k not in seen:
                seen[k] = (s, rv, i)
        outs = list(seen.values())
        if len(outs) > self.L1:
            groups = {}
            for s, rv, i in outs:
                groups.setdefault((s.key(False), rv), []).append((s, rv, i))
            outs = []
            for g in groups.values():
                s = g[0][0]
                for o in g[1:]:
                    self.join_facts(s, o[0])
                outs.append((s, g[0][1], g[0][2]))
        if len(outs) > self.L2:
            groups = {}
            for s, rv, i in outs:
                groups.setdefault((self.signature(s), rv if self.keep_ret(rv) else None), []).append((s, rv, i))
            res = []
            for g in groups.values():
                s = g[0][0]; rv = g[0][1]
                for o in g[1:]:
                    s, rv = self.join_states(s, o[0], rv, o[1])
                res.append((s, rv, g[0][2]))
            outs = res
        return outs

    def keep_ret(self, rv):
        return True

    def join_sym(self, pa, pb, where, x, y, w):
        return sym(("join", self.ctx, where, x, y), w)

    def join_extra(self, x, y):
        return x

    def join_facts(self, a, b):
        self.stats["joins"] += 1
        a.extra = self.join_extra(a.extra, b.extra)
        for k in list(a.rng):
            rb = b.rng.get(k)
            if rb is None:
                del a.rng[k]
            else:
                ra = a.rng[k]; a.rng[k] = (min(ra[0], rb[0]), max(ra[1], rb[1]))
        for k in list(a.facts):
            if b.facts.get(k) != a.facts[k]:
                del a.facts[k]

    def sigval(self, v):
        if v[0] in ("p", "fn"):
            return v
        if v[0] == "undef":
            return v
        if v[0] == "agg":
            return tuple(self.sigval(x) for x in v[1])
        if v == I0:
            return 0
        return None

    def signature(self, s):
        heap = []
        for oid, o in s.heap.items():
            cells = frozenset((k, self.sigval(c[0]), c[1]) for k, c in o.cells.items())
            heap.append((oid, o.kind, cells, o.freed, o.esc, o.unk, o.alias, o.default, o.ver))
        return (frozenset((k, self.sigval(v)) for k, v in s.env.items()), tuple(frozenset((k, self.sigval(v)) for k, v in e.items()) for e, _ in s.stack), frozenset(heap), bool(s.fail), s.extra)

    def join_states(self, a, b, ra=None, rb=None):
        """value join of two states with equal signature"""
        pre = State(); pre.rng = dict(a.rng); pre.facts = a.facts
        pa, pb = a.extra, b.extra
        self.join_facts(a, b)
        def j(x, y, where):
            if x == y:
                return x
            if x[0] == "agg" and y[0] == "agg":
                return ("agg", tuple(j(p, q, where + (n,)) for n, (p, q) in enumerate(zip(x[1], y[1]))))
            w = 64
            for q in (x, y):
                if q[0] in ("s", "o"):
                    w = q[2]
            r = self.join_sym(pa, pb, where, x, y, w)
            if x[0] in ("i", "s", "o") and y[0] in ("i", "s", "o"):
                p, q = self.rng(pre, x), self.rng(b, y)
                a.rng[r] = (min(p[0], q[0]), max(p[1], q[1]))
            return r
        for k in list(a.env):
            if k in b.env:
                a.env[k] = j(a.env[k], b.env[k], ("e", k))
        st = []
        for n, ((ea, fa), (eb, fb)) in enumerate(zip(a.stack, b.stack)):
            if ea is eb or ea == eb:
                st.append((ea, fa)); continue
            st.append(({k: j(v, eb.get(k, v), ("s", n, k)) for k, v in ea.items()}, fa))
        a.stack = tuple(st)
        for oid in list(a.heap):
            oa, ob = a.heap[oid], b.heap.get(oid)
            if ob is None or oa is ob or oa.key() == ob.key():
                continue
            o = oa.clone()
            for k, c in oa.cells.items():
                cb = ob.cells.get(k)
                if cb is not None and cb[0] != c[0]:
                    o.cells[k] = (j(c[0], cb[0], ("h", oid, k)), c[1])
            a.heap[oid] = o
        if ra is not None:
            ra = j(ra, rb, ("r",))
        return a, ra

    # ------------------------------------------------------------ regions
    def dedup(self, states):
        self.stats["states"] += len(states)
        if len(states) <= 1:
            return states
        seen = {}
        for s in states:
            k = s.key()
            if k not in seen:
                seen[k] = s
        states = list(seen.values())
        if len(states) > self.L1:
            groups = {}
            for s in states:
                groups.setdefault(s.key(False), []).append(s)
            states = []
            for g in groups.values():
                for o in g[1:]:
                    self.join_facts(g[0], o)
                states.append(g[0])
        if len(states) > self.L2:
            groups = {}
            for s in states:
                groups.setdefault(self.signature(s), []).append(s)
            res = []
            for g in groups.values():
                s = g[0]
                for o in g[1:]:
                    s, _ = self.join_states(s, o)
                res.append(s)
            states = res
        return states

    def run_region(self, f, entry, pend, region, loop, rets):
        """process blocks of region in reverse post-order; -> {exit block: [states]} and, for a loop, back-edge
        states under the key 'back'"""
        exits = {}
        order = sorted((b for b in region if b in f.rpoi), key=lambda b: f.rpoi[b])
        pend = {k: list(v) for k, v in pend.items()}
        for b in order:
            states = pend.pop(b, None)
            if not states:
                continue
            states = self.dedup(states)
            il = f.loops.get(b)
            if il is not None and (loop is None or il.header != loop.header):
                res = self.run_loop(f, il, states, rets)
                for tgt, ss in res.items():
                    if tgt in region and not (loop is not None and tgt == loop.header):
                        pend.setdefault(tgt, []).extend(ss)
                    elif loop is not None and tgt == loop.header:
                        exits.setdefault("back", []).extend(ss)
                    else:
                        exits.setdefault(tgt, []).extend(ss)
                continue
            for s in states:
                for tgt, ns in self.run_block(f, b, s, rets):
                    if loop is not None and tgt == loop.header:
                        exits.setdefault("back", []).append(ns)
                    elif tgt in region:
                        pend.setdefault(tgt, []).append(ns)
                    else:
                        exits.setdefault(tgt, []).append(ns)
        return exits

    def run_loop(self, f, loop, states, rets):
        self.stats["loops"] += 1
        res = {}
        saved = self.ctx
        cur = states
        log = set()
        self.wlogs.append(log)
        try:
            for it in range(6):
                if it >= (self.K if f.name != self.entry else self.K_ENTRY or self.K) and not all(self.small_loop(f, loop, s) for s in cur):
                    break
                self.ctx = intern(("it", saved, f.name, loop.header, it))
                self.on_iteration(f, loop, it)
                ex = self.run_region(f, loop.header, {loop.header: cur}, loop.body, loop, rets)
                cur = self.dedup(ex.pop("back", []))
                for t, ss in ex.items():
                    res.setdefault(t, []).extend(ss)
                if not cur:
                    return res
            # widened iteration
            conv = set()
            for e in log:
                if e[3] is not None and e[3][0] == f.name and self.varying(f, f.byid.get(e[3][1]), loop):
                    conv.add((e[0], ("sym",), 0, None))
                else:
                    conv.add(e)
            log.clear(); log.update(conv)
            for rnd in range(4):
                before = len(log)
                self.ctx = intern(("it", saved, f.name, loop.header, "w"))
                self.on_round(f, loop, rnd)
                wid = [self.on_widened(f, loop, s, self.widen(f, loop, s.copy(), log)) for s in cur]
                wid = self.dedup(wid)
                nrets = []
                ex = self.run_region(f, loop.header, {loop.header: wid}, loop.body, loop, nrets)
                if len(log) == before or rnd == 3:
                    back = ex.pop("back", [])
                    self.on_widened_back(f, loop, back)
                    rets.extend(nrets)
                    for t, ss in ex.items():
                        res.setdefault(t, []).extend(ss)
                    break
            return res
        finally:
            self.ctx = saved
            self.wlogs.pop()

    def varying(self, f, inst, loop):
        """the address of this store moves with an induction variable of the loop or of a loop inside it"""
        if inst is None or inst.op != "store":
            return False
        seen = set()

        def dep(o):
            if o["k"] != "l" or o["n"] in seen:
                return False
            seen.add(o["n"])
            i = f.byid.get(o["n"])
            if i is None or i.bb not in loop.body:
                return False
            if i.op == "phi":
                return i.bb in f.loops and f.loops[i.bb].header in loop.body and f.induction(f.loops[i.bb]).get(i.id, (0,))[0] == "aff"
            if i.op in ("zext", "sext", "trunc", "add", "sub", "mul", "shl"):
                return any(dep(x) for x in i.d["ops"])
            if i.op == "getelementptr":
                return dep(i.d["gep"]["b"]) or any(dep(v["v"]) for v in i.d["gep"]["vars"])
            return False
        return dep(inst.d["ops"][1])

    def small_loop(self, f, loop, s):
        """the header compares a constant-valued counter with a bound known to be at most 5"""
        hdr = f.blocks[loop.header]
        t = hdr[-1]
        if t.op != "br" or not t.d["ops"] or t.d["ops"][0]["k"] != "l":
            return False
        c = f.byid.get(t.d["ops"][0]["n"])
        if c is None or c.op != "icmp":
            return False
        vals = []
        inhdr = {x.id for x in hdr if x.op != "phi"}
        for o in c.d["ops"]:
            n = 0
            while o["k"] == "l" and o["n"] in inhdr and n < 4:
                d = f.byid[o["n"]]; n += 1
                if d.op in ("zext", "sext", "trunc"):
                    o = d.d["ops"][0]
                elif d.op == "load":
                    p = self.val(s, d.d["ops"][0]) if d.d["ops"][0]["k"] != "l" or d.d["ops"][0]["n"] not in inhdr else None
                    if p is None:
                        a = f.byid[d.d["ops"][0]["n"]]
                        if a.op != "getelementptr":
                            return False
                        b = a.d["gep"]["b"]
                        if b["k"] == "l" and b["n"] in inhdr:
                            return False
                        p = self.gep(s, a.d["gep"], None)
                    if p[0] in ("s", "o"):
                        p = ("p", intern(("X", p)), 0, ())
                    if p[0] != "p" or p[3]:
                        return False
                    v = self.load_mem(s, p, d.d["sz"], d.t, d)
                    v = self.initial_load(s, d, p, v)
                    v = self.on_load(s, d, p, v, d.d["sz"])
                    vals.append(v); o = None; break
                else:
                    return False
            if o is not None:
                vals.append(self.val(s, o))
        if any(v[0] not in ("i", "s", "o") for v in vals):
            return False
        a, b = self.rng(s, self.norm(s, vals[0])), self.rng(s, self.norm(s, vals[1]))
        n = self.SMALL
        return (a[0] == a[1] and b[1] <= n and a[0] <= n) or (b[0] == b[1] and a[1] <= n and b[0] <= n)

    def on_widened_back(self, f, loop, back):
        pass

    def on_round(self, f, loop, rnd):
        pass

    def on_widened(self, f, loop, before, after):
        return after

    def on_iteration(self, f, loop, it):
        pass

    WIDEN_ABSENT = True

    def moving(self, oid):
        return False

    def widen(self, f, loop, s, log):
        for i in f.blocks[loop.header]:
            if i.op != "phi":
                break
            inv = True
            for pb, o in i.d["in"]:
                if pb in loop.body and not (o["k"] == "l" and o["n"] == i.id):
                    inv = False
            if not inv:
                old = s.env.get(i.id)
                s.env[i.id] = self.widened_phi(s, f, loop, i, old)
        for oid, key, size, _ in sorted(log, key=lambda e: isinstance(e[1], tuple)):
            o = s.heap.get(oid)
            if o is None:
                if un(oid)[0] != "X":
                    continue
                o = self.obj(s, oid)
            if self.moving(oid):
                o = s.wobj(oid)
                o.cells = {}; o.alias = ()
                o.ver += 1 if o.ver < self.VERCAP else 0
                continue
            if isinstance(key, tuple) and key and key[0] == "range":
                lo, n = key[1], key[2]
                hi = None if n is None else lo + n
                o = s.wobj(oid)
                for k in [k for k, c in o.cells.items() if isinstance(k, tuple) or (k + c[1] > lo and (hi is None or k < hi))]:
                    v, sz = o.cells[k]
                    if not isinstance(k, tuple):
                        o.cells[k] = (self.widened_value(s, ("wcell", self.ctx, oid, k), v, sz * 8, None), sz)
                    else:
                        del o.cells[k]
                o.alias = tuple(a for a in o.alias if a[0] + a[1] <= lo or (hi is not None and a[0] >= hi))
                o.ver = max(o.ver, 1) if o.default == "undef" else o.ver + (1 if o.ver < self.VERCAP else 0)
            elif isinstance(key, tuple):
                o = s.wobj(oid)
                for k in [k for k in o.cells if isinstance(k, tuple)]:
                    v = o.cells.pop(k)[0]
                    if v[0] == "p":
                        o.unk = o.unk | {v[1]}
                o.ver += 1 if o.ver < self.VERCAP else 0
            else:
                c = o.cells.get(key)
                if c is None:
                    if not self.WIDEN_ABSENT or o.default == "undef" and not o.ver or o.default == "const" or not isinstance(size, int):
                        continue
                    c = (self.default_value(s, oid, o, key, size, "i%d" % (8 * size)), size)
                o = s.wobj(oid)
                nv = self.widened_value(s, ("wcell", self.ctx, oid, key), c[0], c[1] * 8, None)
                if c[0][0] == "p" and un(c[0][1])[0] == "H":
                    o.unk = o.unk | {c[0][1]}
                    self.weak_ptrs[nv] = self.weak_ptrs.get(nv, frozenset()) | {c[0][1]}
                    if c[0][1] in s.heap:
                        s.wobj(c[0][1]).esc = True
                o.cells[key] = (nv, c[1])
        return s

    def loop_count(self, s, hi, w):
        """the number of completed iterations of the current loop beyond the distinguished ones"""
        k = sym(("k", self.ctx), w)
        r = s.rng.get(k, (0, (1 << w) - 1))
        s.rng[k] = (0, max(0, min(r[1], hi)))
        return k

    def widened_phi(self, s, f, loop, i, old):
        ind = f.induction(loop).get(i.id)
        w = width(i.t) or 64
        full = (1 << w) - 1
        if ind is not None and old is not None:
            if ind[0] == "aff":
                c = ind[1]
                if is_int(i.t) and old[0] in ("i", "s", "o"):
                    r = self.rng(s, old)
                    if c > 0:
                        k = self.loop_count(s, (full - r[0]) // c, w)
                    else:
                        k = self.loop_count(s, r[1] // -c, w)
                    v = lin_add(old, lin_scale(k, c, w), w)
                    if v[0] != "i":
                        x = s.rng.get(v, (0, full))
                        if c > 0:
                            s.rng[v] = (max(x[0], r[0]), x[1])
                            if old[0] != "i":
                                s.facts[("ult", v, old)] = False
                        else:
                            s.rng[v] = (x[0], min(x[1], r[1]))
                            if old[0] != "i":
                                s.facts[("ult", old, v)] = False
                    return v
                if i.t == "ptr" and (old[0] == "p" or old[0] in ("s", "o")):
                    k = self.loop_count(s, 1 << 62, 64)
                    if old[0] == "p":
                        return self.mkptr(old[1], old[2], old[3] + ((c, k, None),))
                    if old[0] == "s" or old[0] == "o":
                        return self.mkptr(intern(("X", old)), 0, ((c, k, None),))
            elif is_int(i.t) and old[0] in ("i", "s", "o"):
                r = self.rng(s, old)
                v = sym(("wphi", self.ctx, i.id), w)
                s.rng[v] = (r[0], full) if ind[0] == "up" else (0, r[1])
                if old[0] != "i":
                    s.facts[("ult", v, old) if ind[0] == "up" else ("ult", old, v)] = False
                return v
        return self.widened_value(s, ("wphi", self.ctx, i.id), old, w, i)

    def widened_value(self, s, name, old, w, inst):
        if old is not None and old[0] == "p":
            o = s.heap.get(old[1])
            if o is not None and o.kind != "X" or un(old[1])[0] == "X":
                # a moving pointer keeps its object, with an unknown offset
                ty = inst.t if inst is not None else "ptr"
                if ty == "ptr" and self.same_object_stride(old):
                    return ("p", old[1], 0, ((1, sym(name, 64), None),))
        if old is not None and old[0] == "undef":
            pass
        return sym(name, w)

    def same_object_stride(self, old):
        n = un(old[1])
        return False

    # ------------------------------------------------------------ blocks
    def run_block(self, f, b, st, rets):
        """execute the non-phi instructions of block b; -> list of (successor, state)"""
        work = [(st, 0)]
        out = []
        insts = f.blocks[b]
        while work:
            s, ip = work.pop()
            done = False
            while ip < len(insts):
                i = insts[ip]
                if i.op == "phi":
                    ip += 1; continue
                self.stats["insts"] += 1
                self.entry_insts += 1
                if self.entry_insts > self.MAXINST:
                    raise Budget("instruction budget exceeded in %s" % self.entry)
                if i.op in ("br", "switch", "ret", "unreachable"):
                    out.extend(self.terminator(f, b, i, s, rets))
                    done = True
                    break
                if i.op == "call":
                    res = self.call(f, i, s)
                    if not res:
                        done = True; break
                    for r in res[1:]:
                        work.append((r, ip + 1))
                    s = res[0]
                else:
                    r = self.inst(f, i, s)
                    if r is False:
                        done = True; break
                    if isinstance(r, list):
                        for x in r[1:]:
                            work.append((x, ip + 1))
                        s = r[0]
                ip += 1
        return out

    def goto(self, f, b, tgt, s):
        phis = []
        for i in f.blocks[tgt]:
            if i.op != "phi":
                break
            for pb, o in i.d["in"]:
                if pb == b:
                    phis.append((i.id, self.val(s, o))); break
        live = f.livein[tgt]
        env = {k: v for k, v in s.env.items() if (k in live) or isinstance(k, tuple)}
        for k, v in phis:
            env[k] = v
        s.env = env
        return (tgt, s)

    def terminator(self, f, b, i, s, rets):
        if i.op == "ret":
            rv = self.val(s, i.d["ops"][0]) if i.d["ops"] else None
            self.sites["ret"].add((f.name, i.loc[1]))
            rets.append((s, rv, i))
            return []
        if i.op == "unreachable":
            return self.on_unreachable(f, i, s, rets)
        if i.op == "br":
            ops = i.d["ops"]
            succ = f.succ[b]
            if not ops:
                return [self.goto(f, b, succ[0], s)]
            c = self.val(s, ops[0])
            if c[0] == "undef":
                self.report("uninit-branch", i, "condition depends on an uninitialised value", s)
                s2 = s.copy()
                return [self.goto(f, b, succ[0], s), self.goto(f, b, succ[1], s2)]
            d = self.decide(s, c)
            self.stats["branches"] += 1
            if d is True:
                return [self.goto(f, b, succ[0], s)]
            if d is False:
                return [self.goto(f, b, succ[1], s)]
            out = []
            s2 = s.copy()
            if self.assume(s, c, True):
                s.trace = ((i.loc, "condition true"), s.trace)
                out.append(self.goto(f, b, succ[0], s))
            if self.assume(s2, c, False):
                s2.trace = ((i.loc, "condition false"), s2.trace)
                out.append(self.goto(f, b, succ[1], s2))
            return out
        if i.op == "switch":
            out = []
            v = self.norm(s, self.val(s, i.d["ops"][0]))
            for c, t in i.d["cases"]:
                cv = self.val(s, c)
                cond = self.mk_eq(v, cv)
                s2 = s.copy()
                if self.assume(s2, cond, True):
                    out.append(self.goto(f, b, t, s2))
                if not self.assume(s, cond, False):
                    return out
            out.append(self.goto(f, b, i.d["def"], s))
            return out
        return []

    def on_unreachable(self, f, i, s, rets):
        return []

    def set(self, s, i, v):
        s.env[i.id] = self.limit(v, i, i.t)

    def inst(self, f, i, s):
        o = i.op; d = i.d
        if o in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            a = self.val(s, d["ops"][0]); b = self.val(s, d["ops"][1])
            if o in ("udiv", "urem", "sdiv", "srem"):
                self.on_div(s, i, a, b)
            self.set(s, i, self.binop(s, o, a, b, i.t, i)); return
        if o == "load":
            p = self.deref(s, self.val(s, d["ops"][0]), i, "read")
            if p is None:
                return False
            if not self.check_access(s, p, d["sz"], i, "read"):
                return False
            self.stats["loads"] += 1
            v = self.load_mem(s, p, d["sz"], i.t, i)
            v = self.initial_load(s, i, p, v)
            v = self.on_load(s, i, p, v, d["sz"])
            self.set(s, i, v)
            if v[0] == "s":
                return self.initial_fork(s, i, p, v)
            return
        if o == "store":
            p = self.deref(s, self.val(s, d["ops"][1]), i, "write")
            if p is None:
                return False
            if not self.check_access(s, p, d["sz"], i, "write"):
                return False
            self.stats["stores"] += 1
            v = self.val(s, d["ops"][0])
            self.on_store(s, i, p, v, d["sz"])
            self.store_mem(s, p, d["sz"], v, i)
            return
        if o == "getelementptr":
            s.env[i.id] = self.gep(s, d["gep"], i); return
        if o == "icmp":
            a = self.val(s, d["ops"][0]); b = self.val(s, d["ops"][1])
            if a[0] == "undef" or b[0] == "undef":
                s.env[i.id] = UNDEF
            else:
                s.env[i.id] = self.icmp(s, d["pred"], a, b, d["opt"])
            return
        if o == "fcmp":
            a = self.val(s, d["ops"][0]); b = self.val(s, d["ops"][1])
            s.env[i.id] = UNDEF if (a[0] == "undef" or b[0] == "undef") else self.fcmp(d["pred"], a, b)
            return
        if o in ("zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"):
            self.set(s, i, self.cast(s, o, self.val(s, d["ops"][0]), d["from"], i.t)); return
        if o == "fneg":
            a = self.val(s, d["ops"][0])
            self.set(s, i, UNDEF if a[0] == "undef" else op("fneg", 64, a)); return
        if o == "alloca":
            oid = intern(("A", self.ctx, f.name, i.id))
            cnt = self.norm(s, self.val(s, d["ops"][0]))
            size = ("i", cnt[1] * d["asz"]) if cnt[0] == "i" else None
            s.heap[oid] = Obj("A", "undef", size, (f.name, i.loc))
            s.frame = s.frame + (oid,)
            s.env[i.id] = ("p", oid, 0, ()); return
        if o == "select":
            c = self.val(s, d["ops"][0]); a = self.val(s, d["ops"][1]); b = self.val(s, d["ops"][2])
            if c[0] == "undef":
                s.env[i.id] = UNDEF; return
            r = self.decide(s, c)
            if r is not None:
                s.env[i.id] = a if r else b; return
            if a == b:
                s.env[i.id] = a; return
            s2 = s.copy(); out = []
            if self.assume(s, c, True):
                s.env[i.id] = a; out.append(s)
            if self.assume(s2, c, False):
                s2.env[i.id] = b; out.append(s2)
            return out or False
        if o == "extractvalue":
            a = self.val(s, d["ops"][0])
            if a[0] == "agg":
                s.env[i.id] = a[1][d["ix"][0]]
            elif a[0] == "undef":
                s.env[i.id] = UNDEF
            else:
                s.env[i.id] = sym(("ev", a, d["ix"][0]), width(i.t) or 64)
            return
        if o == "insertvalue":
            a = self.val(s, d["ops"][0]); b = self.val(s, d["ops"][1])
            n = len(i.t.split(","))
            items = list(a[1]) if a[0] == "agg" else [UNDEF] * n
            while len(items) < n:
                items.append(UNDEF)
            items[d["ix"][0]] = b
            s.env[i.id] = ("agg", tuple(items)); return
        if o == "freeze":
            s.env[i.id] = self.val(s, d["ops"][0]); return
        s.env[i.id] = sym(("op?", o, self.ctx, i.id), width(i.t) or 64)

    # ------------------------------------------------------------ entry assumptions about caller data
    def field_of(self, i):
        """(struct type name, byte offset) of the field a load instruction reads, when its address is a field path"""
        r = i.d.get("_fld", 0)
        if r == 0:
            r = None
            o = i.d["ops"][0]
            off = 0
            if o["k"] == "a":
                p = i.fn.params[o["n"]]
                t = p.get("byval") or p.get("sret")
                if t:
                    r = (t, 0)
            elif o["k"] == "l":
                g = i.fn.byid.get(o["n"])
                if g is not None and g.op == "getelementptr" and not g.d["gep"]["vars"] and g.d["gep"]["st"].startswith("%struct."):
                    r = (g.d["gep"]["st"], g.d["gep"]["o"])
            i.d["_fld"] = r
        return r

    def initial_load(self, s, i, p, v):
        if v[0] != "s":
            return v
        n = un(v[1])
        if n[0] != "ld":
            return v
        g = un(n[1])
        if g[0] == "G" and g[1] == "sp_channel_count" and n[2] == 0:
            s.rng[v] = (1, 2)
            return v
        fl = self.field_of(i)
        if fl is None:
            return v
        name = self.m.field(fl[0], fl[1])
        if fl[0].startswith("%struct.sp_event_list"):
            self.list_nodes.add(p[1])
        if name in ("channel_count", "channel") and v[2] == 8:
            # documented limit of the library: sp_channel_count_limit
            hi = 2 if name == "channel_count" else 1
            r = s.rng.get(v, (0, 255))
            s.rng[v] = (max(r[0], 1 if name == "channel_count" and fl[0] != "%struct.sp_render_config_t" else 0), min(r[1], hi))
        elif name == "previous" and n[1] == p[1] and n[3] == 0 and fl[0].startswith("%struct.sp_event_list"):
            return self.list_previous(s, p[1], v)
        return v

    def initial_fork(self, s, i, p, v):
        """states of caller-supplied objects that satisfy the documented invariants"""
        n = un(v[1])
        if n[0] != "ld" or n[3] != 0:
            return
        fl = self.field_of(i)
        if fl is None or fl[0] != "%struct.sp_convolution_filter_state_t":
            return
        offs = self.m.offsets(fl[0])
        if self.m.field(fl[0], fl[1]) not in ("carryover", "carryover_len", "ir_len") or n[2] not in offs.values():
            return
        base = p[2] - fl[1]
        oid = p[1]
        c = self.ld_sym(oid, base + offs["carryover"], 0, 64)
        cl = self.ld_sym(oid, base + offs["carryover_len"], 0, 32)
        il = self.ld_sym(oid, base + offs["ir_len"], 0, 32)
        if c in s.rng:
            return
        s2 = s.copy()
        # no carryover: the impulse response has one element
        s.rng[c] = (0, 0); s.rng[cl] = (0, 0); s.rng[il] = (1, 1)
        s2.rng[c] = (1, (1 << 64) - 1); s2.rng[cl] = (0, (1 << 32) - 2); s2.rng[il] = (1, (1 << 32) - 1)
        return [s, s2]

    def list_previous(self, s, oid, v):
        """caller lists are well-formed: the head has no predecessor and x->next->previous is x"""
        t = un(oid)
        if t[0] != "X" or t[1][0] != "s":
            return v
        n = un(t[1][1])
        if n[0] != "ld" or n[3] != 0:
            return v
        parent = un(n[1])
        if n[2] == 8 and self.is_list_node(n[1]):
            if parent[1][0] == "s":
                return parent[1]
        if not self.is_list_node(n[1]):
            return I0
        return v

    def is_list_node(self, oid):
        return oid in self.list_nodes

    # ------------------------------------------------------------ hooks
    def on_load(self, s, i, p, v, size):
        return v

    def on_store(self, s, i, p, v, size):
        pass

    def on_div(self, s, i, a, b):
        pass

    def on_callback(self, s, i, fnv, args):
        pass

    def on_extern(self, s, i, name, args):
        pass

    def on_alloc(self, s, i, oid, kind):
        pass

    def check_access(self, s, p, size, i, what):
        self.sites["mem"].add((i.fn.name, i.id))
        o = self.obj(s, p[1])
        if o.freed is not None:
            self.report("use-after-free", i, "%s of memory released at %s:%s" % (what, o.freed[0], o.freed[1]), s)
            return False
        if not p[3] and o.size is not None and o.size[0] == "i" and o.kind in ("H", "A", "G"):
            if p[2] < 0 or p[2] + size > o.size[1]:
                self.report("oob", i, "%s at byte %d..%d of an object of %d bytes" % (what, p[2], p[2] + size, o.size[1]), s)
                return False
        return True

    # ------------------------------------------------------------ calls
    def call(self, f, i, s):
        d = i.d
        args = [self.val(s, a) for a in d["args"]]
        callee = d["callee"]
        fv = self.val(s, callee)
        fv = self.norm(s, fv)
        if fv[0] == "fn":
            name = fv[1]
            if name in self.m.fns:
                return self.call_internal(i, s, self.m.fns[name], args)
            return self.call_extern(i, s, name, args)
        if fv[0] == "undef" or (fv[0] == "i"):
            self.report("null-deref" if fv[0] == "i" else "uninit-deref", i, "call through a %s function pointer" % ("null" if fv[0] == "i" else "uninitialised"), s)
            return []
        return self.call_unknown(i, s, fv, args)

    def byval_args(self, i, s, args):
        for n, size in i.d.get("byval", ()):
            p = self.deref(s, args[n], i, "read")
            if p is None:
                return None
            if not self.check_access(s, p, 1, i, "read"):
                return None
            oid = intern(("A", "byval", self.ctx, i.fn.name, i.id, n))
            s.heap[oid] = Obj("A", "undef", ("i", size), (i.fn.name, i.loc))
            s.frame = s.frame + (oid,)
            self.copy_mem(s, ("p", oid, 0, ()), p, size, i)
            self.on_memwrite(s, i, ("p", oid, 0, ()), ("i", size), p)
            args = list(args); args[n] = ("p", oid, 0, ())
        return args

    def call_internal(self, i, s, g, args):
        if self.callstack.count(g.name) > self.RECURSION.get(g.name, 0) or (g.name in self.opaque and g.name != self.entry):
            if g.name not in self.opaque or g.name == self.entry:
                self.on_recursion(s, i)
            return self.call_unknown(i, s, ("fn", g.name), args)
        args = self.byval_args(i, s, args)
        if args is None:
            return []
        args = args[:len(g.params)]
        while len(args) < len(g.params):
            args.append(UNDEF)
        self.on_internal_call(s, i, g, args)
        outs = self.exec_fn(g, args, s, i)
        res = []
        for ns, rv, ri in outs:
            if i.t != "void":
                ns.env[i.id] = rv if rv is not None else UNDEF
            elif g.file.endswith("/plot.c"):
                ns.fail = s.fail     # plotting is best effort and has no error channel
            self.on_internal_return(ns, i, g, args, rv)
            res.append(ns)
        return res

    RECURSION = {}       # function -> number of nested calls of itself that are followed

    def on_recursion(self, s, i):
        """a call that is not followed, because the function is being executed already"""

    def on_internal_call(self, s, i, g, args):
        pass

    def on_internal_return(self, s, i, g, args, rv):
        pass

    def escape(self, s, v, seen=None):
        """v handed to unknown code: objects reachable from it are no longer owned for certain"""
        if v[0] != "p":
            return
        if seen is None:
            seen = set()
        oid = v[1]
        if oid in seen:
            return
        seen.add(oid)
        o = s.heap.get(oid)
        if o is None:
            return
        if o.kind in ("H", "F") and not o.esc:
            o = s.wobj(oid); o.esc = True
        for c in list(o.cells.values()):
            self.escape(s, c[0], seen)
        for u in o.unk:
            self.escape(s, ("p", u, 0, ()), seen)

    def result_sym(self, i, tag="ret"):
        return sym((tag, self.ctx, i.fn.name, i.id), width(i.t) or 64)

    def is_status_type(self, t):
        return t.replace(" ", "") == "{i32,ptr}"

    def call_unknown(self, i, s, fv, args):
        self.sites["callback"].add((i.fn.name, i.id))
        args = self.byval_args(i, s, args)
        if args is None:
            return []
        for a in args:
            if a[0] == "undef":
                self.report("uninit-use", i, "uninitialised value passed to a function", s)
        self.on_callback(s, i, fv, args)
        return self.callback_effects(i, s, fv, args)

    def callback_effects(self, i, s, fv, args):
        for n, a in enumerate(args):
            a = self.norm(s, a)
            if a[0] in ("s", "o") and i.d["ft"]["params"][n:n + 1] == ["ptr"] and self.rng(s, a)[1] > 0:
                oid = intern(("X", a))
                if oid in s.heap:
                    self.havoc_obj(s, oid, i)
            elif a[0] == "p":
                if n not in [x[0] for x in i.d.get("byval", ())]:
                    self.escape(s, a)
                    self.havoc_obj(s, a[1], i)
        if self.is_status_type(i.t):
            rid = sym(("cbid", self.ctx, i.fn.name, i.id), 32)
            s2 = s.copy()
            s.env[i.id] = ("agg", (I0, sym(("cbgrp", self.ctx, i.id), 64)))
            s2.rng[rid] = (1, (1 << 32) - 1)
            s2.env[i.id] = ("agg", (rid, sym(("cbgrp", self.ctx, i.id), 64)))
            s2.fail = s2.fail | {("callback", i.fn.name, i.loc[1])}
            s2.trace = ((i.loc, "callback reports failure"), s2.trace)
            self.sites["fail"].add((i.fn.name, i.id))
            return [s, s2]
        if i.t != "void":
            s.env[i.id] = self.result_sym(i, "cb")
        return [s]

    # ------------------------------------------------------------ library models
    def new_obj(self, i, s, kind, default, size, tag=""):
        oid = intern((kind, self.ctx, i.fn.name, i.id, tag))
        if oid in s.heap:
            # re-execution in the same context: keep the older one as a separate object
            n = 1
            while intern((kind, self.ctx, i.fn.name, i.id, tag, n)) in s.heap and n < 3:
                n += 1
            oid = intern((kind, self.ctx, i.fn.name, i.id, tag, n))
        s.heap[oid] = Obj(kind, default, size, (i.fn.name, i.loc))
        return oid

    def fork_fail(self, i, s, what):
        s2 = s.copy()
        s2.fail = s2.fail | {(what, i.fn.name, i.loc[1])}
        s2.trace = ((i.loc, "%s fails" % what), s2.trace)
        self.stats["fail_branches"] += 1
        self.sites["fail"].add((i.fn.name, i.id))
        return s2

    def do_free(self, i, s, v, what="free"):
        """-> False when the path must stop"""
        self.stats["frees"] += 1
        self.sites["free"].add((i.fn.name, i.id))
        v = self.norm(s, v)
        if v[0] == "i" and v[1] == 0:
            return True
        if v[0] == "undef":
            self.report("free-uninit", i, "%s of an uninitialised pointer" % what, s)
            return False
        if v[0] in ("s", "o"):
            if v in self.weak_ptrs:
                for oid in self.weak_ptrs[v]:
                    o = s.heap.get(oid)
                    if o is not None and o.kind in ("H", "F"):
                        o = s.wobj(oid); o.esc = True
                return True
            oid = intern(("X", v))
            v = ("p", oid, 0, ())
        if v[0] != "p":
            return True
        oid = v[1]
        o = self.obj(s, oid)
        if o.kind in ("A", "G"):
            self.report("bad-free", i, "%s of memory that was not allocated" % what, s)
            return False
        if v[2] != 0 or v[3]:
            if o.kind == "H":
                self.report("bad-free", i, "%s of a pointer into the middle of an allocation" % what, s)
                return False
            oid = intern(("X", ("sub", v))); o = self.obj(s, oid)
        if o.freed is not None:
            self.report("double-free", i, "%s of memory already released at %s:%s" % (what, o.freed[0], o.freed[1]), s)
            return False
        o = s.wobj(oid)
        o.freed = (i.fn.name, i.loc[1])
        for lg in self.wlogs:
            pass
        self.on_free(s, i, oid)
        return True

    def on_free(self, s, i, oid):
        pass

    def need_ptr(self, s, v, i, what):
        p = self.deref(s, v, i, what)
        if p is None:
            return None
        return p if self.check_access(s, p, 0, i, what) else None

    def call_extern(self, i, s, name, args):
        self.sites["ext"].add((i.fn.name, i.id, name))
        self.on_extern(s, i, name, args)
        h = getattr(self, "x_" + name.replace(".", "_"), None)
        if h is None and name.startswith("llvm."):
            base = name.split(".")
            h = getattr(self, "x_llvm_" + base[1], None)
            if h is None:
                if i.t != "void":
                    s.env[i.id] = op(base[1], width(i.t) or 64, *args)
                return [s]
        if h is not None:
            return h(i, s, args)
        if name in PURE:
            if any(a[0] == "undef" for a in args):
                s.env[i.id] = UNDEF
            else:
                s.env[i.id] = op("call:" + name, width(i.t) or 64, *args)
            return [s]
        return self.x_default(i, s, name, args)

    def x_default(self, i, s, name, args):
        for a in args:
            if a[0] == "undef" and name in ("printf", "fprintf", "snprintf", "system", "strlen", "strcmp"):
                self.report("uninit-use", i, "uninitialised value passed to %s" % name, s)
        if name not in NOEFFECT:
            for a in args:
                if a[0] == "p":
                    self.escape(s, a)
                    o = self.obj(s, a[1])
                    if o.kind != "G" or o.default != "const":
                        self.havoc_range(s, a, None, i)
        if i.t != "void":
            s.env[i.id] = self.result_sym(i, "ext")
        return [s]

    def alloc_common(self, i, s, default, size):
        self.stats["allocs"] += 1
        self.sites["alloc"].add((i.fn.name, i.id))
        s2 = self.fork_fail(i, s, "allocation")
        s2.env[i.id] = I0
        oid = self.new_obj(i, s, "H", default, size)
        s.env[i.id] = ("p", oid, 0, ())
        self.on_alloc(s, i, oid, "H")
        return [s, s2]

    def x_malloc(self, i, s, args):
        if args[0][0] == "undef":
            self.report("uninit-use", i, "allocation size is uninitialised", s)
        return self.alloc_common(i, s, "undef", self.norm(s, args[0]))

    def x_calloc(self, i, s, args):
        a = self.binop(s, "mul", args[0], args[1], "i64", i)
        return self.alloc_common(i, s, "zero", self.norm(s, a))

    def x_realloc(self, i, s, args):
        self.stats["allocs"] += 1
        self.sites["alloc"].add((i.fn.name, i.id))
        old = self.norm(s, args[0])
        if old[0] == "undef":
            self.report("free-uninit", i, "realloc of an uninitialised pointer", s)
            return []
        if old[0] in ("s", "o"):
            old = ("p", intern(("X", old)), 0, ())
        s2 = self.fork_fail(i, s, "reallocation")
        s2.env[i.id] = I0
        if old[0] == "p":
            o = self.obj(s, old[1])
            if o.freed is not None:
                self.report("double-free", i, "realloc of memory already released at %s:%s" % o.freed, s)
                return [s2]
            if o.kind in ("A", "G"):
                self.report("bad-free", i, "realloc of memory that was not allocated", s); return [s2]
            cells = dict(o.cells); alias = o.alias; unk = o.unk; default = o.default; ver = o.ver
            if not self.do_free(i, s, old, "realloc"):
                return [s2]
            oid = self.new_obj(i, s, "H", default, self.norm(s, args[1]))
            n = s.wobj(oid)
            n.cells = cells; n.unk = unk; n.default = "ext" if default == "ext" else default; n.ver = max(ver, 1); n.alias = alias
            if default == "ext":
                n.alias = alias + ((0, 1 << 40, old[1], 0, ver),)
        else:
            oid = self.new_obj(i, s, "H", "undef", self.norm(s, args[1]))
        s.env[i.id] = ("p", oid, 0, ())
        self.on_alloc(s, i, oid, "H")
        if old[0] == "p":
            self.on_move(s, i, s.env[i.id], self.norm(s, args[1]), old)
        return [s, s2]

    def on_move(self, s, i, new, n, old):
        pass

    def x_free(self, i, s, args):
        return [s] if self.do_free(i, s, args[0]) else []

    def x_memcpy(self, i, s, args):
        return self.memcpy_model(i, s, args)

    def x_memmove(self, i, s, args):
        return self.memcpy_model(i, s, args)

    def x_llvm_memcpy(self, i, s, args):
        return self.memcpy_model(i, s, args)

    def x_llvm_memmove(self, i, s, args):
        return self.memcpy_model(i, s, args)

    def memcpy_model(self, i, s, args):
        n = self.norm(s, args[2])
        dst = self.need_ptr(s, args[0], i, "write")
        src = self.need_ptr(s, args[1], i, "read")
        if dst is None or src is None:
            return []
        if n[0] == "undef":
            self.report("uninit-use", i, "copy length is uninitialised", s)
        nn = n[1] if n[0] == "i" else None
        if nn:
            if not self.check_access(s, dst, nn, i, "write") or not self.check_access(s, src, nn, i, "read"):
                return []
        self.on_memwrite(s, i, dst, n, src)
        self.copy_mem(s, dst, src, nn, i)
        if i.t != "void":
            s.env[i.id] = args[0]
        return [s]

    def on_memwrite(self, s, i, dst, n, src):
        pass

    def memset_model(self, i, s, args):
        dst = self.need_ptr(s, args[0], i, "write")
        if dst is None:
            return []
        n = self.norm(s, args[2]); v = self.norm(s, args[1])
        if n[0] == "i" and n[1] and not self.check_access(s, dst, n[1], i, "write"):
            return []
        self.on_memwrite(s, i, dst, n, None)
        if v == I0 and n[0] == "i" and not dst[3]:
            old = self.obj(s, dst[1]).alias
            o = self.havoc_range(s, dst, n[1], i)
            o.alias = self.cut_alias(old, dst[2], dst[2] + n[1])
            o.ver = max(0, o.ver - 1) if o.default in ("undef", "zero") else o.ver
            o.alias = ((dst[2], n[1], "zero", 0, 0),) + o.alias
        else:
            self.havoc_range(s, dst, n[1] if n[0] == "i" else None, i)
        if i.t != "void":
            s.env[i.id] = args[0]
        return [s]

    def x_memset(self, i, s, args):
        return self.memset_model(i, s, args)

    def x_llvm_memset(self, i, s, args):
        return self.memset_model(i, s, args)

    def x_llvm_stacksave(self, i, s, args):
        s.env[i.id] = sym(("stacksave",), 64); return [s]

    def x_llvm_stackrestore(self, i, s, args):
        return [s]

    def x_exit(self, i, s, args):
        return []

    def x_pthread_exit(self, i, s, args):
        return []

    def x_fopen(self, i, s, args):
        s2 = self.fork_fail(i, s, "file open")
        s2.env[i.id] = I0
        oid = self.new_obj(i, s, "F", "ext", None)
        s.env[i.id] = ("p", oid, 0, ())
        self.on_alloc(s, i, oid, "F")
        return [s, s2]

    def x_fclose(self, i, s, args):
        if self.norm(s, args[0]) == I0:
            self.report("null-deref", i, "fclose of a null file", s); return []
        if not self.do_free(i, s, args[0], "fclose"):
            return []
        s.env[i.id] = self.result_sym(i, "ext")
        return [s]

    def file_arg(self, i, s, v, name):
        v = self.norm(s, v)
        if v[0] == "undef":
            self.report("uninit-deref", i, "%s on an uninitialised file" % name, s); return False
        if v[0] == "i":
            self.report("null-deref", i, "%s on a null file" % name, s); return False
        if v[0] == "p":
            o = self.obj(s, v[1])
            if o.freed is not None:
                self.report("use-after-free", i, "%s on a closed file" % name, s); return False
        return True

    def x_fwrite(self, i, s, args):
        if not self.file_arg(i, s, args[3], "fwrite"):
            return []
        p = self.need_ptr(s, args[0], i, "read")
        if p is None:
            return []
        s2 = self.fork_fail(i, s, "file write")
        n = self.norm(s, args[2])
        if n[0] == "i":
            s.env[i.id] = n
            s2.env[i.id] = I0 if n[1] == 1 else self.result_sym(i, "ext")
        else:
            s.env[i.id] = n
            s2.env[i.id] = self.result_sym(i, "ext")
        return [s, s2]

    SHORTREADS = False

    def x_fread(self, i, s, args):
        if not self.file_arg(i, s, args[3], "fread"):
            return []
        p = self.need_ptr(s, args[0], i, "write")
        if p is None:
            return []
        size = self.norm(s, args[1]); n = self.norm(s, args[2])
        tot = size[1] * n[1] if size[0] == "i" and n[0] == "i" else None
        if tot and not self.check_access(s, p, tot, i, "write"):
            return []
        s2 = self.fork_fail(i, s, "file read")
        o = self.read_content(s, i, p, size, n, tot)
        if o.default == "undef" and tot is not None:
            o.alias = ((p[2], tot, intern(("X", ("fread", self.ctx, i.id))), 0, 0),) + o.alias
            s.heap.setdefault(intern(("X", ("fread", self.ctx, i.id))), Obj("X", "ext"))
            o.ver = max(0, o.ver - 1)
        o2 = self.havoc_range(s2, p, None, i)
        s.env[i.id] = n if n[0] == "i" or True else n
        if n[0] == "i" and n[1] == 1:
            s2.env[i.id] = I0
        else:
            # nothing read is a failure; a short count is an outcome the caller may accept at the end of the file
            r = sym(("short", self.ctx, i.fn.name, i.id), 64)
            if self.SHORTREADS:
                # one path with any count
                s.env[i.id] = r
                s.rng[r] = (1, 1 << 63)
                s2.env[i.id] = I0
                return [s, s2]
            s3 = s2.copy()
            s3.fail = s.fail
            if n[0] != "i" and not self.assume(s2, self.mk_eq(n, I0), False):
                s2 = None
            else:
                s2.env[i.id] = I0
            s3.env[i.id] = r
            s3.rng[r] = (1, (1 << 63))
            if n[0] in ("s", "o"):
                s3.facts[("ult", r, n)] = True
            if n == I0:
                return [s]
            return [x for x in (s, s2, s3) if x is not None]
        return [s, s2]

    def read_content(self, s, i, p, size, n, tot):
        self.on_memwrite(s, i, p, ("i", tot) if tot is not None else n, None)
        return self.havoc_range(s, p, tot, i)

    def x_fseek(self, i, s, args):
        if not self.file_arg(i, s, args[0], "fseek"):
            return []
        s.env[i.id] = self.result_sym(i, "ext"); return [s]

    def x_feof(self, i, s, args):
        if not self.file_arg(i, s, args[0], "feof"):
            return []
        s.env[i.id] = self.result_sym(i, "ext"); return [s]

    def x_fprintf(self, i, s, args):
        if not self.file_arg(i, s, args[0], "fprintf"):
            return []
        s.env[i.id] = self.result_sym(i, "ext"); return [s]

    def x___errno_location(self, i, s, args):
        oid = intern(("X", ("errno",)))
        s.env[i.id] = ("p", oid, 0, ())
        o = self.obj(s, oid)
        if 0 not in o.cells:
            o = s.wobj(oid)
            e = sym(("errno", self.ctx, i.id), 32)
            o.cells[0] = (e, 4)
            s.rng[e] = (1, 4095)
        return [s]

    def x_pthread_create(self, i, s, args):
        s2 = self.fork_fail(i, s, "thread creation")
        s.env[i.id] = I0
        e = self.result_sym(i, "ext")
        s2.env[i.id] = e; s2.rng[e] = (1, 4095)
        p = self.deref(s, args[0], i, "write")
        if p is not None:
            self.havoc_range(s, p, 8, i)
        return [s, s2]

    def x_pthread_join(self, i, s, args):
        s2 = s.copy()
        s.env[i.id] = I0
        e = self.result_sym(i, "ext")
        s2.env[i.id] = e; s2.rng[e] = (1, 4095)
        return [s, s2]


PURE = {"sin", "cos", "sqrt", "fabs", "ceil", "floor", "round", "pow", "exp", "log", "fmod", "htonl", "htons", "ntohl"}
NOEFFECT = {"printf", "fprintf", "strlen", "strcmp", "memcmp", "system", "nanosleep", "puts", "putchar", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_destroy", "pthread_mutex_destroy", "pthread_attr_destroy"}
