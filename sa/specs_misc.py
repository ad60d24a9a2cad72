"""Reference semantics of random choices, combinatorics, small numeric helpers, the thread pool, initialisation and rendering."""
import itertools, math
from spec import Skip, ANY, effects, close, show, SIZE, returned
from fun import Unresolved
import fun
from specs_seq import PureEngine, GoodEngine, calls, frees, fun_end, named
from specs_arrays import M, rnd_pos, trunc

SPECS = {}
OPTS = {}


def spec(*names, **opts):
    def deco(f):
        for n in names:
            SPECS[n] = (lambda S, f=f, n=n: f(S, n)) if f.__code__.co_argcount == 2 else f
            OPTS[n] = opts
        return f
    return deco


RANDOM = ("g", "sp_random_state")


class RandomEngine(PureEngine):
    """the random source is specified elsewhere; here every number it returns is one unknown"""
    NOFAIL = True

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sph_random_u32", "sph_random_u32_bounded", "sph_random_u32_array", "sph_random_u32_bounded_array"}


# ------------------------------------------------------------------ random choices
def bounded(S, f=None):
    """each call for a bounded random number returns one below the bound it passes"""
    def pick(E, n):
        for o in E.e.callobs(n):
            b = E.ev(o.extra[1])
            if b < 1:
                raise Unresolved("bound")
            return S.rnd.randrange(b)
        raise Unresolved("random number")
    S.E.results = {"sph_random_u32_bounded": pick}


def draws(E, V, bounds):
    """the random numbers drawn in order; they are drawn below these bounds"""
    got = [a for a in effects(E, "callback") if a.target() == ("fn", "sph_random_u32_bounded")]
    if bounds is not None and len(got) != len(bounds):
        V.fail("calls", got[-1].o.inst if got else None, "%d random numbers are drawn instead of %d" % (len(got), len(bounds)))
        return None
    out = []
    for k, a in enumerate(got):
        g = a.args()
        if a.args()[0] != ("ptr", RANDOM, 0):
            V.fail("calls", a.o.inst, "the state of the generator is %s" % show(g[0])); return None
        if bounds is not None and g[1] != bounds[k]:
            V.fail("calls", a.o.inst, "random number %d is drawn below %s instead of %d" % (k, show(g[1]), bounds[k])); return None
        out.append(a.result())
    return out


def discrete(S, limit=4):
    n = S.size("cudist_size", 1, 4) if limit == 4 else S.int("cudist_size", 1, limit)
    v = list(itertools.accumulate(S.rnd.randint(0, 3) for _ in range(n)))
    if not v[-1]:
        raise Skip()
    c = S.arr("cudist", "i32", n, values=v)
    bounded(S)
    return n, c, lambda r: next(k for k in range(n) if r < c[k])


def result_is(S, f):
    """the returned value, known once the random numbers are"""
    def check(E, V):
        x = f(E, V)
        if x is None:
            return
        r = returned(E)
        if not close(r, x):
            V.fail("return", None, "the result is %s instead of %s" % (show(r), show(x)))
    S.checks.append(check)


def array_is(S, name, t, f):
    def check(E, V):
        x = f(E, V)
        if x is None:
            return
        for k, w in enumerate(x):
            v = E.resolve(("arg", S.pos(name)), SIZE[t] * k, SIZE[t], t, fun_end())
            if not close(v, w):
                V.fail("value:" + name, None, "%s[%d] ends up as %s instead of %s" % (name, k, show(v), show(w))); return
    S.checks.append(check)


@spec("sp_time_random_discrete", engine=RandomEngine)
def _(S):
    n, c, k = discrete(S)

    def f(E, V):
        d = draws(E, V, [c[-1]])
        return d and k(d[0])
    result_is(S, f)


@spec("sp_times_random_discrete", engine=RandomEngine)
def _(S):
    n, c, k = discrete(S)
    m = S.size("count")
    S.arr("out", "i32", m, True)

    def f(E, V):
        d = draws(E, V, [c[-1]] * m)
        return d and [k(r) for r in d]
    array_is(S, "out", "i32", f)


@spec("sp_times_random_discrete_unique", engine=RandomEngine)
def _(S):
    n, c, k = discrete(S, 2)
    m = S.int("size", 0, 2)
    h = len({k(r) for r in range(c[-1])})
    if min(m, n) > h:
        raise Skip()
    S.arr("out", "i32", m, True)
    S.grow(4)

    def f(E, V):
        d = draws(E, V, None)
        if d is None:
            return None
        want = []
        for r in d:
            if k(r) not in want:
                want.append(k(r))
        if len(want) != min(m, n):
            V.fail("value:out", None, "%d different numbers are drawn instead of %d" % (len(want), min(m, n))); return None
        return want
    array_is(S, "out", "i32", f)


@spec("sp_time_random_discrete_bounded", engine=RandomEngine)
def _(S):
    n, c, k = discrete(S)
    if n < 2:
        raise Skip()
    x = S.val("range", 0, 50)

    def f(E, V):
        d = draws(E, V, [c[-1]])
        return None if d is None else rnd_pos(x * (k(d[0]) / (n - 1)))
    result_is(S, f)


@spec("sp_sample_random_discrete_bounded", engine=RandomEngine)
def _(S):
    n, c, k = discrete(S)
    x = S.real("range", 0.0, 50.0)

    def f(E, V):
        d = draws(E, V, [c[-1]])
        return None if d is None else x * (k(d[0]) / n)
    result_is(S, f)


@spec("sp_times_random_binary", engine=RandomEngine)
def _(S):
    n = S.size("size")
    S.arr("out", "i32", n, True)
    w = n // 32 + 1

    def check(E, V):
        got = named(V, E, "sph_random_u32_array")
        if not n and not got:
            return
        if len(got) != 1 or got[0].args()[1] * 32 < n:
            V.fail("calls", got[0].o.inst if got else None, "%s words of random bits are made for %d values" % ([a.args()[1] for a in got], n)); return
        p = got[0].args()[2]
        for k in range(n):
            v = E.resolve(("arg", S.pos("out")), 4 * k, 4, "i32", fun_end())
            if v not in (0, 1):
                V.fail("value:out", got[0].o.inst, "value %d is %s" % (k, show(v))); return
    S.checks.append(check)
    S.ret(0)


class MeanEngine(PureEngine):
    NOFAIL = True
    WRITES = {"sph_random_u32_bounded_array": [(3, (2, 4))]}

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sph_random_u32_bounded_array"}


@spec("sp_normal_random", engine=MeanEngine)
def _(S):
    lo = S.val("min", 0, 20); hi = lo + S.rnd.randint(1, 60); S.E.args[S.pos("max")] = hi
    n = 32; S.grow(n)
    v = [S.rnd.randrange(hi - lo) for _ in range(n)]
    for j, x in enumerate(v):
        S.preset[(("out", "sph_random_u32_bounded_array", 3, 0, ()), 4 * j)] = x

    def check(E, V):
        got = [a for a in effects(E, "callback") if a.target() == ("fn", "sph_random_u32_bounded_array")]
        if not got:
            raise Unresolved("numbers drawn one by one")
        if len(got) != 1 or got[0].args()[0] != ("ptr", RANDOM, 0) or got[0].args()[1] != hi - lo:
            V.fail("calls", got[0].o.inst if got else None, "the numbers are drawn with %s instead of below %d" % ([show(a) for g in got for a in g.args()[:2]], hi - lo)); return
        m = got[0].args()[2]
        if not 1 <= m <= n:
            raise Unresolved("number of values")
        w = lo + sum(v[:m]) / m
        if not close(returned(E), trunc(w)) and abs(w - round(w)) > 1e-6:
            V.fail("return", None, "the result is %s instead of %s" % (show(returned(E)), trunc(w)))
    S.checks.append(check)


@spec("sp_shuffle", engine=RandomEngine)
def _(S):
    n = S.size("count")
    S.func("swap", "swap")
    S.E.args[S.pos("in")] = p = ("ptr", ("arg", S.pos("in")), 0)
    S.areas[p[1]] = ("i8", 0, False)
    bounded(S)

    def check(E, V):
        d = draws(E, V, [n - i for i in range(n)])
        if d is not None:
            calls(V, E, [x for i in range(n) for x in (("sph_random_u32_bounded", [ANY, n - i]), ("swap", [p, i, i + d[i]]))])
    S.checks.append(check)


def shuffled(name, t):
    @spec(name, engine=RandomEngine)
    def _(S):
        n = S.size("count")
        a = S.arr("in", t, n, True)
        bounded(S)

        def f(E, V):
            d = draws(E, V, [n - i for i in range(n)])
            if d is None:
                return None
            b = list(a)
            for i in range(n):
                b[i], b[i + d[i]] = b[i + d[i]], b[i]
            return b
        array_is(S, "in", t, f)


shuffled("sp_times_shuffle", "i32"); shuffled("sp_samples_shuffle", "double")


@spec("sp_times_shuffle_swap")
def _(S):
    n = S.rnd.randint(1, 4)
    i = S.int("i1", 0, n - 1); j = S.int("i2", 0, n - 1); S.grow(n)
    a = S.arr("a", "ptr", n, True, [("ptr", ("n", "row", k), 0) for k in range(n)])
    a[i], a[j] = a[j], a[i]
    S.out("a", "ptr", a)


@spec("sp_time_deharmonize", engine=RandomEngine)
def _(S):
    a = S.int("a", 0, 30); b = S.int("base", 2, 9); t = S.real("amount", 0.0, 1.0)
    r = S.rnd.randint(0, b // 2 - 1); q = S.rnd.getrandbits(32)
    S.E.results = {"sph_random_u32_bounded": r, "sph_random_u32": q}
    near = (a + b // 2) // b * b
    amt = t * ((b - abs(a - near)) / b) * (1 + r)
    up = a > near or a < amt or a == near and not q & 1
    S.ret(trunc(a + amt if up else a - amt))


@spec("sp_times_select_random", engine=RandomEngine)
def _(S):
    n = S.int("size", 0, 2); S.grow(2)
    a = S.arr("a", "i32", n)
    S.arr("out", "i32", n, True)
    S.blank.add(("arg", S.pos("out")))
    i = S.pos("out_size"); S.E.args[i] = ("ptr", ("arg", i), 0)
    S.areas[("arg", i)] = ("i32", 1, True)
    S.ret(0)

    def check(E, V):
        m = E.resolve(("arg", i), 0, 4, "i32", fun_end())
        if m > n:
            V.fail("value:out_size", None, "%d of %d values are selected" % (m, n)); return
        k = 0
        for j in range(m):
            v = E.resolve(("arg", S.pos("out")), 4 * j, 4, "i32", fun_end())
            while k < n and a[k] != v:
                k += 1
            if k == n:
                V.fail("value:out", None, "the selection is not a subsequence of the values"); return
            k += 1
    S.checks.append(check)


# ------------------------------------------------------------------ combinatorics
def rows(S, name, count, want, width):
    """*name is an array of count rows, in any order the expected ones"""
    i = S.pos(name)
    S.E.args[i] = ("ptr", ("arg", i), 0)
    S.areas[("arg", i)] = ("ptr", 1, True)
    j = S.pos(count); S.E.args[j] = ("ptr", ("arg", j), 0)
    S.areas[("arg", j)] = ("i32", 1, True)

    def check(E, V):
        m = E.resolve(("arg", j), 0, 4, "i32", fun_end())
        if m != len(want):
            V.fail("value:out_size", None, "%s rows instead of %d" % (show(m), len(want))); return
        p = E.resolve(("arg", i), 0, 8, "ptr", fun_end())
        got = []
        for k in range(m):
            q = E.resolve(p[1], p[2] + 8 * k, 8, "ptr", fun_end())
            w = width(E, k)
            got.append(tuple(E.resolve(q[1], q[2] + 4 * x, 4, "i32", fun_end()) for x in range(w)))
        if sorted(got) != sorted(want):
            V.fail("value:out", None, "the rows are %s instead of %s" % (got, want))
    S.checks.append(check)


@spec("sp_times_permutations", engine=GoodEngine)
def _(S):
    n = S.int("size", 1, 2); S.int("set_size", n); S.grow(8)
    a = S.arr("set", "i32", n)
    S.ret(0)
    rows(S, "out", "out_size", list(itertools.permutations(a)), lambda E, k: n)


@spec("sp_times_compositions", engine=GoodEngine)
def _(S):
    n = S.int("sum", 1, 2); S.grow(4)
    i = S.pos("out_sizes"); S.E.args[i] = ("ptr", ("arg", i), 0)
    S.areas[("arg", i)] = ("ptr", 1, True)
    S.ret(0)

    def comp(n):
        if n == 0:
            return [()]
        return [(k,) + r for k in range(1, n + 1) for r in comp(n - k)]

    def width(E, k):
        p = E.resolve(("arg", i), 0, 8, "ptr", fun_end())
        return E.resolve(p[1], p[2] + 4 * k, 4, "i32", fun_end())
    rows(S, "out", "out_size", comp(n), width)


@spec("sp_times_sequences")
def _(S):
    b = S.int("base", 1, 3); d = S.int("digits", 1, 3); n = S.int("set_size", 1, 3)
    cur = [S.rnd.randint(0, b - 1) for _ in range(d)]
    r = list(cur)
    for _ in range(n - 1):
        for k in range(d):
            if cur[k] < b - 1:
                cur[k] += 1; break
            cur[k] = 0
        r += cur
    S.grow(d * n)
    S.arr("out", "i32", d * n, True, r[:d] + [S.rnd.randint(50, 99) for _ in r[d:]])
    S.out("out", "i32", r)


# ------------------------------------------------------------------ floating point helpers
@spec("sph_f64_nearly_equal")
def _(S):
    a = S.real("a"); b = S.real("b"); m = S.choice("margin", (0.1, 1.0, 5.0))
    if abs(abs(a - b) - m) < 1e-6:
        raise Skip()
    S.ret(int(abs(a - b) < m))


@spec("sph_f64_array_nearly_equal")
def _(S):
    n = S.size("a_len"); k = S.int("b_len", max(0, n - 1), n + 1)
    a = S.arr("a", "double", n); S.grow(n + 1)
    b = S.arr("b", "double", k, values=[(a[j] if j < n and S.rnd.random() < 0.8 else S.rnd.uniform(-9, 9)) + S.rnd.choice((0, 0.01, -0.01)) for j in range(k)])
    m = S.choice("error_margin", (0.1, 1.0))
    S.ret(int(n == k and all(abs(x - y) < m for x, y in zip(a, b))))


@spec("sph_f64_sum")
def _(S):
    n = S.size("len", 1, 4)
    S.ret(math.fsum(S.arr("numbers", "double", n)))


# ------------------------------------------------------------------ queue, thread pool, futures
def queue(S, i, n, off=0, base=None):
    b = base or ("arg", i)
    q = [("n", "entry", k) for k in range(n)]
    S.E.args[i] = ("ptr", b, 0)
    l = S.lay("sph_queue_t")
    S.struct(b, "sph_queue_t", {"size": n, "first": ("ptr", q[0], 0) if q else 0, "last": ("ptr", q[-1], 0) if q else 0}, off=off)
    for k in range(n):
        S.struct(q[k], "sph_queue_node_t", {"next": ("ptr", q[k + 1], 0) if k + 1 < n else 0})
    return b, l, q


def expect_queue(S, b, l, q, off=0):
    S.expect(b, off + l["size"], "i32", len(q), "number of entries")
    S.expect(b, off + l["first"], "ptr", ("ptr", q[0], 0) if q else 0, "first entry")
    if q:
        S.expect(b, off + l["last"], "ptr", ("ptr", q[-1], 0), "last entry")
    for k, x in enumerate(q):
        S.expect(x, 0, "ptr", ("ptr", q[k + 1], 0) if k + 1 < len(q) else 0, "entry after entry %d" % k)


@spec("sph_queue_init")
def _(S):
    b, l, q = queue(S, 0, S.rnd.randint(0, 2))
    expect_queue(S, b, l, [])


@spec("sph_queue_enq")
def _(S):
    b, l, q = queue(S, 0, S.rnd.randint(0, 3))
    x = ("n", "new", 0)
    S.struct(x, "sph_queue_node_t", {"next": ("ptr", ("n", "stale", 0), 0)})
    S.setptr(1, ("ptr", x, 0))
    expect_queue(S, b, l, q + [x])


@spec("sph_queue_deq")
def _(S):
    b, l, q = queue(S, 0, S.rnd.randint(1, 4))
    S.ret(("ptr", q[0], 0))
    expect_queue(S, b, l, q[1:])


class PoolEngine(PureEngine):
    """threads that are started run at another time; the pool itself is only changed by the function looked at"""
    NOFAIL = True

    def quiet_call(self, i, s, args):
        s.env[i.id] = ("i", 0)
        return [s]
    x_pthread_mutex_init = x_pthread_cond_init = x_pthread_attr_init = x_pthread_attr_setdetachstate = x_pthread_join = quiet_call

    def x_pthread_create(self, i, s, args):
        s2 = self.fork_fail(i, s, "thread creation")
        s.env[i.id] = s2.env[i.id] = ("i", 0)
        s2.env[i.id] = ("i", 11)
        return [s, s2]

    def x_pthread_exit(self, i, s, args):
        return [s]


class EnqueueEngine(PoolEngine):
    def __init__(self, *a, **k):
        PoolEngine.__init__(self, *a, **k)
        self.opaque |= {"sph_thread_pool_enqueue", "sph_thread_pool_finish", "sph_thread_pool_new", "sph_thread_pool_destroy"}


def pool(S, b, size=None):
    l = S.lay("sph_thread_pool_t")
    S.struct(b, "sph_thread_pool_t", {} if size is None else {"size": size})
    return l


def externs(E, V, want, also=()):
    """external calls with these names, in order"""
    names = {w[0] for w in want} | set(also)
    got = [a for a in effects(E, "extern", "callback") if a.target()[1] in names]
    g = [a.target()[1] for a in got]
    if g != [w[0] for w in want]:
        V.fail("calls", got[0].o.inst if got else None, "calls %s are made instead of %s" % (g, [w[0] for w in want])); return
    for a, (n, args) in zip(got, want):
        x = a.args()
        for k, w in enumerate(args):
            if w is ANY:
                continue
            if callable(w):
                r = w(a, x[k])
                if r:
                    V.fail("calls", a.o.inst, "argument %d of %s: %s" % (k + 1, n, r)); return
            elif x[k] != w:
                V.fail("calls", a.o.inst, "argument %d of %s is %s instead of %s" % (k + 1, n, show(x[k]), show(w))); return


@spec("sph_thread_pool_new", engine=PoolEngine)
def _(S):
    n = S.int("size", 0, 3) if S.rnd.random() < 0.8 else S.int("size", 129, 140); S.grow(3)
    p = ("ptr", ("arg", 1), 0); S.E.args[1] = p
    l = pool(S, ("arg", 1))
    th = l["threads"]
    if n > 3:
        S.ret(failure)
        S.checks.append(lambda E, V: externs(E, V, [], ["pthread_create"]))
        return
    S.expect(("arg", 1), l["size"], "i8", n, "size")
    S.expect(("arg", 1), l["queue"], "i32", 0, "number of entries")
    S.checks.append(lambda E, V: externs(E, V, [("pthread_create", [("ptr", ("arg", 1), th + 8 * k), ANY, ("fn", "sph_thread_pool_worker"), p]) for k in range(n)], ["pthread_create"]))
    S.ret(0)


def failure(x):
    """an error number"""
    return x != 0


@spec("sph_thread_pool_finish", engine=EnqueueEngine)
def _(S):
    n = S.rnd.randint(0, 3); S.grow(n)
    p = ("ptr", ("arg", 0), 0); S.E.args[0] = p
    l = pool(S, ("arg", 0), n)
    nowait = S.int("no_wait", 0, 1); discard = S.int("discard_queue", 0, 1)
    if discard:
        S.expect(("arg", 0), l["queue"], "i32", 0, "number of entries")
    threads = [("thread", k) for k in range(n)]
    for k in range(n):
        S.preset[(("arg", 0), l["threads"] + 8 * k)] = 1000 + k
    t = S.lay("sph_thread_pool_task_t")

    def task(a, q):
        if a.at(q, t["f"], "ptr") != ("fn", "sph_thread_finish"):
            return "the entry does not end the thread"
    want = [("sph_thread_pool_enqueue", [p, task])] * n
    if not nowait:
        want = want + [("pthread_join", [1000 + k, ANY]) for k in range(n)]
        if n:
            want = want + [("sph_thread_pool_destroy", [p])]
    S.checks.append(lambda E, V: externs(E, V, want, ["sph_thread_pool_enqueue", "pthread_join", "sph_thread_pool_destroy"]))
    S.expect(("arg", 0), l["size"], "i8", n if nowait else 0, "size")
    S.ret(0)


@spec("sph_thread_pool_enqueue", engine=PoolEngine)
def _(S):
    ql = S.lay("sph_queue_t")
    n = S.rnd.randint(0, 2)
    pool(S, ("arg", 0))
    b, l, q = queue(S, 0, n)
    x = ("n", "new", 0)
    S.struct(x, "sph_thread_pool_task_t", {})
    S.setptr(1, ("ptr", x, 0))
    expect_queue(S, b, l, q + [x])


@spec("sph_thread_finish", engine=PoolEngine)
def _(S):
    S.setptr(0, ("ptr", ("n", "task", 0), 0)); S.struct(("n", "task", 0), "sph_thread_pool_task_t", {})
    S.checks.append(lambda E, V: frees(V, E, [("n", "task", 0)]))


POOLV = ("g", "sph_futures_pool")


@spec("sph_future_init", engine=EnqueueEngine)
def _(S):
    n = S.int("thread_count", 1, 9); on = S.rnd.randint(0, 1)
    S.preset[(("g", "sph_futures_pool_is_initialized"), 0)] = on
    e = S.rnd.choice((0, 0, 11))
    S.E.results = {"sph_thread_pool_new": e}
    S.ret(0 if on else e)
    S.expect(("g", "sph_futures_pool_is_initialized"), 0, "i8", int(on or e == 0), "state of the pool")
    S.checks.append(lambda E, V: externs(E, V, [] if on else [("sph_thread_pool_new", [n, ("ptr", POOLV, 0)])], ["sph_thread_pool_new"]))


@spec("sph_future_deinit", engine=EnqueueEngine)
def _(S):
    on = S.rnd.randint(0, 1); e = S.rnd.choice((0, 1))
    S.preset[(("g", "sph_futures_pool_is_initialized"), 0)] = on
    S.E.results = {"sph_thread_pool_finish": e}
    S.expect(("g", "sph_futures_pool_is_initialized"), 0, "i8", int(on and e), "state of the pool")
    S.checks.append(lambda E, V: externs(E, V, [("sph_thread_pool_finish", [("ptr", POOLV, 0), 0, 0])] if on else [], ["sph_thread_pool_finish"]))


@spec("sph_future_new", engine=EnqueueEngine)
def _(S):
    l = S.lay("sph_future_t"); t = S.lay("sph_thread_pool_task_t")
    S.func("f", "work"); d = ("ptr", ("n", "data", 0), 0); S.setptr(S.pos("data"), d)
    b = ("arg", S.pos("out")); o = ("ptr", b, 0); S.setptr(S.pos("out"), o)
    S.struct(b, "sph_future_t", {"finished": 1})
    S.expect(b, l["finished"], "i8", 0, "finished")
    S.expect(b, l["f"], "ptr", ("fn", "work"), "f")
    S.expect(b, l["task"] + t["f"], "ptr", ("fn", "sph_future_eval"), "task.f")
    S.expect(b, l["task"] + t["data"], "ptr", d, "task.data")
    S.checks.append(lambda E, V: externs(E, V, [("sph_thread_pool_enqueue", [("ptr", POOLV, 0), ("ptr", b, l["task"])])]))


@spec("sph_future_eval", engine=EnqueueEngine)
def _(S):
    l = S.lay("sph_future_t"); t = S.lay("sph_thread_pool_task_t")
    b = ("n", "future", 0); d = ("ptr", ("n", "data", 0), 0)
    S.struct(b, "sph_future_t", {"finished": 0, "f": ("fn", "work")})
    S.preset[(b, l["task"] + t["data"])] = d
    S.setptr(0, ("ptr", b, l["task"]))
    S.checks.append(lambda E, V: calls(V, E, [("work", [d])]))
    S.expect(b, l["finished"], "i8", 1, "finished")


@spec("sph_future_touch", engine=EnqueueEngine)
def _(S):
    l = S.lay("sph_future_t"); t = S.lay("sph_thread_pool_task_t")
    b = ("arg", 0); d = ("ptr", ("n", "result", 0), 0)
    S.setptr(0, ("ptr", b, 0))
    S.struct(b, "sph_future_t", {"finished": 1})
    S.preset[(b, l["task"] + t["data"])] = d
    S.ret(d)


# ------------------------------------------------------------------ initialisation and rendering
class RenderEngine(PureEngine):
    """the steps of rendering are specified elsewhere; here only their order and what they are given matters"""
    NOFAIL = True
    WRITES = {"sp_block_new": [(2, 24)], "sp_file_open_write": [(3, 16)], "sp_render_range_block": [(5, 24)], "sp_samples_new": [(1, 8)], "sp_event_list_add": [(0, 8)]}

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sp_event_list_add", "sp_block_new", "sp_file_open_write", "sp_seq", "sp_file_write", "sp_block_zero", "sp_event_list_free", "sp_block_free", "sp_file_close_write", "sp_render_range_file", "sp_render_range_block", "sp_plot_samples"}


class InitEngine(PureEngine):
    NOFAIL = True
    WRITES = {"sp_samples_new": [(1, 8)]}

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sp_samples_new", "sp_sine_period", "sph_future_init", "sph_future_deinit", "sph_random_state_new", "sph_random_u32", "sp_deinitialize"}


SEED = 1557083953


@spec("sp_random_state_new", engine=InitEngine)
def _(S):
    seed = S.val("seed")
    here = lambda a, p: None if isinstance(p, tuple) and p[0] == "ptr" and p[1][0] == "param" else "not the state that is returned"
    S.checks.append(lambda E, V: calls(V, E, [("sph_random_state_new", [ANY, seed]), ("sph_random_u32", [here]), ("sph_random_u32", [here])]))


def render_event(S, end=None):
    b = ("param", 0); l = S.lay("sp_event_t")
    S.E.args[0] = ("ptr", b, 0)
    e = dict(start=S.rnd.randint(0, 3), generate=("fn", "generate"), config=("ptr", ("n", "config", 0), 0))
    if end is not None:
        e["end"] = end
    S.struct(b, "sp_event_t", e)
    return e, l


def is_event(S, e, l):
    def f(a, p):
        for k, t in (("start", "i32"), ("generate", "ptr"), ("config", "ptr")):
            if a.at(p, l[k], t) != e[k]:
                return "%s of the event is %s instead of %s" % (k, show(a.at(p, l[k], t)), show(e[k]))
    return f


def config(S, ch, rate, size, progress=0):
    S.E.args[S.pos("config.coerce0")] = ch | rate << 32
    S.E.args[S.pos("config.coerce1")] = size | progress << 32


@spec("sp_render_range_file", engine=RenderEngine)
def _(S):
    e, l = render_event(S, S.rnd.randint(1, 20))
    ch = S.rnd.randint(1, 2); rate = S.rnd.choice((1000, 44100)); bs = S.rnd.randint(1, 5)
    start = S.int("start", 0, 20); n = S.rnd.choice((0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + bs // 2, 3 * bs)); S.int("end", start + n)
    config(S, ch, rate, bs, S.rnd.randint(0, 1)); S.grow(4)
    path = ("ptr", ("n", "path", 0), 0); S.setptr("path", path)
    lb = S.lay("sp_block_t")
    blk = ("out", "sp_block_new", 2, 0, ())
    smp = [("ptr", ("n", "channel", k), 0) for k in range(2)]
    S.preset[(blk, lb["channel_count"])] = ch; S.preset[(blk, lb["size"])] = bs
    for k in range(2):
        S.preset[(blk, lb["samples"] + 8 * k)] = smp[k]
    S.preset[(("out", "sp_file_open_write", 3, 0, ()), 0)] = ("ptr", ("n", "stream", 0), 0)
    S.E.results = {}

    def block(a, p):
        for k in range(ch):
            if a.at(p, lb["samples"] + 8 * k, "ptr") != smp[k]:
                return "it is not the block"

    def samples(a, p):
        for k in range(ch):
            if a.at(p, 8 * k, "ptr") != smp[k]:
                return "it is not the samples of the block"
    want = [("sp_event_list_add", [ANY, is_event(S, e, l)]), ("sp_block_new", [ch, bs]), ("sp_file_open_write", [path, ch, rate])]
    t = start
    while t < start + n:
        m = min(bs, start + n - t)
        want += [("sp_seq", [t, t + m, block]), ("sp_file_write", [ANY, samples, m])]
        t += m
        if m == bs:
            want += [("sp_block_zero", [block])]
    # a block that is not used any more need not be cleared
    tail = [("sp_event_list_free", []), ("sp_block_free", []), ("sp_file_close_write", [])]
    S.checks.append(lambda E, V: steps(E, V, want, tail))
    S.ret(0)


def steps(E, V, want, tail):
    """the calls in order, then the final ones in any order"""
    got = effects(E, "callback")
    g = [a.target()[1] for a in got]
    names = [w[0] for w in want]
    alt = names[:-1] if names and names[-1] == "sp_block_zero" else names
    k = len(g) - len(tail)
    if g[:k] not in (names, alt) or sorted(g[k:]) != sorted(w[0] for w in tail):
        V.fail("calls", got[0].o.inst if got else None, "calls %s are made instead of %s" % (g, names + [w[0] for w in tail])); return
    for a, (n, args) in zip(got[:k], want):
        x = a.args()
        for j, w in enumerate(args):
            if w is ANY:
                continue
            r = w(a, x[j]) if callable(w) else None if x[j] == w else "is %s instead of %s" % (show(x[j]), show(w))
            if r:
                V.fail("calls", a.o.inst, "argument %d of %s: %s" % (j + 1, n, r)); return


@spec("sp_render_range_block", engine=RenderEngine)
def _(S):
    e, l = render_event(S, S.rnd.randint(1, 20))
    ch = S.rnd.randint(1, 2); bs = S.rnd.randint(1, 5)
    start = S.int("start", 0, 20); n = S.rnd.randint(0, 20); S.int("end", start + n)
    config(S, ch, 44100, bs)
    lb = S.lay("sp_block_t")
    blk = ("out", "sp_block_new", 2, 0, ())
    smp = [("ptr", ("n", "channel", k), 0) for k in range(2)]
    S.preset[(blk, lb["channel_count"])] = ch; S.preset[(blk, lb["size"])] = n
    for k in range(2):
        S.preset[(blk, lb["samples"] + 8 * k)] = smp[k]
    o = ("arg", S.pos("out")); S.setptr("out", ("ptr", o, 0))
    S.struct(o, "sp_block_t", {})
    S.expect(o, lb["channel_count"], "i8", ch, "channel_count"); S.expect(o, lb["size"], "i32", n, "size")
    for k in range(ch):
        S.expect(o, lb["samples"] + 8 * k, "ptr", smp[k], "samples")

    def block(a, p):
        for k in range(ch):
            if a.at(p, lb["samples"] + 8 * k, "ptr") != smp[k]:
                return "it is not the block"
    want = [("sp_event_list_add", [ANY, is_event(S, e, l)]), ("sp_block_new", [ch, n]), ("sp_seq", [start, start + n, block])]
    S.checks.append(lambda E, V: steps(E, V, want, [("sp_event_list_free", [])]))
    S.ret(0)


def globals_of(S):
    S.preset[(("g", "sp_rate"), 0)] = r = S.rnd.choice((10, 1000, 44100))
    S.preset[(("g", "sp_channel_count"), 0)] = c = S.rnd.randint(1, 2)
    return r, c


@spec("sp_render_file", "sp_render_plot", engine=RenderEngine)
def _(S, name):
    r, c = globals_of(S)
    end = S.rnd.choice((1, r - 1, r, 5 * r))
    e, l = render_event(S, end)
    plot = name == "sp_render_plot"
    S.preset[(("param", 0), l["prepare"])] = ("fn", "prepare")
    if not plot:
        path = ("ptr", ("n", "path", 0), 0); S.setptr("path", path)
    blk = ("out", "sp_render_range_block", 5, 0, ())
    ch0 = ("ptr", ("n", "channel", 0), 0)
    lb = S.lay("sp_block_t")
    S.preset[(blk, lb["samples"])] = ch0
    pack = lambda a, x: None if x >> 32 == r and x & 255 == c else "the channel count and rate are %d and %d instead of %d and %d" % (x & 255, x >> 32, c, r)
    args = [is_event(S, e, l), 0, end, pack, lambda a, x: None if x & 0xffffffff == 4 * r else "the block size is %d instead of %d" % (x & 0xffffffff, 4 * r)]
    if plot:
        want = [("sp_render_range_block", args), ("sp_plot_samples", [ch0, end])]
        tail = [("sp_block_free", [])]
    else:
        want = [("sp_render_range_file", args + [path])]; tail = []
    S.checks.append(lambda E, V: steps(E, V, want, tail))
    S.ret(0)


@spec("sp_initialize", engine=InitEngine)
def _(S):
    cpu = S.choice("cpu_count", (0, 0, 1, 2, 8, 128, 129, 500)); ch = S.int("channel_count", 1, 2); rate = S.choice("rate", (10, 1000, 44100, 96000))
    if cpu > 128:
        S.checks.append(lambda E, V: calls(V, E, []))
        S.ret(failure)
        return
    sine = ("ptr", ("n", "sine", 0), 0); lfo = ("ptr", ("n", "lfo", 0), 0)
    S.preset[(("out", "sp_samples_new", 1, 0, ()), 0)] = sine
    S.preset[(("out", "sp_samples_new", 1, 1, ()), 0)] = lfo
    gp = lambda n: ("ptr", ("g", n), 0)
    S.E.results = {"sph_future_init": 0}
    want = ([("sph_future_init", [cpu])] if cpu else []) + [("sph_random_state_new", [ANY, SEED]), ("sph_random_u32", []), ("sph_random_u32", []), ("sp_samples_new", [rate, gp("sp_sine_table")]), ("sp_samples_new", [rate * 100, gp("sp_sine_table_lfo")]), ("sp_sine_period", [rate, sine]), ("sp_sine_period", [rate * 100, lfo])]
    for n, t, v in (("sp_rate", "i32", rate), ("sp_channel_count", "i8", ch), ("sp_cpu_count", "i32", cpu), ("sp_sine_lfo_factor", "i32", 100)):
        S.expect(("g", n), 0, t, v, n)
    S.checks.append(lambda E, V: calls(V, E, want))
    S.ret(0)


@spec("sp_deinitialize", engine=InitEngine)
def _(S):
    cpu = S.rnd.choice((0, 1, 4))
    S.preset[(("g", "sp_cpu_count"), 0)] = cpu
    t = [("n", n, 0) for n in ("sine", "lfo")]
    S.preset[(("g", "sp_sine_table"), 0)] = ("ptr", t[0], 0)
    S.preset[(("g", "sp_sine_table_lfo"), 0)] = ("ptr", t[1], 0)
    S.checks.append(lambda E, V: calls(V, E, [("sph_future_deinit", [])] if cpu else []))
    S.checks.append(lambda E, V: frees(V, E, t))
    S.expect(("g", "sp_sine_table"), 0, "ptr", 0, "sp_sine_table"); S.expect(("g", "sp_sine_table_lfo"), 0, "ptr", 0, "sp_sine_table_lfo")


# ------------------------------------------------------------------ fourier transform
def dft(re, im, sign=-1):
    n = len(re); r = []
    for k in range(n):
        s = sum((complex(x, y) * complex(math.cos(2 * math.pi * j * k / n), sign * math.sin(2 * math.pi * j * k / n)) for j, (x, y) in enumerate(zip(re, im))), complex(0))
        r.append(s)
    return [x.real for x in r], [x.imag for x in r]


FFT_SIZES = (1, 2, 4, 4, 8)


class TransformEngine(PureEngine):
    """sizes that are not a power of two are reduced to a convolution, whose transforms have sizes that are"""
    NOFAIL = True

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"Fft_transformBluestein"}


class ConvolveEngine(PureEngine):
    NOFAIL = True
    WRITES = {"Fft_transform": [(0, (2, 8)), (1, (2, 8))], "Fft_inverseTransform": [(0, (2, 8)), (1, (2, 8))]}

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"Fft_transform", "Fft_inverseTransform"}


class ChirpEngine(PureEngine):
    NOFAIL = True
    WRITES = {"Fft_convolveComplex": [(4, (6, 8)), (5, (6, 8))]}

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"Fft_convolveComplex"}


@spec("sp_fft", "sp_ffti", engine=TransformEngine)
def _(S, name):
    n = S.choice("input_len", FFT_SIZES + (3, 5, 6, 7, 12)); S.grow(n)
    if n & (n - 1):
        a = S.arr("input_or_output_real", "double", n, True); S.arr("input_or_output_imag", "double", n, True)
        p = [("ptr", ("arg", S.pos(q)), 0) for q in ("input_or_output_real", "input_or_output_imag")]
        x = S.rnd.randint(0, 1)
        S.E.results = {"Fft_transformBluestein": x}
        S.checks.append(lambda E, V: calls(V, E, [("Fft_transformBluestein", (p if name == "sp_fft" else p[::-1]) + [n])]))
        S.ret(1 - x)
        return
    a = S.arr("input_or_output_real", "double", n, True, [S.rnd.uniform(-9, 9) for _ in range(n)]); b = S.arr("input_or_output_imag", "double", n, True, [S.rnd.uniform(-9, 9) for _ in range(n)])
    x, y = dft(a, b, -1 if name == "sp_fft" else 1)
    S.out("input_or_output_real", "double", x); S.out("input_or_output_imag", "double", y)
    S.ret(0)


def reals(S, base, n):
    v = [S.rnd.uniform(-9, 9) for _ in range(n)]
    for j, x in enumerate(v):
        S.preset[(base, 8 * j)] = x
    return v


def holds(vals):
    def f(a, p):
        for j, v in enumerate(vals):
            x = a.at(p, 8 * j, "double")
            if not close(x, v):
                return "element %d is %s instead of %s" % (j, show(x), show(v))
    return f


@spec("Fft_convolveComplex", engine=ConvolveEngine)
def _(S):
    n = S.size("n", 1, 4)
    x = [S.arr(k, "double", n) for k in ("xreal", "ximag", "yreal", "yimag")]
    t = [reals(S, ("out", "Fft_transform", j, r, ()), n) for r in (0, 1) for j in (0, 1)]
    z = [reals(S, ("out", "Fft_inverseTransform", j, 0, ()), n) for j in (0, 1)]
    S.E.results = {"Fft_transform": 1, "Fft_inverseTransform": 1}
    p = [(complex(a, b) * complex(c, d)) for a, b, c, d in zip(*t)]
    S.checks.append(lambda E, V: calls(V, E, [("Fft_transform", [holds(x[0]), holds(x[1]), n]), ("Fft_transform", [holds(x[2]), holds(x[3]), n]), ("Fft_inverseTransform", [holds([q.real for q in p]), holds([q.imag for q in p]), n])]))
    S.out("outreal", "double", [v / n for v in z[0]], n); S.out("outimag", "double", [v / n for v in z[1]], n)
    S.ret(1)


@spec("Fft_transformBluestein", engine=ChirpEngine)
def _(S):
    n = S.choice("n", (3, 5, 6, 7)); m = 16 if n > 3 else 8
    S.grow(n)
    S.fail_free = True
    a = S.arr("real", "double", n, True, [S.rnd.uniform(-9, 9) for _ in range(n)]); b = S.arr("imag", "double", n, True, [S.rnd.uniform(-9, 9) for _ in range(n)])
    w = [complex(math.cos(math.pi * i * i / n), math.sin(math.pi * i * i / n)) for i in range(n)]
    u = [complex(x, y) * c.conjugate() for x, y, c in zip(a, b, w)] + [0j] * (m - n)
    v = [0j] * m
    for i in range(n):
        v[i] = w[i]; v[-i] = w[i]
    c = [sum(u[j] * v[i - j] for j in range(m)) for i in range(m)]
    for j, f in enumerate((lambda q: q.real, lambda q: q.imag)):
        for i in range(m):
            S.preset[(("out", "Fft_convolveComplex", 4 + j, 0, ()), 8 * i)] = f(c[i])
    S.E.results = {"Fft_convolveComplex": 1}
    re = lambda l: holds([q.real for q in l]); im = lambda l: holds([q.imag for q in l])
    S.checks.append(lambda E, V: calls(V, E, [("Fft_convolveComplex", [re(u), im(u), re(v), im(v), ANY, ANY, m])]))
    r = [c[i] * w[i].conjugate() for i in range(n)]
    S.out("real", "double", [q.real for q in r]); S.out("imag", "double", [q.imag for q in r])
    S.ret(1)


# ------------------------------------------------------------------ statuses
def compare_strings(E, n):
    """result of strcmp for the arguments it is called with"""
    from structure import cstring
    for o in E.e.obs:
        if o.kind == "extern" and o.ctx == n[1] and (o.inst.fn.name, o.inst.id) == n[2:4]:
            s = []
            for a in o.extra:
                p = E.ev(a)
                s.append(E.strings[p[1]][p[2]:] if p[1] in E.strings else cstring(E.e.m, p[1][1], p[2]) if p[1][0] == "g" else None)
            if None in s:
                raise Unresolved("string")
            return 0 if s[0] == s[1] else 1 if s[0] > s[1] else M
    raise Unresolved("comparison")


TEXTS = {"sp": ({"eof": "end of file", "input_type": "input argument is of wrong type", "not_implemented": "not implemented", "memory": "memory allocation error", "file_write": "invalid file write", "file_read": "invalid file read", "file_not_implemented": "unsupported format (only 32 bit float supported)", "file_eof": "end of file", "invalid_argument": "invalid argument"}, {"eof": "eof", "input_type": "input-type", "not_implemented": "not-implemented", "memory": "memory", "file_write": "invalid-file-write", "file_read": "invalid-file-read", "file_not_implemented": "not-implemented", "file_eof": "end-of-file", "invalid_argument": "invalid-argument"}),
         "sph": ({"memory": "not enough memory or other memory allocation error"}, {"memory": "memory"})}


def status_jobs(ids):
    """what sp_status_description and sp_status_name return for each status of the headers"""
    def make(fn, which):
        def go(S):
            from structure import cstring
            group = S.rnd.choice(("sp", "sp", "sp", "sph"))
            own = {k.split("_id_")[1]: v for k, v in ids.items() if ("helper" in k) == (group == "sph") and not k.endswith("_undefined")}
            k = S.rnd.choice(sorted(own) + [None])
            n = own[k] if k else max(own.values()) + 100
            S.E.strings = {("n", "group", 0): group}
            S.E.args[0] = n; S.E.args[1] = ("ptr", ("n", "group", 0), 0)
            S.E.results = {"strcmp": compare_strings}
            want = TEXTS[group][which].get(k) if k else ("", "unknown")[which]

            def f(got):
                """a text of its own for the status"""
                if not (isinstance(got, tuple) and got[0] == "ptr" and got[1][0] == "g"):
                    return False
                t = cstring(S.eng.m, got[1][1], got[2])
                return t == want if want is not None else t not in ("", "unknown", None)
            f.__doc__ = "the text \"%s\" for status %s of group %s" % (want if want is not None else "...", k or "unknown", group)
            S.ret(f)
        return go
    return [("sp_status_description", make("sp_status_description", 0), {"engine": PureEngine}), ("sp_status_name", make("sp_status_name", 1), {"engine": PureEngine})]


# ------------------------------------------------------------------ releasing, wrappers and registers
@spec("sp_block_free", engine=PureEngine)
def _(S):
    lb = S.lay("sp_block_t"); b = ("arg", 0)
    S.E.args[0] = ("ptr", b, 0)
    n = S.rnd.randint(1, 2)
    S.struct(b, "sp_block_t", {"channel_count": n, "size": S.rnd.randint(1, 9)})
    for k in range(2):
        S.preset[(b, lb["samples"] + 8 * k)] = ("ptr", ("n", "channel", k), 0)
    S.grow(3)
    S.checks.append(lambda E, V: frees(V, E, [("n", "channel", k) for k in range(n)]))


@spec("sp_times_array_free", "sp_samples_array_free", engine=PureEngine)
def _(S):
    n = S.rnd.randint(0, 4)
    S.E.args[0] = ("ptr", ("arg", 0), 0); S.E.args[1] = n
    S.grow(n + 1)
    S.area(("arg", 0), "ptr", n, True, [("ptr", ("n", "row", k), 0) for k in range(n)])
    S.checks.append(lambda E, V: frees(V, E, [("n", "row", k) for k in range(n)] + [("arg", 0)]))


class PathTimesEngine(GoodEngine):
    WRITES = {"sp_path_samples": [(0, 8)], "sp_samples_to_times_replace": [(2, 8)]}

    def __init__(self, *a, **k):
        GoodEngine.__init__(self, *a, **k)
        self.opaque |= {"sp_path_samples", "sp_samples_to_times_replace"}


@spec("sp_path_times", engine=PathTimesEngine)
def _(S):
    n = S.val("length"); c = S.int("point_count", 2, 9)
    P = lambda x: ("ptr", ("arg", S.pos(x)), 0)
    for x in ("out", "x", "y", "c"):
        S.E.args[S.pos(x)] = P(x)
    S.areas[("arg", S.pos("out"))] = ("ptr", 1, True)
    t = ("ptr", ("n", "drawn", 0), 0)
    S.preset[(("out", "sp_path_samples", 0, 0, ()), 0)] = t
    S.ret(0)
    S.checks.append(lambda E, V: calls(V, E, [("sp_path_samples", [ANY, n, c, P("x"), P("y"), P("c")]), ("sp_samples_to_times_replace", [t, n, P("out")])]))
    S.checks.append(lambda E, V: frees(V, E, []))


@spec("sp_memory_new", engine=GoodEngine)
def _(S):
    n = S.int("size", 1, 5); l = S.lay("sp_memory_t"); b = ("arg", S.pos("a"))
    S.E.args[S.pos("a")] = ("ptr", b, 0)
    S.areas[b] = ("i8", S.eng.m.dist["sp_memory_t"]["size"], True)
    S.ret(0)
    S.expect(b, l["size"], "i64", n, "size"); S.expect(b, l["used"], "i64", 0, "used")
    rs = S.eng.m.dist["memreg2_t"]["size"]
    S.checks.append(lambda E, V: room(E, V, b, l, n * rs))


def room(E, V, b, l, need):
    d = E.resolve(b, l["data"], 8, "ptr", fun_end())
    if d == 0:
        V.fail("value:data", None, "there is no memory"); return
    for a in effects(E, "alloc"):
        if a.s.base(a.o.p[1])[0] == d[1]:
            g = a.s.ev(a.o.size if isinstance(a.o.size, tuple) else ("i", a.o.size))
            if g < need:
                V.fail("size", a.o.inst, "%d bytes are allocated where %d are needed" % (g, need))


@spec("sp_memory_resize", engine=GoodEngine)
def _(S):
    lr = S.lay("memreg2_t"); rs = S.eng.m.dist["memreg2_t"]["size"]
    l = S.lay("sp_memory_t"); b = ("arg", S.pos("a")); D = ("n", "entries", 0)
    S.E.args[S.pos("a")] = ("ptr", b, 0)
    old = S.rnd.randint(1, 4); used = S.rnd.randint(0, old); n = S.int("new_size", 1, 6)
    S.struct(b, "sp_memory_t", {"data": ("ptr", D, 0), "size": old, "used": used})
    S.areas[D] = ("i8", old * rs, True)
    S.grow(5)
    for j in range(used):
        S.preset[(D, j * rs + lr["address"])] = ("ptr", ("n", "memory", j), 0)
        S.preset[(D, j * rs + lr["handler"])] = ("fn", "release%d" % j)
    keep = min(used, n)
    S.ret(0)
    S.expect(b, l["size"], "i64", n, "size"); S.expect(b, l["used"], "i64", keep, "used")

    def check(E, V):
        d = E.resolve(b, l["data"], 8, "ptr", fun_end())
        if d == 0:
            V.fail("value:data", None, "there is no memory"); return
        for j in range(keep):
            for f, w in (("address", ("ptr", ("n", "memory", j), 0)), ("handler", ("fn", "release%d" % j))):
                g = E.resolve(d[1], d[2] + j * rs + lr[f], 8, "ptr", fun_end())
                if g != w:
                    V.fail("value:entry", None, "%s of entry %d ends up as %s instead of %s" % (f, j, show(g), show(w))); return
    S.checks.append(check)




@spec("sph_helper_primitive_malloc", "sph_helper_primitive_calloc", engine=GoodEngine)
def _(S, name):
    n = S.int("size", 1, 40)
    i = S.pos("result"); S.E.args[i] = ("ptr", ("arg", i), 0); S.areas[("arg", i)] = ("ptr", 1, True)
    S.ret(0)

    def check(E, V):
        d = E.resolve(("arg", i), 0, 8, "ptr", fun_end())
        for a in effects(E, "alloc"):
            if d and a.s.base(a.o.p[1])[0] == d[1]:
                g = a.s.ev(a.o.size if isinstance(a.o.size, tuple) else ("i", a.o.size))
                if g < n:
                    V.fail("size", a.o.inst, "%d bytes are allocated where %d are requested" % (g, n))
                return
        V.fail("value:result", None, "the result is %s, not the allocated memory" % show(d))
    S.checks.append(check)


@spec("sph_helper_primitive_malloc_string", engine=GoodEngine)
def _(S):
    n = S.int("length", 0, 40)
    i = S.pos("result"); S.E.args[i] = ("ptr", ("arg", i), 0); S.areas[("arg", i)] = ("ptr", 1, True)
    S.ret(0)

    def check(E, V):
        d = E.resolve(("arg", i), 0, 8, "ptr", fun_end())
        if d == 0:
            V.fail("value:result", None, "there is no result"); return
        g = E.resolve(d[1], d[2] + n, 1, "i8", fun_end())
        if g != 0:
            V.fail("value:result", None, "the string of length %d is terminated with %s" % (n, show(g)))
    S.checks.append(check)
