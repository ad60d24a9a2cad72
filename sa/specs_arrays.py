"""Reference semantics of the array operations."""
import math
from spec import Skip, ANY

M = (1 << 32) - 1
SPECS = {}


def spec(*names):
    def deco(f):
        for n in names:
            SPECS[n] = f
        return f
    return deco


def rnd_pos(x):
    return trunc(0.5 + x)


def trunc(x):
    if math.isnan(x) or math.isinf(x) or not 0 <= math.trunc(x) <= M:
        raise Skip()
    return math.trunc(x)


def lin(a, b, t):
    return (1 - t) * a + t * b


for tn, T in (("times", "i32"), ("samples", "double")):
    one = tn[:-1]

    def wrap(x, T=T):
        return x & M if T == "i32" else float(x)

    def sub(a, b, T=T):
        if T == "i32":
            return a - b if a > b else 0
        return a - b

    def scal(S, n, T=T):
        return S.val(n) if T == "i32" else S.real(n)

    def map1(name, f, T=T, tn=tn, scal=scal, wrap=wrap):
        @spec("sp_%s_%s" % (tn, name))
        def g(S):
            n = S.size("count", 0, 4); v = scal(S, "value")
            if name == "divide" and v == 0:
                raise Skip()
            a = S.arr("in_out", T, n, True)
            S.out("in_out", T, [wrap(f(x, v)) for x in a])

    def map2(name, f, T=T, tn=tn, wrap=wrap):
        @spec("sp_%s_%s_%s" % (tn, name, tn))
        def g(S):
            n = S.size("count", 0, 4); b = S.arr("in", T, n)
            if name == "divide" and 0 in b:
                raise Skip()
            a = S.arr("in_out", T, n, True)
            S.out("in_out", T, [wrap(f(x, y)) for x, y in zip(a, b)])

    div = (lambda x, y: x // y) if T == "i32" else (lambda x, y: x / y)
    for nm, f in (("add", lambda x, v: x + v), ("multiply", lambda x, v: x * v), ("divide", div), ("set", lambda x, v: v), ("subtract", sub)):
        map1(nm, f)
        if nm != "set":
            map2(nm, f)

    @spec("sp_%s_square" % tn)
    def _(S, T=T, wrap=wrap):
        n = S.size("count", 0, 4)
        a = S.arr("in", T, n, True); S.out("in", T, [wrap(x * x) for x in a])

    @spec("sp_%s_copy" % tn)
    def _(S, T=T):
        n = S.size("count", 0, 4); a = S.arr("in", T, n); S.out("out", T, a)

    @spec("sp_%s_reverse" % tn)
    def _(S, T=T):
        n = S.size("count", 0, 4); a = S.arr("in", T, n); S.out("out", T, a[::-1])

    @spec("sp_%s_min" % tn)
    def _(S, T=T):
        n = S.size("count", 1, 4); S.ret(min(S.arr("in", T, n)))

    @spec("sp_%s_max" % tn)
    def _(S, T=T):
        n = S.size("count", 1, 4); S.ret(max(S.arr("in", T, n)))

    @spec("sp_%s_absolute_max" % tn)
    def _(S, T=T):
        n = S.size("count", 0, 4); a = S.arr("in", T, n); S.ret(max([abs(x) for x in a] + [0 if T == "i32" else 0.0]))

    @spec("sp_%s_equal" % tn)
    def _(S, T=T, scal=scal):
        n = S.size("count", 0, 4); v = scal(S, "value")
        a = S.arr("in", T, n, values=[v if S.rnd.random() < 0.7 else S.E.rnd_value(T) for _ in range(n)])
        S.ret(int(all(x == v for x in a)))

    @spec("sp_%s_cusum" % tn)
    def _(S, T=T, wrap=wrap):
        n = S.rnd.randint(1, 4); S.E.args[S.pos("count")] = n if T == "i32" else float(n)
        a = S.arr("in", T, n)
        S.out("out", T, [wrap(sum(a[:i + 1])) for i in range(n)])

    @spec("sp_%s_swap" % tn)
    def _(S, T=T):
        n = 4; a = S.arr("in_out", T, n, True); i = S.int("index_1", 0, 3); j = S.int("index_2", 0, 3)
        a[i], a[j] = a[j], a[i]
        S.out("in_out", T, a)

    @spec("sp_%s_sort_swap" % one)
    def _(S, T=T):
        n = 4; a = S.arr("a", T, n, True); i = S.int("b", 0, 3); j = S.int("c", 0, 3)
        a[i], a[j] = a[j], a[i]
        S.out("a", T, a)

    @spec("sp_%s_sort_less" % one)
    def _(S, T=T):
        n = 4; a = S.arr("a", T, n); i = S.int("b", 0, 3); j = S.int("c", 0, 3)
        S.ret(int(a[i] < a[j]))

    @spec("sp_%s_additions" % tn)
    def _(S, T=T, wrap=wrap, scal=scal):
        n = S.rnd.randint(0, 4); S.E.args[S.pos("count")] = n if T == "i32" else float(n)
        s = scal(S, "start"); d = scal(S, "summand")
        S.out("out", T, [wrap(s + i * d) for i in range(n)])

    @spec("sp_%s_range" % tn)
    def _(S, T=T):
        s = S.int("start", 0, 3); e = S.int("end", s, 5); a = S.arr("in", T, e); S.out("out", T, a[s:e])

    def logic(name, f, T=T, tn=tn, scal=scal):
        @spec("sp_%s_%s_%s" % (tn, name, tn))
        def g(S):
            n = S.size("count", 0, 4); l = scal(S, "limit"); a = S.arr("a", T, n); b = S.arr("b", T, n)
            S.out("out", T, [f(x, y, l) for x, y in zip(a, b)])

    Z = 0 if T == "i32" else 0.0
    logic("and", lambda x, y, l, Z=Z: y if x >= l and y >= l else Z)
    logic("or", lambda x, y, l: x if x >= l else y if y >= l else x)
    logic("xor", lambda x, y, l, Z=Z: Z if x >= l and y >= l else x if x >= l else y if y >= l else x)


@spec("sp_time_sum")
def _(S):
    n = S.size("size", 0, 4); S.ret(sum(S.arr("in", "i32", n)) & M)


@spec("sp_times_sum")
def _(S):
    n = S.size("size", 0, 4); S.ret(sum(S.arr("a", "i32", n)) & M)


@spec("sp_times_sequence_increment")
def _(S):
    n = S.size("size", 0, 4); b = S.int("set_size", 1, 3)
    a = S.arr("in", "i32", n, True, values=[S.rnd.choice((b - 1, b - 1, 0)) for _ in range(n)])
    r = list(a)
    for i in range(n):
        if r[i] < b - 1:
            r[i] += 1
            break
        r[i] = 0
    S.out("in", "i32", r)


@spec("sp_times_select")
def _(S):
    n = S.size("count", 0, 4); a = S.arr("in", "i32", 4)
    v = [S.rnd.randint(0, 3) for _ in range(n)]
    if S.same("out", "in"):
        if S.rnd.random() < 0.7:
            v = [max(i, x) for i, x in enumerate(v)]
        elif any(x < i for i, x in enumerate(v)):
            S.same("out", "in", "in place, earlier elements")
    S.same("out", "indices")
    ix = S.arr("indices", "i32", n, values=v)
    S.out("out", "i32", [a[i] for i in ix])


@spec("sp_times_gt_indices")
def _(S):
    n = S.size("size", 0, 4); v = S.int("n", 0, 5); a = S.arr("a", "i32", n)
    r = [i for i in range(n) if a[i] > v]
    S.same("out", "a")
    S.out("out", "i32", r, n); S.out("out_size", "i32", [len(r)])


@spec("sp_times_extract_in_range")
def _(S):
    n = S.size("size", 0, 4); lo = S.int("min", 0, 4); hi = S.int("max", 0, 7); a = S.arr("a", "i32", n)
    r = [x for x in a if lo <= x <= hi]
    S.out("out", "i32", r, n); S.out("out_size", "i32", [len(r)])


@spec("sp_times_scale_sum")
def _(S):
    n = S.size("count", 1, 4); t = S.int("sum", 1, 40); a = S.arr("in", "i32", n)
    if not 0 < sum(a) < M:
        raise Skip()
    S.same("out", "in")
    S.out("out", "i32", [rnd_pos(x * (t / sum(a))) for x in a])


@spec("sp_times_scale_y")
def _(S):
    n = S.size("count", 1, 4); t = S.int("target_y", 1, 40); a = S.arr("in", "i32", n)
    if max(a) == 0:
        raise Skip()
    S.same("out", "in")
    S.out("out", "i32", [rnd_pos(x * (t / max(a))) for x in a])


@spec("sp_times_multiplications")
def _(S):
    n = S.size("count", 0, 4); s = S.int("start", 0, 5); f = S.int("factor", 0, 5)
    S.out("out", "i32", [s * f ** i & M for i in range(n)])


@spec("sp_times_contains")
def _(S):
    n = S.size("count", 0, 4); v = S.int("value", 0, 3); a = S.arr("in", "i32", n); S.ret(int(v in a))


@spec("sp_times_blend")
def _(S):
    n = S.size("size", 0, 4); t = S.real("fraction", 0.0, 1.0); a = S.arr("a", "i32", n); b = S.arr("b", "i32", n)
    S.out("out", "i32", [rnd_pos(rnd_pos(lin(x, y, t))) for x, y in zip(a, b)])


@spec("sp_times_mask")
def _(S):
    n = S.size("size", 0, 4); a = S.arr("a", "i32", n); b = S.arr("b", "i32", n)
    c = S.arr("coefficients", "double", n, values=[S.rnd.choice((0.0, 1.0, 0.25, 0.5, 0.8)) for _ in range(n)])
    S.out("out", "i32", [rnd_pos(rnd_pos(lin(x, y, t))) for x, y, t in zip(a, b, c)])


@spec("sp_times_limit")
def _(S):
    n = S.size("count", 0, 4); v = S.int("n", 0, 5); a = S.arr("a", "i32", n); S.out("out", "i32", [min(v, x) for x in a])


@spec("sp_times_make_seamless_right")
def _(S):
    an = S.size("a_count", 0, 4); bn = S.size("b_count", 0, 6); a = S.arr("a", "i32", an); b = S.arr("b", "i32", bn)
    c = min(an, bn // 2); s = an - c
    S.out("out", "i32", a[:s] + [rnd_pos(lin(a[i + s], b[c - 1 - i], (1 + i) / c)) for i in range(c)])


@spec("sp_times_make_seamless_left")
def _(S):
    an = S.size("a_count", 0, 6); bn = S.size("b_count", 0, 4); a = S.arr("a", "i32", an); b = S.arr("b", "i32", bn)
    c = min(bn, an // 2)
    S.out("out", "i32", [rnd_pos(lin(b[i], a[an - 1 - i], (c - i) / c)) for i in range(c)] + b[c:])


@spec("sp_times_remove")
def _(S):
    n = S.size("size", 1, 4); i = S.int("index", 0, n - 1); c = S.int("count", 0, n - i); a = S.arr("in", "i32", n)
    S.out("out", "i32", a[:i] + a[i + c:])


@spec("sp_times_insert_space")
def _(S):
    n = S.size("size", 1, 4); i = S.int("index", 0, n); c = S.size("count", 0, 3); a = S.arr("in", "i32", n)
    S.out("out", "i32", a[:i] + [ANY] * c + a[i:])


@spec("sp_times_subdivide_difference")
def _(S):
    n = S.size("size", 2, 4); i = S.int("index", 0, n - 2); c = S.size("count", 0, 3)
    a = [S.rnd.randint(0, 9)]
    for _ in range(n - 1):
        a.append(a[-1] + S.rnd.randint(1, 12))
    S.arr("a", "i32", n, values=a)
    v = (a[i + 1] - a[i]) // (c + 1)
    S.out("out", "i32", a[:i + 1] + [a[i] + (j + 1) * v for j in range(c)] + a[i + 1:])


@spec("sp_times_to_samples")
def _(S):
    n = S.size("count", 0, 4); a = S.arr("in", "i32", n); S.out("out", "double", [float(x) for x in a])


@spec("sp_samples_to_times")
def _(S):
    n = S.size("count", 0, 4); a = S.arr("in", "double", n, values=[S.rnd.choice((0.0, 0.4, 0.6, 1.2, 3.9, 7.0)) for _ in range(n)])
    S.out("out", "i32", [rnd_pos(x) for x in a])


@spec("sp_samples_to_units")
def _(S):
    n = S.size("count", 0, 4); a = S.arr("in_out", "double", n, True); S.out("in_out", "double", [(x + 1) / 2 for x in a])


@spec("sp_samples_set_gain")
def _(S):
    n = S.size("count", 0, 4); g = S.real("amp"); a = S.arr("in_out", "double", n, True)
    m = max([abs(x) for x in a] + [0.0])
    S.out("in_out", "double", a if m == 0 or g == 0 else [x * g / m for x in a])


@spec("sp_samples_set_unity_gain")
def _(S):
    n = S.size("count", 0, 4); a = S.arr("in_out", "double", n, True); r = S.arr("reference", "double", n)
    m = max([abs(x) for x in a] + [0.0]); g = max([abs(x) for x in r] + [0.0])
    S.out("in_out", "double", a if m == 0 or g == 0 else [x * g / m for x in a])


@spec("sp_samples_differences")
def _(S):
    n = S.size("count", 2, 5); a = S.arr("a", "double", n); S.out("out", "double", [a[i] - a[i - 1] for i in range(1, n)])


@spec("sp_samples_divisions")
def _(S):
    n = S.size("count", 0, 4); s = S.real("start"); d = S.real("divisor")
    if d == 0:
        raise Skip()
    S.out("out", "double", [s / d ** i for i in range(n)])


@spec("sp_samples_scale_y")
def _(S):
    n = S.size("count", 1, 4); t = S.real("target_y"); a = S.arr("in", "double", n, True)
    m = max(abs(x) for x in a)
    if m == 0:
        raise Skip()
    S.out("in", "double", [x * t / m for x in a])


@spec("sp_samples_scale_sum")
def _(S):
    n = S.size("count", 1, 4); t = S.real("target_y"); a = S.arr("in", "double", n)
    s = math.fsum(a)
    if abs(s) < 1e-3:
        raise Skip()
    S.same("out", "in")
    S.out("out", "double", [x * (t / s) for x in a])


@spec("sp_samples_blend")
def _(S):
    n = S.size("size", 0, 4); t = S.real("fraction", 0.0, 1.0); a = S.arr("a", "double", n); b = S.arr("b", "double", n)
    S.out("out", "double", [lin(x, y, t) for x, y in zip(a, b)])


@spec("sp_samples_limit_abs")
def _(S):
    n = S.size("count", 0, 4); l = S.real("limit", 0.0, 2.0); a = S.arr("in", "double", n)
    S.same("out", "in")
    S.out("out", "double", [max(-l, min(l, x)) for x in a])


@spec("sp_samples_limit")
def _(S):
    n = S.size("count", 0, 4); l = S.real("limit"); a = S.arr("in_out", "double", n, True)
    S.out("in_out", "double", [min(l, x) for x in a])


@spec("sp_times_bits_to_times")
def _(S):
    n = S.size("size", 0, 4); w = (n + 31) // 32; a = S.arr("a", "i32", w, values=[S.rnd.randint(0, M) for _ in range(w)])
    S.same("out", "a")
    S.out("out", "i32", [a[i // 32] >> i % 32 & 1 for i in range(n)])


@spec("sp_u64_from_array")
def _(S):
    n = S.size("count", 0, 9)
    a = [S.rnd.randint(0, 255) for _ in range(8)]
    base = ("arg", S.pos("a")); S.E.args[S.pos("a")] = S.ptr(base)
    S.areas[base] = ("i8", n if n < 9 else 0, False)

    def hook(b, off, t, base=base):
        if b == base:
            k = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}[t]
            return int.from_bytes(bytes((a[off + i] if 0 <= off + i < 8 else 0) for i in range(k)), "little")
        return None
    S.E.mem_hook = hook
    S.ret(int.from_bytes(bytes(a[:n]), "little") if 1 <= n <= 8 else 0)


@spec("sp_time_expt")
def _(S):
    b = S.int("base", 0, 9); e = S.int("exp", 0, 4)
    S.ret(b ** e & M)


@spec("sp_time_factorial")
def _(S):
    n = S.int("n", 0, 5); S.ret(math.factorial(n))


@spec("sp_times_constant")
def _(S):
    n = S.size("count", 1, 4); v = S.val("value")
    S.fresh("out", "i32", [v] * n); S.ret(0)


for tn, T in (("times", "i32"), ("samples", "double")):
    @spec("sp_%s_new" % tn)
    def _(S, T=T):
        n = S.size("count", 1, 4); S.fresh("out", T, [0 if T == "i32" else 0.0] * n); S.ret(0)

    @spec("sp_%s_duplicate" % tn)
    def _(S, T=T):
        n = S.size("count", 1, 4); a = S.arr("a", T, n); S.fresh("out", T, a); S.ret(0)


@spec("sp_times_to_samples_replace")
def _(S):
    n = S.size("count", 1, 4); a = S.arr("in", "i32", n, values=[S.rnd.randint(0, 9) for _ in range(n)])
    S.fresh("out", "double", [float(x) for x in a]); S.ret(0)


@spec("sp_samples_to_times_replace")
def _(S):
    n = S.size("count", 1, 4); a = S.arr("in", "double", n, values=[S.rnd.choice((0.0, 0.4, 0.6, 1.2, 3.9, 7.0)) for _ in range(n)])
    S.fresh("out", "i32", [rnd_pos(x) for x in a]); S.ret(0)


@spec("sp_times_scale")
def _(S):
    n = S.size("count", 1, 4); f = S.int("factor", 1, 4); a = S.arr("in", "i32", n, values=[S.rnd.randint(0, 50) for _ in range(n)])
    S.out("out", "i32", [rnd_pos(lin(a[i - 1] * f, a[i] * f, j / f)) for i in range(1, n) for j in range(f)]); S.ret(0)


# calls with the output being an input, where the documentation allows it
INPLACE = [("sp_times_gt_indices", "out", "a"), ("sp_times_select", "out", "in"), ("sp_times_select", "out", "indices"), ("sp_times_scale_sum", "out", "in"),
           ("sp_times_scale_y", "out", "in"), ("sp_times_bits_to_times", "out", "a"), ("sp_samples_scale_sum", "out", "in"), ("sp_samples_limit_abs", "out", "in")]
