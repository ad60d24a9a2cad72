"""Reference semantics of blocks, oscillators, phase arithmetic, convolution, filters and small helpers."""
import math
from spec import Skip, ANY
from specs_arrays import M, rnd_pos, trunc, lin

SPECS = {}


def spec(*names):
    def deco(f):
        for n in names:
            SPECS[n] = f
        return f
    return deco


# ---------------------------------------------------------------- scalars
@spec("sp_sample_max")
def _(S):
    a = S.real("a"); b = S.real("b"); S.ret(max(a, b))


@spec("sp_sample_min")
def _(S):
    a = S.real("a"); b = S.real("b"); S.ret(min(a, b))


@spec("sp_time_max")
def _(S):
    a = S.val("a"); b = S.val("b"); S.ret(max(a, b))


@spec("sp_time_min")
def _(S):
    a = S.val("a"); b = S.val("b"); S.ret(min(a, b))


@spec("sp_phase")
def _(S):
    c = S.val("cycle", 1); a = S.val("current"); d = S.val("change")
    if a + d > M:
        raise Skip()
    S.ret((a + d) % c)


@spec("sp_phase_float")
def _(S):
    c = S.val("cycle", 1); a = S.val("current"); d = S.choice("change", (0.0, 0.1, 1.0, 1.5, 2.0, 2.9, 7.01, 12.0))
    if a + d > M - 2:
        raise Skip()
    S.ret((a + math.ceil(d)) % c)


@spec("sp_sinc")
def _(S):
    a = S.real("a"); S.ret(1.0 if a == 0 else math.sin(math.pi * a) / (math.pi * a))


@spec("sp_window_blackman")
def _(S):
    a = S.real("a", 0.0, 6.0); w = S.int("width", 2, 9)
    S.ret(0.42 - 0.5 * math.cos(2 * math.pi * a / (w - 1)) + 0.08 * math.cos(4 * math.pi * a / (w - 1)))


@spec("sp_windowed_sinc_lp_hp_ir_length")
def _(S):
    t = S.choice("transition", (0.01, 0.08, 0.1, 0.3, 0.5, 0.9, 1.0, 1.5, 2.0, 3.9, 4.0))
    n = math.ceil(4 / t); S.ret(n + 1 if n % 2 == 0 else n)


@spec("sp_triangle")
def _(S):
    t = S.val("t"); a = S.int("a", 0, 5); b = S.int("b", 0 if a else 1, 5)
    r = t % (a + b)
    S.ret(r / a if r < a else (b - (r - a)) / b)


@spec("sp_square")
def _(S):
    t = S.int("t", 0, 40); n = S.int("size", 1, 9)
    S.ret(-1.0 if 2 * t % (2 * n) < n else 1.0)


@spec("sp_pan_to_amp")
def _(S):
    v = S.real("value", -0.5, 2.5); c = S.int("channel", 0, 1)
    S.ret(min(max(v, 0.0), 0.5) / 0.5 if c else 1 - (min(max(v, 0.5), 1.0) - 0.5) / 0.5)


@spec("sp_modulo_match")
def _(S):
    i = S.val("index", 0, 40); n = S.size("divisor_count", 1, 4)
    d = S.arr("divisors", "i64", n, values=[S.rnd.randint(1, 6) for _ in range(n)])
    S.ret(next((j for j in range(n) if i % d[j] == 0), n - 1))


@spec("sp_set_sequence_max")
def _(S):
    a = S.int("set_size", 0, 6); b = S.int("selection_size", 0, 5); S.ret(0 if a == 0 else a ** b & M)


@spec("sp_permutations_max")
def _(S):
    a = S.int("set_size", 0, 6); b = S.int("selection_size", 0, a); S.ret(math.factorial(a) // math.factorial(a - b))


@spec("sp_compositions_max")
def _(S):
    a = S.int("sum", 1, 12); S.ret(2 ** (a - 1)); S.grow(5)


@spec("sp_time_expt")
def _(S):
    b = S.val("base", 0, 9); e = S.int("exp", 0, 40); S.grow(7); S.ret(pow(b, e, M + 1))


@spec("sp_time_factorial")
def _(S):
    n = S.int("n", 0, 12); S.grow(13); S.ret(math.factorial(n))


@spec("sp_time_harmonize")
def _(S):
    a = S.int("a", 0, 30); b = S.int("base", 1, 9); t = S.real("amount", 0.0, 1.0)
    near = (a + b // 2) // b * b
    S.ret(trunc(a + t * (near - a)))


@spec("sp_time_round_to_multiple")
def _(S):
    a = S.int("a", 0, 40); b = S.int("base", 1, 9)
    S.ret(b if a == 0 else rnd_pos(a / b) * b)


@spec("sp_sample_round_to_multiple")
def _(S):
    a = S.real("a", 0.0, 40.0); b = S.real("base", 0.25, 9.0)
    if abs(a / b % 1 - 0.5) < 1e-6:
        raise Skip()
    S.ret(b if a == 0 else rnd_pos(a / b) * b)


@spec("sp_compositions_max")
def _(S):
    a = S.int("sum", 1, 6); S.ret(2 ** (a - 1))


# ---------------------------------------------------------------- spectra and impulse responses
@spec("sp_spectral_inversion_ir")
def _(S):
    n = 2 * S.rnd.randint(0, 2) + 1; S.E.args[S.pos("a_len")] = n; S.grow(n)
    a = S.arr("a", "double", n, True)
    S.out("a", "double", [-x + (1 if i == n // 2 else 0) for i, x in enumerate(a)])


@spec("sp_spectral_reversal_ir")
def _(S):
    n = 2 * S.rnd.randint(0, 3) + 1; S.E.args[S.pos("a_len")] = n; S.grow(n)
    a = S.arr("a", "double", n, True)
    S.out("a", "double", [-x if i % 2 else x for i, x in enumerate(a)])


@spec("sp_null_ir")
def _(S):
    S.fresh("out_ir", "double", [0.0]); S.out("out_len", "i32", [1]); S.ret(0)


@spec("sp_passthrough_ir")
def _(S):
    S.fresh("out_ir", "double", [1.0]); S.out("out_len", "i32", [1]); S.ret(0)


def sinc_ir(cutoff, transition, high):
    n = math.ceil(4 / transition); n += n % 2 == 0
    if n == 1:
        raise Skip()
    c = (n - 1) / 2
    w = lambda a: 0.42 - 0.5 * math.cos(2 * math.pi * a / (n - 1)) + 0.08 * math.cos(4 * math.pi * a / (n - 1))
    s = lambda a: 1.0 if a == 0 else math.sin(math.pi * a) / (math.pi * a)
    ir = [w(i) * s(2 * cutoff * (i - c)) for i in range(n)]
    t = sum(ir)
    ir = [x / t for x in ir]
    if high:
        ir = [-x for x in ir]; ir[n // 2] += 1
    return ir


@spec("sp_windowed_sinc_lp_hp_ir")
def _(S):
    c = S.choice("cutoff", (0.1, 0.2, 0.33, 0.45)); t = S.choice("transition", (0.9, 1.0, 1.1, 1.9)); h = S.int("is_high_pass", 0, 1)
    ir = sinc_ir(c, t, h); S.grow(len(ir) + 1)
    S.fresh("out_ir", "double", ir); S.out("out_len", "i32", [len(ir)]); S.ret(0)


@spec("sp_windowed_sinc_bp_br_ir")
def _(S):
    cl = S.choice("cutoff_l", (0.0, -0.1, 0.1, 0.2, 0.15, 0.25)); ch = S.choice("cutoff_h", (0.5, 0.6, 0.3, 0.4, 0.35, 0.45))
    tl = S.choice("transition_l", (0.9, 1.9, 0.6)); th = S.choice("transition_h", (1.0, 1.9, 0.6)); r = S.int("is_reject", 0, 1)
    S.grow(8)
    if r:
        if cl <= 0:
            ir = [0.0] if ch >= 0.5 else sinc_ir(ch, th, 1)
        elif ch >= 0.5:
            ir = sinc_ir(cl, tl, 0)
        else:
            a = sinc_ir(cl, tl, 0); b = sinc_ir(ch, th, 1)
            if len(a) < len(b):
                a, b = b, a
            ir = list(a); o = len(a) // 2 - len(b) // 2
            for i, x in enumerate(b):
                ir[i + o] += x
    else:
        if cl <= 0:
            ir = [1.0] if ch >= 0.5 else sinc_ir(ch, th, 0)
        elif ch >= 0.5:
            ir = sinc_ir(cl, tl, 1)
        else:
            a = sinc_ir(cl, tl, 1); b = sinc_ir(ch, th, 0)
            ir = [0.0] * (len(a) + len(b) - 1)
            for i, x in enumerate(a):
                for j, y in enumerate(b):
                    ir[i + j] += x * y
    S.fresh("out_ir", "double", ir); S.out("out_len", "i32", [len(ir)]); S.ret(0)


@spec("sp_convolve_one")
def _(S):
    n = S.size("a_len", 0, 3); m = S.size("b_len", 0, 3); a = S.arr("a", "double", n); b = S.arr("b", "double", m)
    r = [0.0] * max(0, n + m - 1)
    for i in range(n):
        for j in range(m):
            r[i + j] += a[i] * b[j]
    S.arr("out", "double", len(r), True, values=[0.0] * len(r)); S.out("out", "double", r)


@spec("sp_convolve")
def _(S):
    n = S.size("a_len", 1, 4); m = S.size("b_len", 1, 4)
    a = S.arr("a", "double", n); b = S.arr("b", "double", m)
    cl = S.rnd.choice((0, m - 1, m - 1, S.rnd.randint(0, 4))); S.E.args[S.pos("carryover_len")] = cl
    size = max(cl, m - 1)
    S.grow(size)
    c = [S.E.rnd_value("double") if i < cl else 0.0 for i in range(size)]
    S.arr("carryover", "double", size, True, values=c)
    full = c + [0.0] * max(0, n + m - 1 - len(c)) + [0.0] * n
    for i in range(n):
        for j in range(m):
            full[i + j] += a[i] * b[j]
    S.arr("out", "double", n, True)
    S.out("out", "double", full[:n]); S.out("carryover", "double", full[n:n + size])


@spec("sp_moving_average")
def _(S):
    r = S.int("radius", 0, 2); n = S.int("in_size", 2 * r + 2, 2 * r + 4); S.grow(n)
    a = S.arr("in", "double", n)
    p = S.arr("prev", "double", n) if S.rnd.random() < 0.5 else S.null("prev")
    q = S.arr("next", "double", r) if S.rnd.random() < 0.5 else S.null("next")

    def ext(i):
        if i < 0:
            return p[n + i] if p is not None else -a[-i]
        if i >= n:
            return q[i - n] if q is not None else -a[2 * (n - 1) - i]
        return a[i]
    S.out("out", "double", [sum(ext(i + d) for d in range(-r, r + 1)) / (2 * r + 1) for i in range(n)])


# ---------------------------------------------------------------- oscillators
def osc(S, size, tbl, n, phase, amp):
    """contributions of an oscillator and the next phase"""
    amod = S.arr("amod", "double", size) if S.rnd.random() < 0.6 or amp not in (0.0, 1.0) else S.null("amod")
    frq = S.val("frq", 0, 9)
    if frq > 1 << 20:
        raise Skip()
    fmod = S.arr("fmod", "i32", size, values=[S.rnd.randint(0, 9) for _ in range(size)]) if S.rnd.random() < 0.5 else S.null("fmod")
    r = []
    for i in range(size):
        r.append(amp * (amod[i] if amod else amp) * tbl[phase])
        phase = (phase + (fmod[i] if fmod else frq)) % n
    return r, phase


def osc_finish(S, size, tbl, n):
    amp = S.choice("amp", (0.0, 1.0, 0.5, -2.0))
    if S.rnd.random() < 0.6:
        p = S.arr("phs_state", "i32", 1, True, values=[S.rnd.randint(0, n - 1)])[0]
    else:
        S.null("phs_state"); p = 0
    r, q = osc(S, size, tbl, n, p, amp)
    if S.E.args[S.pos("phs_state")] != 0:
        S.out("phs_state", "i32", [q])
    o = S.arr("out", "double", size, True)
    S.out("out", "double", [x + y for x, y in zip(o, r)])


@spec("sp_wave")
def _(S):
    n = S.int("wvf_size", 1, 5); size = S.size("size", 0, 4)
    osc_finish(S, size, S.arr("wvf", "double", n), n)


def gptr(S, name, base):
    S.preset[(("g", name), 0)] = S.ptr(base)


@spec("sp_sine")
def _(S):
    n = S.rnd.randint(1, 5); size = S.size("size", 0, 4)
    gptr(S, "sp_sine_table", ("tbl", 1)); gptr(S, "sp_sine_table_lfo", ("tbl", 2))
    S.preset[(("g", "sp_rate"), 0)] = n
    S.area(("tbl", 2), "double", 3 * n); S.preset[(("g", "sp_sine_lfo_factor"), 0)] = 3
    osc_finish(S, size, S.area(("tbl", 1), "double", n), n)


@spec("sp_sine_lfo")
def _(S):
    n = S.rnd.randint(1, 5); size = S.size("size", 0, 4)
    gptr(S, "sp_sine_table", ("tbl", 1)); gptr(S, "sp_sine_table_lfo", ("tbl", 2))
    S.preset[(("g", "sp_rate"), 0)] = n
    S.area(("tbl", 1), "double", n); S.preset[(("g", "sp_sine_lfo_factor"), 0)] = 3
    osc_finish(S, size, S.area(("tbl", 2), "double", 3 * n), 3 * n)


@spec("sp_sine_period")
def _(S):
    n = S.rnd.choice((2, 4, 6, 8)); S.E.args[S.pos("size")] = n; S.grow(n)
    S.out("out", "double", [math.sin(i * (math.pi / (n // 2))) for i in range(n)])


# ---------------------------------------------------------------- blocks
CH = 2                 # compiled-in channel limit
BLK = 8 + 8 * CH


def block_arg(S, name, size, ch, write, tag):
    """a block passed by value or pointer; returns channel contents"""
    i = S.pos(name)
    p = S.f.params[i]
    base = ("param", i) if "byval" in p or "sret" in p else ("blk", tag)
    S.E.args[i] = S.ptr(base)
    S.preset[(base, 0)] = ch; S.preset[(base, 4)] = size
    r = []
    for c in range(CH):
        b = ("chan", tag, c)
        S.preset[(base, 8 + 8 * c)] = S.ptr(b)
        r.append(S.area(b, "double", size if c < ch else 0, write))
    S.areas.setdefault(base, ("i8", BLK, True))
    return r


@spec("sp_block_copy")
def _(S):
    n = S.rnd.randint(0, 4); c = S.rnd.randint(1, CH)
    a = block_arg(S, "a", n, c, False, "a")
    m = n + S.rnd.randint(0, 1)
    b = block_arg(S, "b", m, CH, True, "b")
    S.grow(m)
    for k in range(CH):
        for j in range(m):
            S.expect(("chan", "b", k), 8 * j, "double", a[k][j] if k < c and j < n else b[k][j], "b channel %d[%d]" % (k, j))


@spec("sp_block_zero")
def _(S):
    n = S.rnd.randint(0, 4); c = S.rnd.randint(1, CH)
    a = block_arg(S, "a", n, c, True, "a")
    for k in range(c):
        for j in range(n):
            S.expect(("chan", "a", k), 8 * j, "double", 0.0, "channel %d[%d]" % (k, j))


@spec("sp_block_with_offset")
def _(S):
    n = S.rnd.randint(1, 4); c = S.rnd.randint(1, CH); o = S.int("offset", 0, n)
    block_arg(S, "a", n, c, True, "a")
    out = ("param", S.pos("agg.result"))
    S.areas[out] = ("i8", BLK, True)
    S.expect(out, 0, "i8", c, "channel_count")
    for k in range(c):
        S.expect(out, 8 + 8 * k, "ptr", S.ptr(("chan", "a", k), 8 * o), "samples[%d]" % k)


@spec("sp_block_new")
def _(S):
    n = S.size("size", 1, 4); c = S.int("channel_count", 1, CH)
    i = S.pos("out"); base = ("arg", i); S.E.args[i] = S.ptr(base); S.areas[base] = ("i8", BLK, True)
    S.expect(base, 0, "i8", c, "channel_count"); S.expect(base, 4, "i32", n, "size")
    for k in range(c):
        S.expected_fresh.append((base, 8 + 8 * k, "double", [0.0] * n, "samples[%d]" % k))
    S.ret(0)


def interleave(S, de):
    n = S.size("a_size", 0, 4); c = S.int("channel_count", 1, CH)
    i = S.pos("a"); base = ("arg", i); S.E.args[i] = S.ptr(base); S.areas[base] = ("ptr", c, False)
    ch = []
    for k in range(c):
        S.preset[(base, 8 * k)] = S.ptr(("chan", k)); ch.append(S.area(("chan", k), "double", n, de))
    b = S.arr("b", "double", n * c, not de)
    for j in range(n):
        for k in range(c):
            if de:
                S.expect(("chan", k), 8 * j, "double", b[j * c + k], "channel %d[%d]" % (k, j))
            else:
                S.expect(("arg", S.pos("b")), 8 * (j * c + k), "double", ch[k][j], "b[%d]" % (j * c + k))


@spec("sp_interleave")
def _(S):
    interleave(S, False)


@spec("sp_deinterleave")
def _(S):
    interleave(S, True)


# ---------------------------------------------------------------- random numbers
W64 = (1 << 64) - 1


def rotl(x, k):
    return (x << k | x >> (64 - k)) & W64


def step(s):
    """state transition of xoshiro256"""
    t = s[1] << 17 & W64
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45)


def u64(s):
    r = 9 * rotl(5 * s[1] & W64, 7) & W64
    step(s)
    return r


def u64_bounded(s, n):
    while True:
        m = u64(s) * n
        if (m & W64) >= (-n % (1 << 64)) % n if n else True:
            return m >> 64


def f64_bounded(s, n):
    a = (s[0] + s[3]) & W64
    step(s)
    return n * ((a >> 11) * 2.0 ** -53)


def f64(s):
    return (u64(s) >> 11) * 2.0 ** -53


def rstate(S):
    s = S.arr("state", "i64", 4, True, [S.rnd.getrandbits(64) for _ in range(4)])
    return list(s)


def rdone(S, s):
    for j in range(4):
        S.expect(("arg", S.pos("state")), 8 * j, "i64", s[j], "state[%d]" % j)


def random_one(name, f, t=None):
    def go(S):
        s = rstate(S)
        a = [] if t is None else [float(S.real("range", 0.5, 100.0)) if t == "double" else S.val("range", 1, 9)]
        S.ret(f(s, *a)); rdone(S, s)
    SPECS[name] = go


def random_many(name, f, ot, t=None):
    def go(S):
        s = rstate(S); n = S.size("size")
        a = [] if t is None else [float(S.real("range", 0.5, 100.0)) if t == "double" else S.val("range", 1, 9)]
        S.out("out", ot, [f(s, *a) for _ in range(n)], n); rdone(S, s)
    SPECS[name] = go


RANDOM = {"u64": (u64, "i64", None), "u64_bounded": (u64_bounded, "i64", "i"), "u32": (lambda s: u64(s) >> 32, "i32", None), "u32_bounded": (u64_bounded, "i32", "i"),
          "f64": (f64, "double", None), "f64_bounded": (f64_bounded, "double", "double"), "f64_1to1": (lambda s: f64_bounded(s, 2.0) - 1, "double", None), "f64_0to1": (lambda s: f64_bounded(s, 1.0), "double", None)}
for _k, (_f, _o, _t) in RANDOM.items():
    random_one("sph_random_" + _k, _f, _t)
    _h, _, _r = _k.partition("_")
    random_many("sph_random_%s_%s" % (_h, _r + "_array" if _r == "bounded" else ("array_" + _r).rstrip("_")), _f, _o, _t)


def splitmix(seed):
    r = []
    for _ in range(4):
        seed = seed + 0x9e3779b97f4a7c15 & W64
        z = seed
        z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9 & W64
        z = (z ^ z >> 27) * 0x94d049bb133111eb & W64
        r.append(z ^ z >> 31)
    return r


@spec("sph_random_state_new")
def _(S):
    seed = S.choice("seed", (0, 1, 77, W64, S.rnd.getrandbits(64)))
    for j, v in enumerate(splitmix(seed)):
        S.expect(("param", 0), 8 * j, "i64", v, "state[%d]" % j)
