"""Reference semantics of paths, envelopes, spline segments, files, statistics and the supporting library."""
import math
from spec import Skip, ANY, effects, close, show, SIZE, returned
from fun import Unresolved
import fun, spec as specmod
from specs_seq import PureEngine, GoodEngine, calls, frees, fun_end, named, block_is, out_block

SPECS = {}
OPTS = {}


def spec(*names, **opts):
    def deco(f):
        for n in names:
            SPECS[n] = (lambda S, f=f, n=n: f(S, n)) if f.__code__.co_argcount == 2 else f
            OPTS[n] = opts
        return f
    return deco


def failure(x):
    """a failure status"""
    return x != 0


# ------------------------------------------------------------------ paths with a fixed number of points
class PathEngine(PureEngine):
    """the general path function is specified separately"""

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sp_path_samples", "sp_path_times"}


def doubles(a, p, n):
    return [a.at(p, 8 * i, "double") for i in range(n)]


def path_call(S, target, out, length, n, x, y, c):
    def check(E, V):
        got = effects(E, "callback")
        t = [a.target() for a in got]
        if t != [("fn", target)]:
            V.fail("calls", got[0].o.inst if got else None, "calls %s are made instead of %s" % ([b[1] for b in t], target)); return
        a = got[0]; p = a.args()
        if p[0] != out or p[1] != length or p[2] != n:
            V.fail("calls", a.o.inst, "the path is made with output %s, length %s and %s points instead of %s, %s and %s" % (show(p[0]), show(p[1]), show(p[2]), show(out), length, n)); return
        for what, q, want in (("x", p[3], x), ("y", p[4], y), ("curvature", p[5], c)):
            if want is None:
                if q != 0 and what == "curvature":
                    V.fail("calls", a.o.inst, "curvature is passed although none is given"); return
                continue
            if not want:
                continue
            v = doubles(a, q, len(want))
            for k, (g, w) in enumerate(zip(v, want)):
                if not close(g, w):
                    V.fail("calls", a.o.inst, "%s value %d of the path is %s instead of %s" % (what, k, show(g), show(w))); return
    S.checks.append(check)


def fixed_path(S, name):
    import re
    m = re.match(r"sp_path_(samples|times)(_c)?(\d)", name)
    n = int(m.group(3)); c = bool(m.group(2))
    S.E.args[0] = out = ("ptr", ("arg", 0), 0)
    S.areas[("arg", 0)] = ("ptr", 1, True)
    length = S.val("length")
    X = [S.real("x%d" % (i + 1)) for i in range(n - 2)]
    Y = [S.real("y%d" % (i + 1)) for i in range(n)]
    C = [S.real("c%d" % (i + 1)) for i in range(n - 1)] if c else None
    path_call(S, "sp_path_" + m.group(1), out, length, n, X, Y, C)


spec(*["sp_path_%s%s%d" % (t, c, n) for t in ("samples", "times") for c in ("", "_c") for n in (2, 3, 4, 5)], engine=PathEngine)(lambda S, name: fixed_path(S, name))


def sums(x, length):
    r = []; s = 0.0
    for v in x:
        s += v * length
        r.append(s)
    return r


@spec(*["sp_envelope_zero%s%d" % (c, n) for c in ("", "_c") for n in (3, 4, 5)], engine=PathEngine)
def _(S, name):
    n = int(name[-1]); c = "_c" in name
    S.E.args[0] = out = ("ptr", ("arg", 0), 0)
    S.areas[("arg", 0)] = ("ptr", 1, True)
    length = S.val("length")
    X = sums([S.real("x%d" % (i + 1)) for i in range(n - 2)], length)
    Y = [0.0] + [S.real("y%d" % (i + 1)) for i in range(n - 2)] + [0.0]
    C = [S.real("c%d" % (i + 1)) for i in range(n - 1)] if c else None
    path_call(S, "sp_path_samples", out, length, n, X, Y, C)


@spec(*["sp_envelope_scaled%s%d" % (c, n) for c in ("", "_c") for n in (3, 4, 5)], engine=PathEngine)
def _(S, name):
    n = int(name[-1]); c = "_c" in name
    S.E.args[0] = out = ("ptr", ("arg", 0), 0)
    S.areas[("arg", 0)] = ("ptr", 1, True)
    length = S.val("length"); ys = S.real("y_scalar")
    X = sums([S.real("x%d" % (i + 1)) for i in range(n - 2)], length)
    Y = [ys * S.real("y%d" % (i + 1)) for i in range(n)]
    C = [S.real("c%d" % (i + 1)) for i in range(n - 1)] if c else None
    path_call(S, "sp_path_times", out, length, n, X, Y, C)


@spec("sp_envelope_zero", "sp_envelope_scaled", engine=PathEngine)
def _(S, name):
    zero = name.endswith("zero")
    S.E.args[0] = out = ("ptr", ("arg", 0), 0)
    S.areas[("arg", 0)] = ("ptr", 1, True)
    length = S.val("length"); n = S.int("point_count", 2, 5)
    S.grow(n)
    ys = 1.0 if zero else S.real("y_scalar")
    x = S.arr("x", "double", n - 2); y = S.arr("y", "double", n - 2 if zero else n)
    if S.rnd.random() < 0.5:
        S.null("c"); C = None
    else:
        C = S.arr("c", "double", n - 1)
    path_call(S, "sp_path_samples" if zero else "sp_path_times", out, length, n, sums(x, length), [0.0] + y + [0.0] if zero else [ys * v for v in y], C)


# ------------------------------------------------------------------ files
class FileEngine(PureEngine):
    NOFAIL = True
    SHORTREADS = True


def wav_header(channels, rate):
    import struct
    return b"RIFF????WAVEfmt " + struct.pack("<IHHIIHH", 16, 3, channels, rate & 0xffffffff, rate * channels * 4 & 0xffffffff, channels * 4, 32) + b"data"


def mem_bytes(a, p, spans):
    """little endian contents of memory: [(offset, size)] -> {offset: byte}"""
    out = {}
    for o, n in spans:
        v = a.at(p, o, "i%d" % (8 * n))
        for k in range(n):
            out[o + k] = v >> (8 * k) & 255
    return out


def file_param(S, name, channels, size=None):
    f = ("n", "FILE", 0)
    if name + ".coerce0" in S.names:
        # passed in registers
        S.E.args[S.pos(name + ".coerce0")] = ("ptr", f, 0)
        S.E.args[S.pos(name + ".coerce1")] = (size or 0) | channels << 32
        return None, f
    i = S.pos(name)
    if S.f.params[i].get("byval"):
        S.struct(("param", i), "sp_file_t", {"file": ("ptr", f, 0), "channel_count": channels, "data_size": size or 0})
        return ("param", i), f
    S.E.args[i] = ("ptr", ("arg", i), 0)
    S.struct(("arg", i), "sp_file_t", {"file": ("ptr", f, 0), "channel_count": channels, "data_size": size or 0})
    return ("arg", i), f


def externs(E, *names):
    return [a for a in effects(E, "extern") if a.target()[1] in names]


@spec("sp_file_open_write", engine=FileEngine)
def _(S):
    S.E.results = {"fseek": 0}
    ch = S.choice("channel_count", (1, 2, 3, 8, 255)); rate = S.choice("sample_rate", (1, 8000, 44100, 48000, 96000))
    b, f = file_param(S, "file", 77, 99)
    S.field(b, "sp_file_t", "data_size", "i32", 0, "data_size")
    S.field(b, "sp_file_t", "channel_count", "i8", ch, "channel_count")
    S.E.args[S.pos("path")] = ("ptr", ("n", "path", 0), 0)
    want = wav_header(ch, rate)
    S.ret(0)

    def check(E, V):
        got = externs(E, "fopen", "fwrite", "fseek", "fclose")
        t = [a.target()[1] for a in got]
        if not t or t[0] != "fopen":
            V.fail("calls", None, "no file is opened"); return
        if got[0].args()[0] != ("ptr", ("n", "path", 0), 0):
            V.fail("calls", got[0].o.inst, "another path is opened"); return
        # position and contents written so far
        pos = 0; data = {}
        for a in got[1:]:
            x = a.args(); n = a.target()[1]
            if n == "fwrite":
                size = x[1] * x[2]
                if (pos, size) == (0, 40):
                    data.update(mem_bytes(a, x[0], [(o, 4) for o in (0, 8, 12, 16)] + [(20, 2), (22, 2), (24, 4), (28, 4), (32, 2), (34, 2), (36, 4)]))
                    pos += size
                elif size == 44 and pos == 0:
                    data.update(mem_bytes(a, x[0], [(o, 4) for o in (0, 8, 12, 16)] + [(20, 2), (22, 2), (24, 4), (28, 4), (32, 2), (34, 2), (36, 4)]))
                    pos += size
                else:
                    raise Unresolved("other way of writing")
            elif n == "fseek":
                if x[2] == 1:
                    pos += x[1]
                elif x[2] == 0:
                    pos = x[1]
                else:
                    raise Unresolved("seek from the end")
            elif n == "fclose":
                V.fail("calls", a.o.inst, "the file is closed"); return
        if pos != 44:
            V.fail("calls", got[-1].o.inst, "sample data starts at byte %d instead of 44" % pos); return
        for k, w in enumerate(want):
            if w != 63 and k in data and data[k] != w:
                V.fail("value:header", got[1].o.inst, "byte %d of the header is %d instead of %d" % (k, data[k], w)); return
        if len(data) < 36:
            V.fail("value:header", got[1].o.inst, "the header is incomplete")
    S.checks.append(check)


@spec("sp_file_write", engine=FileEngine)
def _(S):
    ch = S.rnd.randint(1, 2); n = S.size("sample_count", 1, 4)
    old = S.rnd.choice((0, 16, 4000))
    b, f = file_param(S, "file", ch, old)
    i = S.pos("samples")
    S.E.args[i] = ("ptr", ("arg", i), 0)
    S.area(("arg", i), "ptr", ch, False, [("ptr", ("chan", "s", k), 0) for k in range(ch)])
    v = [S.area(("chan", "s", k), "double", n) for k in range(ch)]
    S.grow(max(n, ch))
    S.field(b, "sp_file_t", "data_size", "i32", old + 4 * n * ch, "data_size")
    S.ret(0)

    def check(E, V):
        got = externs(E, "fwrite")
        pos = 0
        for a in got:
            x = a.args()
            if x[3] != ("ptr", f, 0):
                V.fail("calls", a.o.inst, "not the given file is written to"); return
            size = x[1] * x[2]
            if size % 4:
                V.fail("calls", a.o.inst, "%d bytes are written" % size); return
            for k in range(size // 4):
                if pos >= n * ch:
                    V.fail("calls", a.o.inst, "more than %d values are written" % (n * ch)); return
                g = a.at(x[0], 4 * k, "float")
                w = v[pos % ch][pos // ch]
                if not math.isclose(g, w, rel_tol=1e-6, abs_tol=1e-12):
                    V.fail("value:data", a.o.inst, "value %d written is %s instead of %s" % (pos, show(g), show(w))); return
                pos += 1
        if pos != n * ch:
            V.fail("calls", got[-1].o.inst if got else None, "%d of %d values are written" % (pos, n * ch))
    S.checks.append(check)


@spec("sp_file_close_write", engine=FileEngine)
def _(S):
    S.E.results = {"fseek": 0, "fclose": 0}
    n = S.rnd.choice((0, 8, 4000, 1 << 20))
    b, f = file_param(S, "file", 2, n)
    S.ret(0)

    def check(E, V):
        pos = 44 + n; data = {}; closed = False
        for a in externs(E, "fwrite", "fseek", "fclose"):
            x = a.args(); t = a.target()[1]
            if t == "fseek":
                if x[0] != ("ptr", f, 0):
                    V.fail("calls", a.o.inst, "another file"); return
                pos = x[1] if x[2] == 0 else pos + x[1]
            elif t == "fwrite":
                if x[1] * x[2] != 4:
                    raise Unresolved("other way of writing")
                data[pos] = a.at(x[0], 0, "i32"); pos += 4
            else:
                closed = x[0] == ("ptr", f, 0)
        if data != {4: 36 + n, 40: n}:
            V.fail("value:header", None, "the sizes are written as %s instead of {4: %d, 40: %d}" % (data, 36 + n, n))
        elif not closed:
            V.fail("released", None, "the file is not closed")
    S.checks.append(check)
    S.field(b, "sp_file_t", "file", "ptr", 0, "file")


def reads(S):
    """the calls of fread in the order of the source"""
    r = {}
    for o in S.eng.obs:
        if o.kind == "extern" and o.v == ("fn", "fread"):
            r[o.inst.id] = o.inst.loc
    return sorted(r, key=lambda k: r[k])


@spec("sp_file_read", engine=FileEngine)
def _(S):
    ch = S.rnd.randint(1, 2); n = S.size("sample_count", 1, 4)
    b, f = file_param(S, "file", ch)
    i = S.pos("samples")
    S.E.args[i] = ("ptr", ("arg", i), 0)
    S.area(("arg", i), "ptr", ch, False, [("ptr", ("chan", "s", k), 0) for k in range(ch)])
    old = [S.area(("chan", "s", k), "double", n, True) for k in range(ch)]
    S.grow(max(n, ch))
    part = S.rnd.random() < 0.5
    k = S.rnd.randint(1, n * ch) if part else n * ch
    data = [float(S.rnd.choice((-1, -0.5, 0, 0.25, 1, 3)) + j) for j in range(n * ch)]
    r, = reads(S)
    for j in range(n * ch):
        S.preset[(("fread", r, ()), 4 * j)] = data[j]
    S.E.results = {"short": k, "feof": 1}
    whole = k // ch
    S.ret(0)
    for c in range(ch):
        for j in range(n):
            S.expect(("chan", "s", c), 8 * j, "double", data[j * ch + c] if j < whole else old[c][j], "samples[%d][%d]" % (c, j))


@spec("sp_file_open_read", engine=FileEngine)
def _(S):
    import struct
    S.E.args[S.pos("path")] = ("ptr", ("n", "path", 0), 0)
    i = S.pos("file")
    S.E.args[i] = b = ("ptr", ("arg", i), 0)
    b = b[1]
    S.struct(b, "sp_file_t", {"channel_count": 77, "data_size": 5})
    ch = S.rnd.choice((0, 1, 2, 3, 255, 256, 300, 65535))
    h = {0: "RIFF", 8: "WAVE", 12: "fmt ", 36: "data"}
    fmt, bits = 3, 32
    r = S.rnd.random()
    if r < 0.15:
        k = S.rnd.choice((0, 8, 12)); h[k] = S.rnd.choice(("RIFX", "AIFF", "WAVF", "riff"))
    elif r < 0.25:
        fmt = S.rnd.choice((1, 2, 0xfffe, 0))
    elif r < 0.35:
        bits = S.rnd.choice((16, 24, 64, 8))
    ok = r >= 0.35 and 0 < ch < 256
    r0 = reads(S)[0]
    f = ("fread", r0, ())
    for k, v in h.items():
        S.preset[(f, k)] = struct.unpack("<I", v.encode())[0]
    S.preset[(f, 20)] = fmt; S.preset[(f, 22)] = ch; S.preset[(f, 34)] = bits
    S.ret(0 if ok else (lambda x: x != 0))
    if ok:
        S.field(b, "sp_file_t", "channel_count", "i8", ch, "channel_count")

    # chunks before the sample data are skipped
    extra = S.rnd.choice((0, 0, 1, 2)) if ok and len(reads(S)) == 3 else 0
    seeks = []
    if extra:
        ids = [struct.unpack("<I", x)[0] for x in [b"LIST", b"fact"][:extra] + [b"data"]]
        sizes = [S.rnd.choice((2, 4, 26, 1000)) for _ in ids]
        for k, (x, z) in enumerate(zip(ids, sizes)):
            r1, r2 = (("fread", q, () if k == 1 else (k - 2,)) for q in reads(S)[1:])
            S.preset[(f, 36) if k == 0 else (r1, 0)] = x
            S.preset[(f, 40) if k == 0 else (r2, 0)] = z
        seeks = sizes[:-1]
        S.E.results = {"fseek": 0}

    def check(E, V):
        sk = [tuple(a.args()[1:]) for a in externs(E, "fseek")] if len(reads(S)) == 3 and ok else []
        if sk != [(z, 1) for z in seeks]:
            V.fail("calls", None, "chunks are skipped with %s instead of %s" % (sk, [(z, 1) for z in seeks])); return
        got = [a.target()[1] for a in externs(E, "fopen", "fclose")]
        want = ["fopen"] if ok else ["fopen", "fclose"]
        if got != want:
            V.fail("released", None, "file operations are %s instead of %s" % (got, want))
    S.checks.append(check)


# ------------------------------------------------------------------ spline paths
SEGS = ("n", "segments", 0)


def seg_offset(S, i, j=None, f=None):
    o = S.eng.m.dist["spline_path_segment_t"]["size"] * i
    if j is None:
        return o + (S.lay("spline_path_segment_t")[f] if f else 0)
    return o + S.lay("spline_path_segment_t")["points"] + 16 * j + (8 if f == "y" else 0)


def sret(S, struct):
    S.struct(("param", 0), struct, {})
    return ("param", 0)


def segment_is(S, b, count, generate, prepare, free, points, data=0):
    f = lambda n: ("fn", n) if n else 0
    t = "spline_path_segment_t"
    S.field(b, t, "points_count", "i8", count, "points_count")
    S.field(b, t, "generate", "ptr", f(generate), "generate")
    S.field(b, t, "prepare", "ptr", f(prepare), "prepare")
    S.field(b, t, "free", "ptr", f(free), "free")
    if data is not ANY:
        S.field(b, t, "data", "ptr", data, "data")
    for (j, c), v in points.items():
        S.expect(b, seg_offset(S, 0, j, c), "double", v, "point %d %s" % (j, c))


@spec("spline_path_move", "spline_path_line")
def _(S, name):
    b = sret(S, "spline_path_segment_t")
    x = S.real("x"); y = S.real("y")
    segment_is(S, b, 2, name + "_generate", None, None, {(1, "x"): x, (1, "y"): y})


@spec("spline_path_constant")
def _(S):
    segment_is(S, sret(S, "spline_path_segment_t"), 2, "spline_path_constant_generate", "spline_path_constant_prepare", None, {})


@spec("spline_path_bezier1", "spline_path_bezier2")
def _(S, name):
    n = int(name[-1]) + 1
    b = sret(S, "spline_path_segment_t")
    pts = {}
    for j in range(1, n + 1):
        pts[j, "x"] = S.real("x%d" % j); pts[j, "y"] = S.real("y%d" % j)
    segment_is(S, b, n + 1, name + "_generate", None, None, pts)


@spec("spline_path_bezier_arc")
def _(S):
    b = sret(S, "spline_path_segment_t")
    x = S.real("x"); y = S.real("y"); c = S.choice("curvature", (0.0, 0.5, -0.25, 1.0, -1.0))
    if c == 0:
        segment_is(S, b, 2, "spline_path_line_generate", None, None, {(1, "x"): x, (1, "y"): y})
    else:
        segment_is(S, b, 3, "spline_path_bezier1_generate", "spline_path_bezier_arc_prepare", None, {(1, "y"): c, (2, "x"): x, (2, "y"): y})


@spec("spline_path_path", engine=GoodEngine)
def _(S):
    b = sret(S, "spline_path_segment_t")
    q = ("param", S.pos("path"))
    v = {"segments": ("ptr", SEGS, 0), "segments_count": 3, "current_segment_index": 1, "previous_start": 7}
    S.struct(q, "spline_path_t", v)
    segment_is(S, b, 2, "spline_path_path_generate", "spline_path_path_prepare", "free", {}, ANY)

    def check(E, V):
        d = E.resolve(b, seg_offset(S, 0, None, "data"), 8, "ptr", fun_end())
        l = S.lay("spline_path_t")
        if not (isinstance(d, tuple) and d[0] == "ptr" and d[1][0] == "o"):
            V.fail("value:data", None, "the data of the segment is %s" % show(d)); return
        for k, t in (("segments", "ptr"), ("segments_count", "i16")):
            g = E.resolve(d[1], d[2] + l[k], SIZE[t], t, fun_end())
            if g != v[k]:
                V.fail("value:data", None, "%s of the copied path is %s instead of %s" % (k, show(g), show(v[k])))
    S.checks.append(check)


def increasing(S, n, top=9):
    """start and end x values of connected segments"""
    x = sorted(S.rnd.sample(range(1, top), n))
    return [0] + x


def spline_segments(S, n, base=SEGS, x=None):
    x = x or increasing(S, n)
    cnt = [S.rnd.choice((2, 2, 3, 4)) for _ in range(n)]
    S.areas[base] = ("i8", max(1, n) * seg_offset(S, 1), True)
    pts = {}
    for i in range(n):
        S.preset[(base, seg_offset(S, i, None, "points_count"))] = cnt[i]
        for j in range(4):
            for c in "xy":
                v = float(S.rnd.randint(-50, 50))
                if c == "x" and j in (0, cnt[i] - 1):
                    v = float(x[i + (j > 0)])
                S.preset[(base, seg_offset(S, i, j, c))] = v
                pts[i, j, c] = v
        S.preset[(base, seg_offset(S, i, None, "generate"))] = ("fn", "generate%d" % i)
        S.preset[(base, seg_offset(S, i, None, "prepare"))] = 0
        S.preset[(base, seg_offset(S, i, None, "free"))] = 0
    S.grow(n + 1)
    return x, cnt, pts


def spline_calls(S, V, E, want, out):
    """generate calls, without the ones for empty ranges"""
    got = []
    for a in effects(E, "callback"):
        p = a.args()
        if p[0] == p[1]:
            continue
        got.append((a.target()[1], p[0], p[1], p[2], p[3]))
        inst = a.o.inst
        if got[-1] not in want:
            V.fail("calls", inst, "%s is called for %s to %s, output %s, which is not among %s" % (got[-1][0], got[-1][1], got[-1][2], show(p[3]), [w[:3] + (show(w[4]),) for w in want])); return
    for w in want:
        if got.count(w) != 1:
            V.fail("calls", None, "%s is called %d times for %s to %s" % (w[0], got.count(w), w[1], w[2])); return


@spec("spline_path_get", engine=PureEngine)
def _(S):
    n = S.rnd.randint(1, 4)
    x, cnt, pts = spline_segments(S, n)
    start = S.int("start", 0, 9); end = S.int("end", start, 11)
    # the state an earlier call may have left
    ps = S.rnd.randint(0, 10)
    idx = S.rnd.choice([i for i in range(n) if all(x[k + 1] <= ps for k in range(i))])
    i = S.pos("path"); b = ("arg", i)
    S.E.args[i] = ("ptr", b, 0)
    S.struct(b, "spline_path_t", {"segments": ("ptr", SEGS, 0), "segments_count": n, "current_segment_index": idx, "previous_start": ps})
    S.E.args[S.pos("out")] = ("ptr", ("arg", S.pos("out")), 0)
    o = ("arg", S.pos("out"))
    S.areas[o] = ("double", end - start, True)
    want = []
    for k in range(n):
        s, e = max(x[k], start), min(x[k + 1], end)
        if s < e:
            want.append(("generate%d" % k, s, e, ("ptr", SEGS, seg_offset(S, k)), ("ptr", o, 8 * (s - start))))

    def check(E, V):
        spline_calls(S, V, E, want, o)
        l = S.lay("spline_path_t")
        j = E.resolve(b, l["current_segment_index"], 2, "i16", fun_end())
        p = E.resolve(b, l["previous_start"], 8, "i64", fun_end())
        for k in range(min(j, n)):
            if x[k + 1] > p:
                V.fail("value:state", None, "the next call from %s on would begin at segment %s and leave out segment %s, which ends at %s" % (p, j, k, x[k + 1])); return
    S.checks.append(check)


@spec("spline_path_line_generate", "spline_path_constant_generate", "spline_path_move_generate")
def _(S, name):
    a = S.rnd.randint(0, 3); z = a + S.rnd.randint(1, 5)
    start = S.int("start", a, z); end = S.int("end", start, z)
    S.grow(end - start)
    y0 = S.E.rnd_value("double"); y1 = S.E.rnd_value("double")
    i = S.pos("s"); b = ("arg", i)
    S.E.args[i] = ("ptr", b, 0)
    S.struct(b, "spline_path_segment_t", {"points_count": 2}, False)
    for (j, c), v in {(0, "x"): a, (0, "y"): y0, (1, "x"): z, (1, "y"): y1}.items():
        S.preset[(b, seg_offset(S, 0, j, c))] = float(v)
    f = {"line": lambda k: y0 + (y1 - y0) * (start - a + k) / (z - a), "cons": lambda k: y0, "move": lambda k: 0.0}[name[12:16]]
    S.out("out", "double", [float(f(k)) for k in range(end - start)])


class SplineEngine(PureEngine):
    NOFAIL = True

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"spline_path_get", "spline_path_set", "spline_path_free", "spline_path_prepare_segments"}


@spec("spline_path_path_generate", engine=SplineEngine)
def _(S):
    a = S.rnd.randint(0, 4)
    start = S.int("start", a, a + 4); end = S.int("end", start, a + 5)
    i = S.pos("s"); b = ("arg", i)
    S.E.args[i] = ("ptr", b, 0)
    S.struct(b, "spline_path_segment_t", {"data": ("ptr", ("n", "path", 0), 0)}, False)
    S.preset[(b, seg_offset(S, 0, 0, "x"))] = float(a)
    S.E.args[S.pos("out")] = o = ("ptr", ("arg", S.pos("out")), 0)
    S.areas[o[1]] = ("double", end - start, True)
    S.checks.append(lambda E, V: calls(V, E, [("spline_path_get", [("ptr", ("n", "path", 0), 0), start - a, end - a, o])]))


@spec("spline_path_prepare_segments", engine=PureEngine)
def _(S):
    n = S.rnd.randint(0, 4)
    x, cnt, pts = spline_segments(S, n)
    pre = [S.rnd.random() < 0.5 for _ in range(n)]
    for k in range(n):
        S.preset[(SEGS, seg_offset(S, k, None, "prepare"))] = ("fn", "prepare%d" % k) if pre[k] else 0
    S.setptr("segments", ("ptr", SEGS, 0)); S.E.args[S.pos("segments_count")] = n
    bad = S.rnd.random() < 0.3
    S.E.results = {"callback": int(bad)}
    stop = next((k for k in range(n) if pre[k]), n) if bad else n
    S.ret((lambda v: v != 0) if stop < n else 0)
    S.checks.append(lambda E, V: calls(V, E, [("prepare%d" % k, [("ptr", SEGS, seg_offset(S, k))]) for k in range(n) if pre[k] and k <= stop]))
    if stop == n:
        for k in range(n):
            for c in "xy":
                S.expect(SEGS, seg_offset(S, k, 0, c), "double", pts[k - 1, cnt[k - 1] - 1, c] if k else 0.0, "start of segment %d" % k)


@spec("spline_path_set", engine=SplineEngine)
def _(S):
    n = S.rnd.randint(0, 4)
    S.setptr("segments", ("ptr", SEGS, 0)); S.E.args[S.pos("segments_count")] = n
    i = S.pos("path"); b = ("arg", i); S.E.args[i] = ("ptr", b, 0)
    S.struct(b, "spline_path_t", {"current_segment_index": 3, "previous_start": 9})
    bad = S.rnd.random() < 0.3
    S.E.results = {"spline_path_prepare_segments": int(bad)}
    S.ret((lambda v: v != 0) if bad else 0)
    S.checks.append(lambda E, V: calls(V, E, [("spline_path_prepare_segments", [("ptr", SEGS, 0), n])]))
    if not bad:
        for f, t, v in (("segments", "ptr", ("ptr", SEGS, 0)), ("segments_count", "i16", n), ("current_segment_index", "i16", 0), ("previous_start", "i64", 0)):
            S.field(b, "spline_path_t", f, t, v, f)


@spec("spline_path_set_copy", engine=SplineEngine)
def _(S):
    n = S.rnd.randint(1, 3)
    spline_segments(S, n)
    S.setptr("segments", ("ptr", SEGS, 0)); S.E.args[S.pos("segments_count")] = n
    i = S.pos("path"); b = ("arg", i); S.E.args[i] = ("ptr", b, 0)
    S.struct(b, "spline_path_t", {})
    bad = S.rnd.random() < 0.3
    S.E.results = {"spline_path_set": int(bad)}
    S.ret((lambda v: v != 0) if bad else 0)

    def check(E, V):
        a, = effects(E, "callback")
        p = a.args()
        q = p[1]
        if a.target()[1] != "spline_path_set" or p[0] != ("ptr", b, 0) or p[2] != n:
            V.fail("calls", a.o.inst, "%s is called with count %s" % (a.target()[1], p[2])); return
        if not (q[0] == "ptr" and q[1][0] == "o" and q[2] == 0):
            V.fail("calls", a.o.inst, "the segments are not a new copy"); return
        for (bb, o), v in S.preset.items():
            if bb == SEGS:
                t = "double" if isinstance(v, float) else "ptr" if isinstance(v, tuple) or (o % seg_offset(S, 1)) >= S.lay("spline_path_segment_t")["generate"] else "i8"
                g = a.at(q, o, t)
                if not close(g, v):
                    V.fail("value:copy", a.o.inst, "byte %d of the copy is %s instead of %s" % (o, show(g), show(v))); return
        frees(V, E, [q[1]] if bad else [])
    S.checks.append(check)


@spec("spline_path_free", engine=PureEngine)
def _(S):
    n = S.rnd.randint(0, 4)
    spline_segments(S, n)
    fr = [S.rnd.random() < 0.5 for _ in range(n)]
    for k in range(n):
        S.preset[(SEGS, seg_offset(S, k, None, "free"))] = ("fn", "free%d" % k) if fr[k] else 0
        S.preset[(SEGS, seg_offset(S, k, None, "data"))] = ("ptr", ("n", "data", k), 0)
    S.struct(("param", 0), "spline_path_t", {"segments": ("ptr", SEGS, 0), "segments_count": n})
    S.checks.append(lambda E, V: calls(V, E, [("free%d" % k, [("ptr", ("n", "data", k), 0)]) for k in range(n) if fr[k]]))


@spec("spline_path_start", "spline_path_end", "spline_path_size")
def _(S, name):
    n = S.rnd.randint(1, 4)
    x, cnt, pts = spline_segments(S, n)
    S.struct(("param", 0), "spline_path_t", {"segments": ("ptr", SEGS, 0), "segments_count": n})
    w = name[12:]
    if w == "start":
        S.ret(("agg", pts[0, 0, "x"], pts[0, 0, "y"])); return
    j = cnt[n - 1] - 1
    if S.rnd.random() < 0.3:
        S.preset[(SEGS, seg_offset(S, n - 1, j, "x"))] = float((1 << 63) - 1)
        j = 0
    S.ret(x[n - 1 + (j > 0)] if w == "size" else ("agg", pts[n - 1, j, "x"], pts[n - 1, j, "y"]))


@spec("spline_path_segments_get", engine=SplineEngine)
def _(S):
    n = S.rnd.randint(1, 4); start = S.int("start", 0, 4); end = S.int("end", 5, 9)
    S.setptr("segments", ("ptr", SEGS, 0)); S.E.args[S.pos("segments_count")] = n
    S.E.args[S.pos("out")] = o = ("ptr", ("arg", S.pos("out")), 0)
    bad = S.rnd.random() < 0.3
    S.E.results = {"spline_path_set": int(bad)}
    S.ret((lambda v: v != 0) if bad else 0)
    path = []
    same = lambda a, v: path.append(v) if not path else None if v == path[0] else "another path"
    w = [("spline_path_set", [same, ("ptr", SEGS, 0), n])]
    if not bad:
        w += [("spline_path_get", [same, start, end, o]), ("spline_path_free", [])]
    S.checks.append(lambda E, V: (path.clear(), calls(V, E, w)))


@spec("spline_path_constant_prepare", "spline_path_path_prepare", "spline_path_bezier_arc_prepare")
def _(S, name):
    i = S.pos("s"); b = ("arg", i); S.E.args[i] = ("ptr", b, 0)
    S.struct(b, "spline_path_segment_t", {"data": ("ptr", ("n", "path", 0), 0)})
    x, y = float(S.rnd.randint(0, 9)), S.E.rnd_value("double")
    S.preset[(b, seg_offset(S, 0, 0, "x"))] = x; S.preset[(b, seg_offset(S, 0, 0, "y"))] = y
    S.ret(0)
    P = lambda j, c: seg_offset(S, 0, j, c)
    if "constant" in name:
        S.expect(b, P(1, "x"), "double", float((1 << 63) - 1), "end x"); S.expect(b, P(1, "y"), "double", y, "end y")
    elif "path_path" in name:
        n = S.rnd.randint(1, 3)
        xs, cnt, pts = spline_segments(S, n)
        S.struct(("n", "path", 0), "spline_path_t", {"segments": ("ptr", SEGS, 0), "segments_count": n}, False)
        S.expect(b, P(1, "x"), "double", x + xs[n], "end x"); S.expect(b, P(1, "y"), "double", pts[n - 1, cnt[n - 1] - 1, "y"], "end y")
    else:
        p2 = (x + S.rnd.choice((1.0, 2.5, 8.0)), y + S.rnd.choice((-3.0, 0.5, 7.0))); d = S.rnd.choice((0.5, -0.5, 1.0, -1.0, 0.1))
        S.preset[(b, P(1, "y"))] = d; S.preset[(b, P(2, "x"))] = p2[0]; S.preset[(b, P(2, "y"))] = p2[1]
        q = perpendicular((x, y), p2, d)
        S.expect(b, P(1, "x"), "double", q[0], "control x"); S.expect(b, P(1, "y"), "double", q[1], "control y")


def perpendicular(p1, p2, distance):
    """center plus distance times the way to where the perpendicular line meets the rectangle"""
    cx, cy = (p1[0] + p2[0]) / 2, (p1[1] + p2[1]) / 2
    dx, dy = p1[1] - p2[1], p2[0] - p1[0]
    w, h = abs(p2[0] - p1[0]) / 2, abs(p2[1] - p1[1]) / 2
    t = min(w / abs(dx), h / abs(dy)) * (1 if dx > 0 else -1)     # positive towards the second point
    return cx + distance * t * dx, cy + distance * t * dy


@spec("spline_path_perpendicular_point")
def _(S):
    n = S.f.params
    p = [S.rnd.choice((0.0, 1.0, 2.5, -3.0, 10.0)) for _ in range(4)]
    if p[0] == p[2] or p[1] == p[3]:
        raise Skip()
    if p[0] > p[2]:
        p[0], p[2] = p[2], p[0]     # x values increase in a path
    d = S.rnd.choice((0.0, 0.5, -0.5, 1.0, -1.0, 0.1))
    for i, v in enumerate(p + [d]):
        S.E.args[i] = v
    S.ret(("agg",) + perpendicular(p[:2], p[2:], d))


class SamplesEngine(PureEngine):
    NOFAIL = True

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"spline_path_get", "spline_path_set"}


@spec("sp_path_samples", engine=SamplesEngine)
def _(S):
    n = S.choice("point_count", (0, 1, 2, 3, 4, 5, 24, 25, 100))
    ok = 2 <= n <= 24
    length = S.int("length", 1, 9)
    S.grow(min(n, 24))
    S.E.args[0] = ("ptr", ("arg", 0), 0); S.areas[("arg", 0)] = ("ptr", 1, True)
    m = n if ok else 2
    x = S.arr("x", "double", m - 2); y = S.arr("y", "double", m)
    if S.rnd.random() < 0.5:
        S.null("c"); c = None
    else:
        c = S.arr("c", "double", m - 1, values=[S.rnd.choice((0.0, 0.5, -0.5, 1.0, -0.75)) for _ in range(m - 1)])
    S.E.results = {"spline_path_set": 0}
    S.ret(0 if ok else failure)
    xs = [0.0] + x + [float(length)]

    def check(E, V):
        got = effects(E, "callback")
        t = [a.target()[1] for a in got]
        if not ok:
            return
        if t != ["spline_path_set", "spline_path_get"]:
            V.fail("calls", None, "calls %s" % t); return
        p = got[0].args(); g = got[1].args()
        if p[2] != n:
            V.fail("calls", got[0].o.inst, "the path has %s segments instead of %s" % (p[2], n)); return
        new = E.resolve(("arg", 0), 0, 8, "ptr", fun_end())
        if g[1:] != [0, length, new] or g[0] != p[0]:
            V.fail("calls", got[1].o.inst, "the path is drawn from %s to %s into %s" % (g[1], g[2], show(g[3]))); return
        for k in range(n):
            a = got[0]
            cnt = a.at(p[1], seg_offset(S, k, None, "points_count"), "i8"); gen = a.at(p[1], seg_offset(S, k, None, "generate"), "ptr")
            curve = k and c and c[k - 1]
            want = ("fn", "spline_path_move_generate" if not k else "spline_path_bezier1_generate" if curve else "spline_path_line_generate")
            if gen != want:
                V.fail("value:segment", a.o.inst, "segment %d is drawn by %s instead of %s" % (k, show(gen), show(want))); return
            for f, w in (("x", xs[k]), ("y", y[k])):
                v = a.at(p[1], seg_offset(S, k, cnt - 1, f), "double")
                if not close(v, w):
                    V.fail("value:segment", a.o.inst, "segment %d ends at %s %s instead of %s" % (k, f, show(v), show(w))); return
            if curve:
                v = a.at(p[1], seg_offset(S, k, 1, "y"), "double")
                if not close(v, c[k - 1]):
                    V.fail("value:segment", a.o.inst, "the curvature of segment %d is %s instead of %s" % (k, show(v), show(c[k - 1]))); return
    S.checks.append(check)


# ------------------------------------------------------------------ statistics
class StatEngine(PureEngine):
    """sorting is specified separately: the arrays that are given are in order"""
    NOFAIL = True

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"quicksort"}


def stat_input(S, name, lo=1, order=False, positive=False):
    n = S.size("size", lo, 5)
    t = "i32" if "times" in name else "double"
    pool = list(range(0 if not positive else 1, 12)) if t == "i32" else [0.25, 0.5, 1.0, 2.0, 3.5, 6.25, 10.0] + ([] if positive else [0.0, -1.0, -3.5, -8.0])
    v = [S.rnd.choice(pool) for _ in range(n)]
    if order:
        v.sort()
    return n, t, S.arr("a", t, n, values=v)


def moments(v):
    n = len(v); m = sum(v) / n
    return [m] + [sum((x - m) ** k for x in v) / n for k in (2, 3, 4)]


def stat_out(S, *values):
    if any(math.isnan(v) for v in values):
        raise Skip()
    S.out("out", "double", [float(v) for v in values])


@spec(*["sp_stat_%s_%s" % (t, k) for t in ("times", "samples") for k in ("mean", "deviation", "skewness", "kurtosis")])
def _(S, name):
    n, t, v = stat_input(S, name)
    m, m2, m3, m4 = moments(v)
    k = name.rsplit("_", 1)[1]
    if k in ("skewness", "kurtosis") and m2 < 1e-9:
        raise Skip()
    S.ret(0)
    stat_out(S, m if k == "mean" else math.sqrt(m2) if k == "deviation" else m3 / m2 ** 1.5 if k == "skewness" else m4 / (m2 * m2))


@spec("sp_stat_times_range", "sp_stat_samples_range")
def _(S, name):
    n, t, v = stat_input(S, name)
    S.ret(0)
    stat_out(S, min(v), max(v), max(v) - min(v))


@spec("sp_stat_samples_center", "sp_stat_times_center")
def _(S, name):
    n, t, v = stat_input(S, name, positive=True)
    S.ret(0)
    w = sum(i * x for i, x in enumerate(v)) / sum(v)
    if t == "double":
        return stat_out(S, w)
    b = ("arg", S.pos("out"))
    S.E.args[S.pos("out")] = ("ptr", b, 0); S.areas[b] = ("double", 1, True)

    def check(E, V):
        g = E.resolve(b, 0, 8, "double", fun_end())
        if not close(g, w):
            o = specmod.last_writer(E, b, 0, 8)
            twice = close(g, sum(i * x for i, x in enumerate(v)) / (sum(v) + v[0]))
            V.fail("value:first-value-counted-twice" if twice else "value:out", o.inst if o is not None else None, "the center is %s instead of %s%s" % (show(g), show(w), ", because the first value is counted twice" if twice else ""))
    S.checks.append(check)


@spec("sp_stat_times_median", "sp_stat_samples_median", engine=StatEngine)
def _(S, name):
    n, t, v = stat_input(S, name, order=True)
    S.ret(0)
    stat_out(S, v[n // 2] if n & 1 else (v[n // 2] + v[n // 2 - 1]) / 2)
    p = "sp_%s_sort_" % ("time" if t == "i32" else "sample")

    def fresh_copy(a, q):
        if not (q[0] == "ptr" and q[1][0] == "o" and q[2] == 0):
            return "not a copy of the values"
        for k in range(n):
            if not close(a.at(q, SIZE[t] * k, t), v[k]):
                return "value %d is not copied" % k
    S.checks.append(lambda E, V: calls(V, E, [("quicksort", [("fn", p + "less"), ("fn", p + "swap"), fresh_copy, 0, n - 1])]))


class PartitionEngine(PureEngine):
    """one level of the recursion is followed; the calls of the function itself are assumed to sort the ranges they are given"""
    NOFAIL = True

    def on_recursion(self, s, i):
        pass


def partition(S, name):
    n, t, v = stat_input(S, name)
    S.grow(n + 1)
    sg = lambda z: z - (1 << 64) if z >> 63 else z

    def check(E, V):
        got = [a for a in effects(E, "callback") if a.target() == ("fn", "quicksort")]
        if n < 2:
            if any(sg(a.args()[3]) < sg(a.args()[4]) for a in got):
                V.fail("calls", got[0].o.inst, "a range of one value is divided")
            return
        bases = {a.args()[2] for a in got} or {("ptr", a.s.base(a.o.p[1])[0], 0) for a in effects(E, "alloc")}
        if len(bases) != 1:
            raise Unresolved("array that is sorted")
        b = bases.pop()
        x = [E.resolve(b[1], b[2] + k * SIZE[t], SIZE[t], t, fun_end()) for k in range(n)]
        inst = got[0].o.inst if got else None
        for a in got:
            l, r = sg(a.args()[3]), sg(a.args()[4])
            if l >= r:
                continue
            if l < 0 or r >= n or r - l >= n - 1:
                V.fail("calls", a.o.inst, "%d values are divided and a part from %d to %d is sorted next" % (n, l, r)); return
            x[l:r + 1] = sorted(x[l:r + 1])
        if not all(close(p, q) for p, q in zip(x, sorted(v))):
            V.fail("value:order", inst, "sorting %s leads to %s" % (v, x))
    S.checks.append(check)


SORTING = [(n, (lambda S, n=n: partition(S, n)), {"engine": PartitionEngine}) for n in ("sp_stat_times_median", "sp_stat_samples_median")]


@spec("sp_stat_times_inharmonicity", "sp_stat_samples_inharmonicity")
def _(S, name):
    n, t, v = stat_input(S, name, positive=True)
    n = len(v)
    S.ret(0)

    def dist(x):
        x -= math.floor(x)
        return x if x <= 0.5 else 1 - x
    stat_out(S, min(sum(dist(y / x) for y in v) / n for x in v))


@spec("sp_stat_unique_max", "sp_stat_repetition_max")
def _(S, name):
    n = S.int("size", 1, 9); w = S.int("width", 1, n)
    S.ret(n - w + 1 - ("repetition" in name))


@spec("sp_stat_unique_all_max", "sp_stat_repetition_all_max")
def _(S, name):
    n = S.int("size", 1, 5)
    S.grow(n + 1)
    S.ret(n * (n + 1) // 2 - (n if "repetition" in name else 0))


@spec("sp_samples_scale_to_times")
def _(S):
    n, t, v = stat_input(S, "samples")
    top = S.int("max", 1, 100)
    add = -min(0.0, min(v))
    if max(v) + add <= 0:
        raise Skip()
    # values that are clearly on one side of a rounding border
    w = [(x + add) * top / (max(v) + add) for x in v]
    if any(abs(x % 1 - 0.5) < 1e-6 for x in w):
        raise Skip()
    S.out("out", "i32", [int(x + 0.5) for x in w])


# ------------------------------------------------------------------ filters
def lparams(S, names, kind):
    return [getattr(S, kind)(n) for n in names]


class KernelArgsEngine(PureEngine):
    NOFAIL = True

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sp_convolution_filter", "sp_windowed_sinc_lp_hp_ir", "sp_windowed_sinc_bp_br_ir"}


@spec("sp_windowed_sinc_lp_hp_ir_f", "sp_windowed_sinc_bp_br_ir_f", engine=KernelArgsEngine)
def _(S, name):
    n = 2 if "lp_hp" in name else 4
    v = S.arr("arguments", "double", n)
    flag = S.rnd.randint(0, 1)
    S.areas[("arg", 0)] = ("i8", 8 * n + 1, False)
    S.preset[(("arg", 0), 8 * n)] = flag
    S.E.args[1] = ("ptr", ("arg", 1), 0); S.E.args[2] = ("ptr", ("arg", 2), 0)
    S.checks.append(lambda E, V: calls(V, E, [(name[:-2], v + [flag, ("ptr", ("arg", 1), 0), ("ptr", ("arg", 2), 0)])]))


@spec("sp_windowed_sinc_lp_hp", "sp_windowed_sinc_bp_br", engine=KernelArgsEngine)
def _(S, name):
    ps = ["cutoff", "transition"] if "lp_hp" in name else ["cutoff_l", "cutoff_h", "transition_l", "transition_h"]
    v = [S.real(p) for p in ps]
    flag = S.int("is_high_pass" if "lp_hp" in name else "is_reject", 0, 1)
    n = S.int("in_len", 0, 9)
    P = lambda x: ("ptr", ("arg", S.pos(x)), 0)
    for x in ("in", "out_state", "out_samples"):
        S.E.args[S.pos(x)] = P(x)

    def args_are(a, p):
        for k, w in enumerate(v):
            if not close(a.at(p, 8 * k, "double"), w):
                return "parameter %d of the kernel is %s instead of %s" % (k + 1, show(a.at(p, 8 * k, "double")), show(w))
        if a.at(p, 8 * len(v), "i8") != flag:
            return "the kind of the kernel is %s instead of %s" % (a.at(p, 8 * len(v), "i8"), flag)
    S.checks.append(lambda E, V: calls(V, E, [("sp_convolution_filter", [P("in"), n, ("fn", name + "_ir_f"), args_are, 8 * len(v) + 1, P("out_state"), P("out_samples")])]))


STATE = "sp_convolution_filter_state_t"


def filter_state(S, b, arglen, irlen, alloc, f="ir_f", base="state"):
    S.struct(b, STATE, {"carryover": ("ptr", (base, "carryover"), 0) if alloc else 0, "carryover_len": irlen - 1, "carryover_alloc_len": alloc, "ir": ("ptr", (base, "ir"), 0), "ir_f": ("fn", f), "ir_f_arguments": ("ptr", (base, "arguments"), 0), "ir_f_arguments_len": arglen, "ir_len": irlen})
    S.areas[(base, "arguments")] = ("i8", arglen, True)
    S.areas[(base, "ir")] = ("double", irlen, False)
    return S.area((base, "carryover"), "double", alloc, True)


class ImpulseEngine(PureEngine):
    NOFAIL = True
    WRITES = {"callback": [(1, 8), (2, 4)]}


@spec("sp_convolution_filter_state_set", engine=ImpulseEngine)
def _(S):
    sb = ("n", "state", 0)
    fresh = S.rnd.random() < 0.4
    i = S.pos("out_state"); S.E.args[i] = ("ptr", ("arg", i), 0)
    S.area(("arg", i), "ptr", 1, True, [0 if fresh else ("ptr", sb, 0)])
    S.func("ir_f", "impulse")
    n = S.int("ir_f_arguments_len", 1, 4)
    S.grow(n)
    args = S.arr("ir_f_arguments", "i8", n)
    irlen = S.rnd.randint(1, 5)
    out = ("out", "callback")
    newir = ("ptr", ("n", "kernel", 0), 0)
    S.preset[(out + (1, 0, ()), 0)] = newir; S.preset[(out + (2, 0, ()), 0)] = irlen
    same = False; old = []; oldlen = 1
    if not fresh:
        oldlen = S.rnd.randint(1, 5); alloc = oldlen - 1 + (S.rnd.randint(0, 2) if oldlen > 1 else 0)
        m = S.rnd.choice((n, n, max(1, n - 1), n + 1))
        old = filter_state(S, sb, m, oldlen, alloc, S.rnd.choice(("impulse", "impulse", "other")))
        equal = S.rnd.random() < 0.5
        S.E.results = {"memcmp": 0 if equal else 1}
        same = m == n and equal and S.preset[(sb, S.lay(STATE)["ir_f"])] == ("fn", "impulse")
        S.grow(max(alloc, m))
    S.ret(0)

    def check(E, V):
        end = fun_end()
        cb = [a for a in effects(E, "callback")]
        if same:
            if cb:
                V.fail("calls", cb[0].o.inst, "the kernel is calculated again although nothing changed"); return
            if E.resolve(sb, S.lay(STATE)["ir"], 8, "ptr", end) != ("ptr", ("state", "ir"), 0):
                V.fail("value:ir", None, "the kernel is replaced although nothing changed")
            frees(V, E, [])
            return
        calls(V, E, [("impulse", [S.E.args[S.pos("ir_f_arguments")]])])
        s = E.resolve(("arg", i), 0, 8, "ptr", end)
        if not fresh and s != ("ptr", sb, 0) or fresh and not (s[0] == "ptr" and s[1][0] == "o"):
            V.fail("value:out_state", None, "the state is %s" % show(s)); return
        l = S.lay(STATE)
        g = lambda f, t: E.resolve(s[1], s[2] + l[f], SIZE[t], t, end)
        for f, t, w in (("ir", "ptr", newir), ("ir_f", "ptr", ("fn", "impulse")), ("ir_len", "i32", irlen), ("carryover_len", "i32", irlen - 1), ("ir_f_arguments_len", "i8", n)):
            if g(f, t) != w:
                V.fail("value:" + f, None, "%s is %s instead of %s" % (f, show(g(f, t)), show(w))); return
        q = g("ir_f_arguments", "ptr")
        for k in range(n):
            v = E.resolve(q[1], q[2] + k, 1, "i8", end)
            if v != args[k]:
                V.fail("value:ir_f_arguments", None, "byte %d of the stored arguments is %s instead of %s" % (k, show(v), show(args[k]))); return
        a = g("carryover_alloc_len", "i32")
        if a < irlen - 1:
            V.fail("size", None, "room for %d carryover values is recorded where %d are needed" % (a, irlen - 1)); return
        if irlen > 1:
            q = g("carryover", "ptr")
            for k in range(irlen - 1):
                w = old[k] if not fresh and k < oldlen - 1 else 0.0
                v = E.resolve(q[1], q[2] + 8 * k, 8, "double", end)
                if not close(v, w):
                    V.fail("value:carryover", None, "carryover value %d is %s instead of %s" % (k, show(v), show(w))); return
        if not fresh:
            # resizing releases the former memory
            frees(V, E, [("state", "ir")] + [("state", n) for n, f in (("arguments", "ir_f_arguments"), ("carryover", "carryover")) if S.preset[(sb, l[f])] not in (0, g(f, "ptr"))])
    S.checks.append(check)


@spec("sp_convolution_filter_state_free", engine=PureEngine)
def _(S):
    b = ("arg", 0)
    if S.rnd.random() < 0.2:
        S.null("state")
        S.checks.append(lambda E, V: frees(V, E, [])); return
    S.E.args[0] = ("ptr", b, 0)
    c = S.rnd.randint(0, 1) * 3
    filter_state(S, b, 2, 4, c)
    S.checks.append(lambda E, V: frees(V, E, [("state", "ir")] + ([("state", "carryover")] if c else []) + [("state", "arguments"), b]))


class FailingImpulseEngine(ImpulseEngine):
    """the impulse response function reports a failure"""

    def callback_effects(self, i, s, fv, args):
        r = ImpulseEngine.callback_effects(self, i, s, fv, args)
        if len(r) == 2 and r[1].fail != r[0].fail:
            x = r[0].env[i.id]; y = r[1].env[i.id]
            if x[0] == "agg":
                r[0].env[i.id] = y
                r[0].rng.pop(y[1][0], None)
                return r[:1]
        return r


def failing_filter_state(S):
    sb = ("n", "state", 0)
    i = S.pos("out_state"); S.E.args[i] = ("ptr", ("arg", i), 0)
    fresh = S.rnd.random() < 0.2
    S.area(("arg", i), "ptr", 1, True, [0 if fresh else ("ptr", sb, 0)])
    S.func("ir_f", "impulse")
    n = S.int("ir_f_arguments_len", 1, 4); S.grow(n + 1)
    S.arr("ir_f_arguments", "i8", n)
    S.E.results = {"memcmp": 1, None: 7}
    l = S.lay(STATE)
    if not fresh:
        oldlen = S.rnd.randint(1, 4)
        m = S.rnd.choice((n, n, max(1, n - 1), n + 1))
        filter_state(S, sb, m, oldlen, oldlen - 1, S.rnd.choice(("impulse", "other")))
        S.grow(oldlen)
        stored = [S.E.mem(("state", "arguments"), k, "i8") for k in range(m)]
        before = {f: S.preset[(sb, l[f])] for f in ("ir", "ir_f", "ir_len", "ir_f_arguments_len", "carryover_len", "carryover")}

    def check(E, V):
        end = fun_end()
        r = returned(E)
        if (r[1] if isinstance(r, tuple) and r[0] == "agg" else r) != 7:
            V.fail("return", None, "the failure of the impulse response function is not passed on: %s" % show(r)); return
        s = E.resolve(("arg", i), 0, 8, "ptr", end)
        if s != (0 if fresh else ("ptr", sb, 0)):
            V.fail("value:out_state", None, "the state is %s after a failure" % show(s)); return
        if fresh:
            return
        for f, w in before.items():
            t = "ptr" if isinstance(w, tuple) or f in ("ir", "carryover") else "i8" if f == "ir_f_arguments_len" else "i32"
            g = E.resolve(sb, l[f], SIZE[t], t, end)
            if g != w:
                V.fail("value:" + f, None, "after a failure %s is %s instead of %s as before, which no longer belongs to the kernel that is kept" % (f, show(g), show(w))); return
        q = E.resolve(sb, l["ir_f_arguments"], 8, "ptr", end)
        for k in range(m):
            v = E.resolve(q[1], q[2] + k, 1, "i8", end)
            if v != stored[k]:
                V.fail("value:ir_f_arguments", None, "after a failure byte %d of the stored arguments is %s instead of %s as before: the kernel that is kept was made for other arguments" % (k, show(v), show(stored[k]))); return
    S.checks.append(check)


EXTRA = [("sp_convolution_filter_state_set", failing_filter_state, {"engine": FailingImpulseEngine, "failing": True})]


class FilterEngine(PureEngine):
    NOFAIL = True
    WRITES = {"sp_convolution_filter_state_set": [(3, 8)]}

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sp_convolution_filter_state_set", "sp_convolve"}


@spec("sp_convolution_filter", engine=FilterEngine)
def _(S):
    i = S.pos("out_state"); S.E.args[i] = ("ptr", ("arg", i), 0)
    old = S.rnd.random() < 0.6
    m = S.rnd.randint(1, 5); k = S.rnd.randint(1, 5)
    S.area(("arg", i), "ptr", 1, True, [("ptr", ("n", "state", 0), 0) if old else 0])
    if old:
        filter_state(S, ("n", "state", 0), 3, m, m, base="before")
    filter_state(S, ("n", "state", 1), 3, k, k, base="after")
    S.preset[(("out", "sp_convolution_filter_state_set", 3, 0, ()), 0)] = ("ptr", ("n", "state", 1), 0)
    S.func("ir_f", "impulse")
    n = S.int("in_len", 0, 9); l = S.int("ir_f_arguments_len", 1, 9)
    P = lambda x: ("ptr", ("arg", S.pos(x)), 0)
    for x in ("in", "ir_f_arguments", "out_samples"):
        S.E.args[S.pos(x)] = P(x)
    S.checks.append(lambda E, V: calls(V, E, [("sp_convolution_filter_state_set", [("fn", "impulse"), P("ir_f_arguments"), l, P("out_state")]), ("sp_convolve", [P("in"), n, ("ptr", ("after", "ir"), 0), k, m - 1 if old else 0, ("ptr", ("after", "carryover"), 0), P("out_samples")])]))
