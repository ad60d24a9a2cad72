"""Reference semantics of event lists, scheduling and event rendering."""
from spec import Skip, ANY, effects, close, show, returned
from fun import Unresolved
import fun

SPECS = {}
OPTS = {}


class PureEngine(fun.FunEngine):
    """callbacks do not change the event list"""
    PURECB = True


def spec(*names, **opts):
    def deco(f):
        for n in names:
            SPECS[n] = f
            OPTS[n] = opts
        return f
    return deco


def node(i):
    return ("n", "element", i)


def cfgbase(i):
    return ("n", "config", i)


def event_fields(S, i, start, end, prepare=None, free=None):
    return {"start": start, "end": end, "generate": ("fn", "generate%d" % i), "prepare": ("fn", "prepare%d" % i) if prepare else 0, "free": ("fn", "free%d" % i) if free else 0, "config": ("ptr", cfgbase(i), 0)}


def event_list(S, name, evs, prev=True):
    """list parameter; evs: [field dictionary]"""
    i = S.pos(name)
    S.E.args[i] = ("ptr", ("arg", i), 0)
    S.area(("arg", i), "ptr", 1, True, [("ptr", node(0), 0) if evs else 0])
    l = S.lay("sp_event_list_t")
    for j, e in enumerate(evs):
        S.struct(node(j), "sp_event_list_t", {"previous": ("ptr", node(j - 1), 0) if j else 0, "next": ("ptr", node(j + 1), 0) if j + 1 < len(evs) else 0})
        S.struct(node(j), "sp_event_t", e, off=l["event"])
    S.grow(len(evs) + 1)
    return ("arg", i), l


def expect_list(S, head, order, l):
    """the list consists of these elements, linked in both directions"""
    S.expect(head, 0, "ptr", ("ptr", order[0], 0) if order else 0, "list head")
    for k, b in enumerate(order):
        S.expect(b, l["next"], "ptr", ("ptr", order[k + 1], 0) if k + 1 < len(order) else 0, "next[%s]" % (b,))
        S.expect(b, l["previous"], "ptr", ("ptr", order[k - 1], 0) if k else 0, "previous[%s]" % (b,))


def calls(V, E, expected, what="calls", kinds=("callback",)):
    """the effects of this kind are exactly the expected ones, in order; each is (target, [predicate or value per argument])"""
    got = effects(E, *kinds)
    tg = []
    for a in got:
        t = a.target()
        tg.append(t[1] if isinstance(t, tuple) else t)
    want = [x[0] for x in expected]
    if tg != want:
        k = next((k for k in range(max(len(tg), len(want))) if k >= len(tg) or k >= len(want) or tg[k] != want[k]), 0)
        inst = got[k].o.inst if k < len(got) else None
        V.fail(what, inst, "calls %s are made instead of %s" % (tg, want))
        return
    for a, (name, preds) in zip(got, expected):
        args = a.args()
        for j, p in enumerate(preds):
            if p is ANY:
                continue
            if callable(p):
                r = p(a, args[j])
                if r:
                    V.fail(what, a.o.inst, "argument %d of %s: %s" % (j + 1, name, r))
            elif not close(args[j], p):
                V.fail(what, a.o.inst, "argument %d of %s is %s instead of %s" % (j + 1, name, show(args[j]), show(p)))


def block_is(S, channels, size, samples):
    """predicate: argument points to a block structure with these contents"""
    l = S.lay("sp_block_t")

    def p(a, v):
        c = a.at(v, l["channel_count"], "i8"); n = a.at(v, l["size"], "i32")
        if c != channels:
            return "block has %s channels instead of %s" % (c, channels)
        if size is not ANY and n != size:
            return "block has size %s instead of %s" % (n, size)
        for k in range(channels):
            s = a.at(v, l["samples"] + 8 * k, "ptr")
            if samples[k] is not ANY and s != samples[k]:
                return "channel %d starts at %s instead of %s" % (k, show(s), show(samples[k]))
    return p


def out_block(S, name, size, channels=None):
    """block parameter passed by value"""
    i = S.pos(name)
    b = ("param", i)
    c = S.rnd.randint(1, 2) if channels is None else channels
    S.struct(b, "sp_block_t", {"channel_count": c, "size": size})
    l = S.lay("sp_block_t")
    smp = []
    for k in range(2):
        S.preset[(b, l["samples"] + 8 * k)] = ("ptr", ("chan", name, k), 0)
        if k < c:
            S.area(("chan", name, k), "double", size, True)
        smp.append(("ptr", ("chan", name, k), 0))
    return c, smp


@spec("sp_event_list_reverse")
def _(S):
    n = S.rnd.randint(0, 4)
    head, l = event_list(S, "a", [event_fields(S, i, i, i + 1) for i in range(n)])
    expect_list(S, head, [node(i) for i in reversed(range(n))], l)


@spec("sp_event_list_remove", engine=PureEngine)
def _(S):
    n = S.rnd.randint(1, 4)
    fr = [S.rnd.random() < 0.5 for _ in range(n)]
    head, l = event_list(S, "a", [event_fields(S, i, i, i + 1, free=fr[i]) for i in range(n)])
    k = S.rnd.randrange(n)
    S.setptr("element", ("ptr", node(k), 0))
    expect_list(S, head, [node(i) for i in range(n) if i != k], l)
    S.checks.append(lambda E, V: calls(V, E, [("free%d" % k, [("ptr", node(k), l["event"])])] if fr[k] else []))
    S.checks.append(lambda E, V: frees(V, E, [node(k)]))


def frees(V, E, bases):
    got = effects(E, "free")
    t = []
    for a in got:
        try:
            b, o = a.s.addr(a.o.p)
        except Unresolved as x:
            if str(x) == "null base":
                continue
            raise
        t.append((b, o))
    want = [(b, 0) for b in bases]
    # in any order
    if sorted(map(str, t)) != sorted(map(str, want)):
        k = next((k for k in range(len(t)) if t.count(t[k]) != want.count(t[k])), len(t))
        V.fail("released", got[k].o.inst if k < len(got) else None, "released are %s instead of %s" % ([x[0] for x in t], list(bases)))


@spec("sp_event_list_free", engine=PureEngine)
def _(S):
    n = S.rnd.randint(0, 4)
    fr = [S.rnd.random() < 0.5 for _ in range(n)]
    head, l = event_list(S, "events", [event_fields(S, i, i, i + 1, free=fr[i]) for i in range(n)])
    S.expect(head, 0, "ptr", 0, "list head")
    S.checks.append(lambda E, V: calls(V, E, [("free%d" % k, [("ptr", node(k), l["event"])]) for k in range(n) if fr[k]]))
    S.checks.append(lambda E, V: frees(V, E, [node(k) for k in range(n)]))


@spec("sp_event_list_add")
def _(S):
    n = S.rnd.randint(0, 4)
    st = sorted((S.rnd.choice((0, 1, 2, 3, 5, 8)) for _ in range(n)), reverse=True)
    head, l = event_list(S, "a", [event_fields(S, i, st[i], st[i] + 1) for i in range(n)])
    i = S.pos("event"); eb = ("param", i)
    x = S.rnd.choice((0, 1, 2, 3, 4, 6, 8, 9))
    S.struct(eb, "sp_event_t", event_fields(S, 9, x, x + 3))

    def check(E, V):
        # walk the list
        r = E.resolve(head, 0, 8, "ptr", fun_end())
        prev = 0; seq = []
        while r != 0:
            if len(seq) > n + 2:
                V.fail("list", None, "the list is circular"); return
            b = r[1]
            p = E.resolve(b, l["previous"], 8, "ptr", fun_end())
            if p != prev:
                V.fail("list", None, "previous of element %d is %s instead of %s" % (len(seq), show(p), show(prev))); return
            seq.append((b, E.resolve(b, l["event"], 4, "i32", fun_end())))
            prev = r
            r = E.resolve(b, l["next"], 8, "ptr", fun_end())
        starts = [s for _, s in seq]
        old = [b for b, _ in seq if b[0] == "n"]
        if old != [node(k) for k in range(n)] or len(seq) != n + 1:
            V.fail("list", None, "the list has elements %s after adding to %d elements" % ([b for b, _ in seq], n)); return
        if starts != sorted(starts, reverse=True):
            V.fail("list", None, "start times %s are not in descending order" % starts); return
        new = [b for b, _ in seq if b[0] != "n"][0]
        le = S.lay("sp_event_t")
        for f, t, sz in (("start", "i32", 4), ("end", "i32", 4), ("generate", "ptr", 8), ("config", "ptr", 8), ("free", "ptr", 8), ("prepare", "ptr", 8)):
            got = E.resolve(new, l["event"] + le[f], sz, t, fun_end())
            if got != S.preset[(eb, le[f])]:
                V.fail("list", None, "field %s of the added event is %s instead of %s" % (f, show(got), show(S.preset[(eb, le[f])])))
    S.checks.append(check)


def fun_end():
    import spec
    return spec.END


@spec("sp_event_schedule")
def _(S):
    i = S.pos("event"); eb = ("param", i)
    s, e = S.rnd.randint(0, 5), S.rnd.randint(0, 9)
    S.struct(eb, "sp_event_t", event_fields(S, 0, s, e))
    on = S.val("onset"); du = S.val("duration")
    c = S.rnd.random() < 0.5
    S.setptr("config", ("ptr", cfgbase(7), 0) if c else 0)
    if s + on >= 1 << 32 or e + on + du >= 1 << 32:
        raise Skip()
    r = S.pos(0) if S.f.params[0]["name"] != "event" else None
    out = ("param", 0) if "sret" in S.f.params[0] else None
    if out is None:
        raise Skip()
    S.areas[out] = ("i8", 64, True)
    S.field(out, "sp_event_t", "start", "i32", s + on, "start")
    S.field(out, "sp_event_t", "end", "i32", e + on + du, "end")
    S.field(out, "sp_event_t", "config", "ptr", ("ptr", cfgbase(7 if c else 0), 0), "config")
    S.field(out, "sp_event_t", "generate", "ptr", ("fn", "generate0"), "generate")


@spec("sp_event_block_generate", engine=PureEngine)
def _(S):
    res = S.rnd.randint(1, 6); S.E.args[S.pos("resolution")] = res
    start = S.val("start"); d = S.rnd.randint(1, 11)
    if start + d > 0xffffffff:
        raise Skip()
    S.E.args[S.pos("end")] = start + d
    S.func("generate", "gen")
    ch, smp = out_block(S, "out", d)
    S.setptr("event", ("ptr", ("n", "event", 0), 0))
    S.grow(d + 1)

    def check(E, V):
        pos = 0
        for a in effects(E, "callback"):
            x = a.args()
            if a.target() != ("fn", "gen"):
                V.fail("calls", a.o.inst, "not the given function is called"); return
            if x[1] != pos or x[2] != start + pos or not 0 < x[0] <= res or pos + x[0] > d:
                V.fail("calls", a.o.inst, "the part has size %s, block position %s and event position %s; rendered so far is %d of %d from %d in steps of at most %d" % (x[0], x[1], x[2], pos, d, start, res)); return
            if x[4] != ("ptr", ("n", "event", 0), 0):
                V.fail("calls", a.o.inst, "the event is not passed on"); return
            r = block_is(S, ch, d, smp)(a, x[3])
            if r:
                V.fail("calls", a.o.inst, r); return
            pos += x[0]
        if pos != d:
            V.fail("calls", None, "only %d of %d samples are generated" % (pos, d))
    S.checks.append(check)


@spec("sp_seq", engine=PureEngine)
def _(S):
    n = S.rnd.randint(0, 3)
    st = sorted(S.rnd.randint(0, 8) for _ in range(n))
    en = [s + S.rnd.randint(1, 6) for s in st]
    pr = [S.rnd.random() < 0.5 for _ in range(n)]
    fr = [S.rnd.random() < 0.5 for _ in range(n)]
    start = S.rnd.randint(0, 8); end = start + S.rnd.randint(1, 6)
    S.E.args[S.pos("start")] = start; S.E.args[S.pos("end")] = end
    ch, smp = out_block(S, "out", end - start)
    head, l = event_list(S, "events", [event_fields(S, i, st[i], en[i], pr[i], fr[i]) for i in range(n)])
    le = S.lay("sp_event_t")
    exp = []; rest = []; gone = []
    for i in range(n):
        ev = ("ptr", node(i), l["event"])
        if en[i] <= start:
            gone.append(i)
            if fr[i]:
                exp.append(("free%d" % i, [ev]))
            continue
        rest.append(i)
        if st[i] >= end:
            continue
        if pr[i]:
            exp.append(("prepare%d" % i, [ev]))
        off = max(st[i], start) - start
        exp.append(("generate%d" % i, [max(start - st[i], 0), min(end, en[i]) - st[i], block_is(S, ch, ANY, [("ptr", p[1], 8 * off) for p in smp]), ev]))
    expect_list(S, head, [node(i) for i in rest], l)
    for i in rest:
        if st[i] < end:
            S.expect(node(i), l["event"] + le["prepare"], "ptr", 0, "prepare[%d]" % i)
    S.checks.append(lambda E, V: calls(V, E, exp))
    S.checks.append(lambda E, V: frees(V, E, [node(i) for i in gone]))


class ParallelEngine(PureEngine):
    """futures are started and awaited; their work is the worker function's specification"""
    NOFAIL = True
    L1 = 2

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sph_future_new", "sph_future_touch", "sp_event_list_free", "sp_event_list_remove", "sp_block_free", "sp_block_new"}
        lf = {n: o for o, n, sz in self.m.dist["sp_seq_future_t"]["el"]} if "sp_seq_future_t" in self.m.dist else {"status": 0}
        # the worker leaves a status
        self.WRITES = {"sph_future_new": [(1, 4, lf["status"])]}


def timeline(S, n, m=6):
    st = sorted(S.rnd.randint(0, m) for _ in range(n))
    en = [s + S.rnd.randint(1, m - 1) for s in st]
    start = S.rnd.randint(0, m); end = start + S.rnd.randint(1, m - 1)
    S.E.args[S.pos("start")] = start; S.E.args[S.pos("end")] = end
    return st, en, start, end


@spec("sp_seq_parallel", engine=ParallelEngine, limit=400, scale=0.5, weight=50)
def _(S):
    # two events that are both rendered, of which the first fails
    mixed = S.rnd.random() < 0.15
    n = 2 if mixed else S.rnd.choice((0, 1, 1, 2, 2))
    st, en, start, end = timeline(S, n, 3)
    while mixed and any(e <= start or s >= end for s, e in zip(st, en)):
        st, en, start, end = timeline(S, n, 3)
    ch, smp = out_block(S, "out", end - start)
    fr = [S.rnd.random() < 0.5 for _ in range(n)]
    head, l = event_list(S, "events", [event_fields(S, i, st[i], en[i], False, fr[i]) for i in range(n)])
    S.E.heapfill = True
    S.grow(n + 2); S.grow(end - start + 1)
    gone = [i for i in range(n) if en[i] <= start]
    rest = [i for i in range(n) if en[i] > start]
    act = [i for i in rest if st[i] < end]
    lf = S.lay("sp_seq_future_t"); lb = S.lay("sp_block_t")
    fs = S.eng.m.dist["sp_seq_future_t"]["size"]

    # what sp_block_new leaves in each future
    fails = mixed or S.rnd.random() < 0.4
    first = []

    def hook(base, off, t):
        if mixed and base[0] == "out" and base[1] == "sph_future_new":
            if base not in first:
                first.append(base)
            return 9 if base == first[0] else 0
        if base[0] == "out" and base[1] == "sph_future_new":
            return 7 + S.rnd.randrange(100) if fails and S.rnd.random() < 0.6 else 0
        if base[0] == "o":
            j, o = divmod(off, fs)
            if j < len(act):
                i = act[j]
                if o == lf["out"] + lb["channel_count"]:
                    return ch
                if o == lf["out"] + lb["size"]:
                    return min(end, en[i]) - max(start, st[i])
                if o == lf["out"] + lb["samples"]:
                    return ("ptr", ("blk", j, 0), 0)
                if o == lf["out"] + lb["samples"] + 8:
                    return ("ptr", ("blk", j, 1), 0)
        return S.preset.get((base, off))
    S.E.mem_hook = hook

    def final(E, V, news):
        """the status of the call is that of the first future that failed"""
        status = [E.resolve(a.args()[1][1], a.args()[1][2] + lf["status"], 4, "i32", fun_end()) for a in news]
        bad = [x for x in status if x]
        r = returned(E)
        want = bad[0] if bad else 0
        if not close(r[1] if isinstance(r, tuple) and r[0] == "agg" else r, want):
            V.fail("return:status", None, "the status is %s; the futures end with %s" % (show(r), status)); return None
        return status, bad

    def check(E, V):
        news = [a for a in effects(E, "callback", name="sph_future_new")]
        if len(news) == len(act) and final(E, V, news) is None:
            return
        ev = [a for a in effects(E, "callback")]
        news = [a for a in ev if a.target() == ("fn", "sph_future_new")]
        rem = [a.args() for a in ev if a.target() == ("fn", "sp_event_list_remove")]
        if rem != [[("ptr", head, 0), ("ptr", node(i), 0)] for i in gone]:
            V.fail("calls", None, "%d elements are removed; finished are %s" % (len(rem), gone)); return
        blocks = [a for a in ev if a.target() == ("fn", "sp_block_new")]
        if len(news) != len(act) or len(blocks) != len(act):
            V.fail("calls", news[0].o.inst if news else None, "%d events are rendered instead of %d" % (len(news), len(act))); return
        add = {}
        seen = set()
        for i, a in zip(act, news):
            x = a.args()
            if x[0] != ("fn", "sp_seq_parallel_future_f"):
                V.fail("calls", a.o.inst, "the future runs %s" % (x[0],)); return
            sf = x[1]
            if sf in seen:
                V.fail("calls", a.o.inst, "two futures share their data"); return
            seen.add(sf)
            if x[2] != ("ptr", sf[1], sf[2] + lf["future"]):
                V.fail("calls", a.o.inst, "the future is not the one of the data"); return
            g = {f: a.at(sf, lf[f], t) for f, t in (("start", "i32"), ("end", "i32"), ("out_start", "i32"), ("event", "ptr"))}
            off = max(st[i], start) - start
            w = dict(start=max(start - st[i], 0), end=min(end, en[i]) - st[i], out_start=off, event=("ptr", node(i), l["event"]))
            for f in w:
                if f != "out_start" and g[f] != w[f]:
                    V.fail("calls", a.o.inst, "%s of event %d (%d to %d) for the range %d to %d is %s instead of %s" % (f, i, st[i], en[i], start, end, show(g[f]), show(w[f]))); return
            sz = min(end, en[i]) - max(start, st[i])
            y = blocks[len(seen) - 1].args()
            if y != [ch, sz, ("ptr", sf[1], sf[2] + lf["out"])]:
                V.fail("calls", blocks[len(seen) - 1].o.inst, "the block of event %d is created with %s instead of %d channels of size %d" % (i, y[:2], ch, sz)); return
            for c in range(ch):
                p = a.at(sf, lf["out"] + lb["samples"] + 8 * c, "ptr")
                for j in range(sz):
                    add[(c, off + j)] = add.get((c, off + j), 0.0) + E.mem(p[1], p[2] + 8 * j, "double")
        # the result of a future is only used, and its memory only released, after it was waited for
        status, bad = final(E, V, news)
        tou = {}
        for a in ev:
            if a.target() == ("fn", "sph_future_touch"):
                tou.setdefault(a.args()[0], a.order)
        gone2 = [a for a in ev if a.target() == ("fn", "sp_block_free")]
        other = effects(E, "load", "free", "store")
        for i, a in zip(act, news):
            sf = a.args()[1]
            f = a.args()[2]
            if f not in tou:
                V.fail("calls", a.o.inst, "the future is not waited for" + ("" if not bad else " when a future fails")); return
            fr = [x for x in gone2 if x.args()[0] == ("ptr", sf[1], sf[2] + lf["out"])]
            if len(fr) != 1:
                V.fail("calls", a.o.inst, "the block of a future is released %d times" % len(fr)); return
            if fr[0].order < tou[f]:
                V.fail("calls", fr[0].o.inst, "the block of a future is released before the future was waited for"); return
            b = a.at(sf, lf["out"] + lb["samples"], "ptr")
            for x in other:
                q = x.s.addr(x.o.p)
                if q[0] == b[1] and x.order < tou[f]:
                    V.fail("calls", x.o.inst, "the block of a future is used before the future is waited for"); return
                if x.o.kind == "free" and q[0] == sf[1] and (x.order < tou[f] or x.order < fr[0].order):
                    V.fail("calls", x.o.inst, "the data of a future is released before the future was waited for"); return
                if q[0] == sf[1] and x.o.kind != "free" and sf[2] + lf["status"] <= q[1] < sf[2] + lf["status"] + 4 and a.order < x.order < tou[f]:
                    V.fail("calls", x.o.inst, "the status of a future is used before the future is waited for"); return
        lf2 = [a.args() for a in ev if a.target() == ("fn", "sp_event_list_free")]
        if lf2 != ([[("ptr", head, 0)]] if bad else []):
            V.fail("calls", None, "the list is released %d times with the statuses %s of the futures" % (len(lf2), status)); return
        if bad:
            return
        for c in range(ch):
            for j in range(end - start):
                v = S.preset[(("chan", "out", c), 8 * j)] + add.get((c, j), 0.0)
                g = E.resolve(("chan", "out", c), 8 * j, 8, "double", fun_end())
                if not close(g, v):
                    V.fail("value:out", None, "sample %d of channel %d ends up as %s instead of %s, the sum of the initial value and all active events" % (j, c, show(g), show(v))); return
    S.checks.append(check)


# ------------------------------------------------------------------ parallel worker, groups, wrappers
def one_event(S, name, **fields):
    """pointer parameter to one event"""
    i = S.pos(name)
    S.E.args[i] = ("ptr", ("arg", i), 0)
    S.struct(("arg", i), "sp_event_t", fields)
    return ("arg", i), S.lay("sp_event_t")


@spec("sp_seq_parallel_future_f", engine=PureEngine)
def _(S):
    i = 0
    S.E.args[0] = ("ptr", ("arg", 0), 0)
    ev = ("n", "event", 0)
    p = S.rnd.random() < 0.5
    a, b = S.rnd.randint(0, 9), S.rnd.randint(0, 9)
    lb = S.lay("sp_block_t"); lf = S.lay("sp_seq_future_t")
    S.struct(("arg", 0), "sp_seq_future_t", {"start": a, "end": b, "out_start": 3, "event": ("ptr", ev, 0)})
    S.preset[(("arg", 0), lf["out"] + lb["channel_count"])] = 2
    S.preset[(("arg", 0), lf["out"] + lb["size"])] = 5
    smp = [("ptr", ("chan", "o", k), 0) for k in range(2)]
    for k in range(2):
        S.preset[(("arg", 0), lf["out"] + lb["samples"] + 8 * k)] = smp[k]
    S.struct(ev, "sp_event_t", event_fields(S, 0, 1, 2, p))
    exp = []
    if p:
        exp.append(("prepare0", [("ptr", ev, 0)]))
        S.field(ev, "sp_event_t", "prepare", "ptr", 0, "prepare")
    exp.append(("generate0", [a, b, block_is(S, 2, 5, smp), ("ptr", ev, 0)]))
    S.checks.append(lambda E, V: calls(V, E, exp))
    S.expect(("arg", 0), lf["status"], "i32", 0, "status")


@spec("sp_group_generate", engine=PureEngine)
def _(S):
    SPECS_group(S, True)


def SPECS_group(S, seq):
    n = S.rnd.randint(0, 2)
    st, en, start, end = timeline(S, n, 4)
    ch, smp = out_block(S, "out", end - start)
    g = ("n", "group", 0); l = S.lay("sp_event_list_t"); le = S.lay("sp_event_t")
    S.setptr("group", ("ptr", g, 0))
    S.struct(g, "sp_event_t", {"config": ("ptr", node(0), 0) if n else 0})
    for j in range(n):
        S.struct(node(j), "sp_event_list_t", {"previous": ("ptr", node(j - 1), 0) if j else 0, "next": ("ptr", node(j + 1), 0) if j + 1 < n else 0})
        S.struct(node(j), "sp_event_t", event_fields(S, j, st[j], en[j], True, True), off=l["event"])
    S.grow(n + 1)
    exp = []; rest = []
    for i in range(n):
        ev = ("ptr", node(i), l["event"])
        if en[i] <= start:
            exp.append(("free%d" % i, [ev]))
            continue
        rest.append(i)
        if st[i] < end:
            exp.append(("prepare%d" % i, [ev]))
            off = max(st[i], start) - start
            exp.append(("generate%d" % i, [max(start - st[i], 0), min(end, en[i]) - st[i], block_is(S, ch, ANY, [("ptr", p[1], 8 * off) for p in smp]), ev]))
    S.expect(g, le["config"], "ptr", ("ptr", node(rest[0]), 0) if rest else 0, "group list")
    S.checks.append(lambda E, V: calls(V, E, exp))


@spec("sp_group_prepare")
def _(S):
    n = S.rnd.randint(0, 3)
    g, le = one_event(S, 0)
    l = S.lay("sp_event_list_t")
    S.preset[(g, le["config"])] = ("ptr", node(0), 0) if n else 0
    for j in range(n):
        S.struct(node(j), "sp_event_list_t", {"previous": ("ptr", node(j - 1), 0) if j else 0, "next": ("ptr", node(j + 1), 0) if j + 1 < n else 0})
    S.grow(n + 1)
    order = list(reversed(range(n)))
    S.expect(g, le["config"], "ptr", ("ptr", node(order[0]), 0) if n else 0, "group list")
    for k, i in enumerate(order):
        S.expect(node(i), l["next"], "ptr", ("ptr", node(order[k + 1]), 0) if k + 1 < n else 0, "next")
        S.expect(node(i), l["previous"], "ptr", ("ptr", node(order[k - 1]), 0) if k else 0, "previous")
    S.expect(g, le["free"], "ptr", ("fn", "sp_group_free"), "free")


class AddEngine(PureEngine):
    """sp_event_list_add is specified separately"""
    NOFAIL = True

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sp_event_list_add"}


def added(S, g, le, want):
    """exactly one element is added to the list of the group, and it has these fields"""
    def check(E, V):
        ev = [a for a in effects(E, "callback") if a.target() == ("fn", "sp_event_list_add")]
        if len(ev) != 1:
            V.fail("calls", None, "%d events are added instead of one" % len(ev)); return
        a = ev[0]; x = a.args()
        if x[0] != ("ptr", g, le["config"]):
            V.fail("calls", a.o.inst, "the event is added to %s" % show(x[0])); return
        for f, (t, v) in want.items():
            got = a.at(x[1], le[f], t)
            if got != v:
                V.fail("calls", a.o.inst, "%s of the added event is %s instead of %s" % (f, show(got), show(v))); return
    S.checks.append(check)


@spec("sp_group_add", engine=AddEngine)
def _(S):
    g, le = one_event(S, 0)
    ge = S.rnd.randint(0, 9); S.preset[(g, le["end"])] = ge
    eb = ("param", 1)
    s, e = S.rnd.randint(0, 9), S.rnd.choice((0, 3, 9, 12))
    p = S.rnd.random() < 0.5
    S.struct(eb, "sp_event_t", event_fields(S, 0, s, e, p))
    run = p and e == 0
    S.field(g, "sp_event_t", "end", "i32", max(ge, e), "group end")
    added(S, g, le, {"start": ("i32", s), "end": ("i32", e), "generate": ("ptr", ("fn", "generate0")), "config": ("ptr", ("ptr", cfgbase(0), 0)), "prepare": ("ptr", 0 if run or not p else ("fn", "prepare0"))})
    S.checks.append(lambda E, V: only(V, E, ["prepare0"] if run else [], "sp_event_list_add"))


def only(V, E, want, other):
    got = [a.target()[1] for a in effects(E, "callback")]
    got = [x for x in got if x != other]
    if got != want:
        V.fail("calls", None, "calls %s instead of %s" % (got, want))


@spec("sp_group_append", engine=AddEngine)
def _(S):
    g, le = one_event(S, 0)
    ge = S.rnd.randint(0, 9); S.preset[(g, le["end"])] = ge
    eb = ("param", 1)
    s, e = S.rnd.randint(0, 9), S.rnd.choice((0, 3, 9, 12))
    p = S.rnd.random() < 0.5
    S.struct(eb, "sp_event_t", event_fields(S, 0, s, e, p))
    run = p and e == 0
    S.field(g, "sp_event_t", "end", "i32", ge + e, "group end")
    added(S, g, le, {"start": ("i32", ge + s), "end": ("i32", ge + e), "generate": ("ptr", ("fn", "generate0")), "config": ("ptr", ("ptr", cfgbase(0), 0)), "prepare": ("ptr", 0 if run or not p else ("fn", "prepare0"))})
    S.checks.append(lambda E, V: only(V, E, ["prepare0"] if run else [], "sp_event_list_add"))


def map_config(S, i, **kw):
    c = cfgbase(i)
    lm = S.lay("sp_map_event_config_t")
    S.struct(c, "sp_map_event_config_t", {"map_generate": ("fn", "map"), "config": ("ptr", ("n", "state", 0), 0)})
    S.struct(c, "sp_event_t", event_fields(S, 5, 0, 9, **kw), off=lm["event"])
    return c, lm


@spec("sp_map_event_prepare", engine=PureEngine)
def _(S):
    g, le = one_event(S, 0)
    p = S.rnd.random() < 0.5
    c, lm = map_config(S, 0, prepare=p)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    S.expect(g, le["free"], "ptr", ("fn", "sp_map_event_free"), "free")
    S.expect(c, lm["event"] + le["prepare"], "ptr", 0, "prepare of the wrapped event")
    S.checks.append(lambda E, V: calls(V, E, [("prepare5", [("ptr", c, lm["event"])])] if p else []))


@spec("sp_map_event_free", engine=PureEngine)
def _(S):
    g, le = one_event(S, 0)
    f = S.rnd.random() < 0.5
    c, lm = map_config(S, 0, free=f)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    mem = memreg(S, g, le, S.rnd.choice((None, 0, 2)))
    S.expect(g, le["free"], "ptr", 0, "free")
    S.checks.append(lambda E, V: calls(V, E, ([("free5", [("ptr", c, lm["event"])])] if f else []) + mem))


MEMDATA = ("n", "memory data", 0)


def memreg(S, g, le, n, size=None):
    """registered memory of an event: n entries with handlers; -> expected releases"""
    lm = S.lay("sp_memory_t"); lr = S.lay("memreg2_t"); rs = S.eng.m.dist["memreg2_t"]["size"]
    size = n if size is None else size
    m = le["memory"]
    S.preset[(g, m + lm["data"])] = 0 if n is None else ("ptr", MEMDATA, 0)
    if n is None:
        return []
    S.preset[(g, m + lm["size"])] = size
    S.preset[(g, m + lm["used"])] = n
    S.areas[MEMDATA] = ("i8", size * rs, True)
    exp = []
    # one object may be registered more than once, for handlers that each release a part of it
    once = S.rnd.random() < 0.7
    for j in range(n):
        x = ("ptr", ("n", "memory", j if once else 0), 0)
        S.preset[(MEMDATA, j * rs + lr["address"])] = x
        S.preset[(MEMDATA, j * rs + lr["handler"])] = ("fn", "release%d" % j)
        exp.append(("release%d" % j, [x]))
    S.grow(n + 1)
    S.memdata = True
    return exp


@spec("sp_event_memory_free", engine=PureEngine)
def _(S):
    g, le = one_event(S, 0)
    n = S.rnd.choice((None, 0, 1, 2, 3))
    exp = memreg(S, g, le, n, None if n is None else n + S.rnd.randint(0, 2))
    S.checks.append(lambda E, V: calls(V, E, exp))
    S.checks.append(lambda E, V: frees(V, E, [] if n is None else [MEMDATA]))
    S.expect(g, le["memory"] + S.lay("sp_memory_t")["data"], "ptr", 0, "memory data")


class GoodEngine(PureEngine):
    NOFAIL = True


def memory_state(S, g, le, used, least, tail=None):
    """afterwards the register has this many entries, room for at least so many, and the earlier entries unchanged"""
    lm = S.lay("sp_memory_t"); lr = S.lay("memreg2_t"); rs = S.eng.m.dist["memreg2_t"]["size"]
    m = le["memory"]
    old = {k: v for k, v in S.preset.items() if k[0] == MEMDATA}

    def check(E, V):
        u = E.resolve(g, m + lm["used"], 8, "i64", fun_end()); z = E.resolve(g, m + lm["size"], 8, "i64", fun_end())
        d = E.resolve(g, m + lm["data"], 8, "ptr", fun_end())
        if u != used:
            V.fail("value:used", None, "the register has %s entries instead of %s" % (u, used)); return
        if z < max(least, used):
            V.fail("size", None, "the register has room for %s entries; needed are %s" % (z, max(least, used))); return
        if d == 0:
            V.fail("value:data", None, "the register has no memory"); return
        want = dict(old)
        if tail:
            want[(MEMDATA, (used - 1) * rs + lr["address"])] = tail[0]
            want[(MEMDATA, (used - 1) * rs + lr["handler"])] = tail[1]
        for (b, o), v in sorted(want.items(), key=str):
            got = E.resolve(d[1], d[2] + o, 8, "ptr", fun_end())
            if got != v:
                V.fail("value:entry", None, "entry %d of the register ends up as %s instead of %s" % (o // rs, show(got), show(v))); return
    S.checks.append(check)


@spec("sp_event_memory_add_with_handler", engine=GoodEngine)
def _(S):
    g, le = one_event(S, 0)
    n = S.rnd.choice((None, 0, 1, 2, 3))
    room = S.rnd.randint(0, 2)
    if n == 0 and room == 0:
        room = 1
    memreg(S, g, le, n, None if n is None else n + room)
    f = S.rnd.choice((0, ("fn", "free0")))
    S.preset[(g, le["free"])] = f
    S.setptr("address", ("ptr", ("n", "added", 0), 0)); S.setptr("handler", ("fn", "added"))
    memory_state(S, g, le, 1 + (n or 0), 1 + (n or 0), (("ptr", ("n", "added", 0), 0), ("fn", "added")))
    S.expect(g, le["free"], "ptr", f if f or n is not None else ("fn", "sp_event_memory_free"), "free")


@spec("sp_event_memory_ensure", engine=GoodEngine)
def _(S):
    g, le = one_event(S, 0)
    n = S.rnd.choice((None, 0, 1, 2, 3))
    memreg(S, g, le, n, None if n is None else n + S.rnd.randint(0, 3))
    f = S.rnd.choice((0, ("fn", "free0")))
    S.preset[(g, le["free"])] = f
    x = S.int("additional_size", 1, 5)
    memory_state(S, g, le, n or 0, (n or 0) + x)
    S.expect(g, le["free"], "ptr", f if f or n is not None else ("fn", "sp_event_memory_free"), "free")


@spec("sp_event_memory_fixed_add_with_handler", engine=GoodEngine)
def _(S):
    g, le = one_event(S, 0)
    n = S.rnd.choice((0, 1, 2))
    memreg(S, g, le, n, n + S.rnd.randint(1, 3))
    S.setptr("address", ("ptr", ("n", "added", 0), 0)); S.setptr("handler", ("fn", "added"))
    memory_state(S, g, le, 1 + n, 1 + n, (("ptr", ("n", "added", 0), 0), ("fn", "added")))


@spec("sp_group_free", engine=PureEngine)
def _(S):
    g, le = one_event(S, 0)
    l = S.lay("sp_event_list_t")
    n = S.rnd.randint(0, 2)
    fr = [S.rnd.random() < 0.5 for _ in range(n)]
    S.preset[(g, le["config"])] = ("ptr", node(0), 0) if n else 0
    for j in range(n):
        S.struct(node(j), "sp_event_list_t", {"previous": ("ptr", node(j - 1), 0) if j else 0, "next": ("ptr", node(j + 1), 0) if j + 1 < n else 0})
        S.struct(node(j), "sp_event_t", event_fields(S, j, 0, 1, False, fr[j]), off=l["event"])
    S.grow(n + 1)
    k = S.rnd.choice((None, 0, 2))
    mem = memreg(S, g, le, k)
    S.expect(g, le["free"], "ptr", 0, "free"); S.expect(g, le["config"], "ptr", 0, "group list")
    S.checks.append(lambda E, V: calls(V, E, [("free%d" % j, [("ptr", node(j), l["event"])]) for j in range(n) if fr[j]] + mem))
    S.checks.append(lambda E, V: frees(V, E, [node(j) for j in range(n)] + ([] if k is None else [MEMDATA])))


@spec("sp_map_event_generate", engine=PureEngine)
def _(S):
    g, le = one_event(S, 3)
    c, lm = map_config(S, 0)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    a = S.val("start"); b = S.val("end")
    ch, smp = out_block(S, "out", 4)
    blk = block_is(S, ch, 4, smp)
    exp = [("generate5", [a, b, blk, ("ptr", c, lm["event"])]), ("map", [a, b, blk, blk, ("ptr", ("n", "state", 0), 0)])]
    S.checks.append(lambda E, V: calls(V, E, exp))


@spec("sp_map_event_isolated_generate", engine=PureEngine)
def _(S):
    g, le = one_event(S, 3)
    c, lm = map_config(S, 0)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    a = S.val("start"); b = S.val("end")
    n = S.rnd.randint(1, 4)
    ch, smp = out_block(S, "out", n)
    lb = S.lay("sp_block_t")
    S.grow(n)
    got = {}

    def fresh_block(tag):
        def p(x, v):
            c = x.at(v, lb["channel_count"], "i8"); m = x.at(v, lb["size"], "i32")
            if (c, m) != (ch, n):
                return "block has %s channels of size %s instead of %s of %s" % (c, m, ch, n)
            bases = []
            for k in range(ch):
                s = x.at(v, lb["samples"] + 8 * k, "ptr")
                if not (isinstance(s, tuple) and s[1][0] == "o"):
                    return "channel %d is not new memory but %s" % (k, show(s))
                bases.append(s)
                if tag == 0:
                    for j in range(n):
                        q = x.mem(s[1], s[2] + 8 * j, "double")
                        if q != 0:
                            return "the temporary block starts out with %s" % show(q)
            if len(set(bases)) != len(bases):
                return "channels share memory"
            if tag == 0:
                got["b"] = bases
            elif got.get("b") != bases:
                return "another block is passed on"
        return p
    exp = [("generate5", [a, b, fresh_block(0), ("ptr", c, lm["event"])]), ("map", [a, b, fresh_block(1), block_is(S, ch, n, smp), ("ptr", ("n", "state", 0), 0)])]
    S.checks.append(lambda E, V: calls(V, E, exp))

    def released(E, V):
        fr = [x.s.addr(x.o.p)[0] for x in effects(E, "free")]
        if sorted(fr) != sorted(x[1] for x in got.get("b", [])):
            V.fail("released", None, "%d temporary channels are released instead of %d" % (len(fr), ch))
    S.checks.append(released)


# ------------------------------------------------------------------ wave events
def wave_config(S, c, nch, wvf_size, **kw):
    S.struct(c, "sp_wave_event_config_t", {"wvf": ("ptr", ("n", "wvf", 0), 0), "wvf_size": wvf_size, "channel_count": nch})
    l = S.lay("sp_wave_event_config_t"); S.areas[("n", "wvf", 0)] = ("double", wvf_size, False)
    return l["channel_config"]


@spec("sp_wave_event_generate")
def _(S):
    c = cfgbase(0)
    g, le = one_event(S, 3)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    nch = S.rnd.randint(1, 2); ws = S.rnd.choice((1, 2, 3, 5, 8))
    co = wave_config(S, c, nch, ws)
    wvf = S.area(("n", "wvf", 0), "double", ws)
    start = S.rnd.randint(0, 3); n = S.rnd.randint(0, 4)
    S.E.args[S.pos("start")] = start; S.E.args[S.pos("end")] = start + n
    S.grow(start + n)
    och = 2
    ch, smp = out_block(S, "out", n, och)
    out = {k: [S.preset[(("chan", "out", k), 8 * j)] for j in range(n)] for k in range(och)}
    cs = S.eng.m.dist["sp_wave_event_channel_config_t"]["size"]; lc = S.lay("sp_wave_event_channel_config_t")
    for k in range(nch):
        o = co + k * cs
        am = ("n", "amod", k); pm = ("n", "pmod", k); fm = ("n", "fmod", k)
        amod = S.area(am, "double", start + n)
        hp = S.rnd.random() < 0.5; hf = S.rnd.random() < 0.5
        pmod = S.area(pm, "i32", start + n, values=[S.rnd.choice((0, 1, ws - 1, ws, ws + 1, 2 * ws + 1, 17)) for _ in range(start + n)])
        fmod = S.area(fm, "i32", start + n, values=[S.rnd.choice((0, 1, ws - 1, ws, 2 * ws, 19)) for _ in range(start + n)])
        amp = float(S.E.rnd_value("double")); frq = S.rnd.choice((0, 1, 2, ws, 3 * ws + 1, 65535)); phs = S.rnd.randrange(ws)
        t = S.rnd.randint(0, 1)
        S.struct(c, "sp_wave_event_channel_config_t", {"amod": ("ptr", am, 0), "amp": amp, "channel": t, "fmod": ("ptr", fm, 0) if hf else 0, "pmod": ("ptr", pm, 0) if hp else 0, "frq": frq, "phs": phs, "use": 1}, off=o)
        for i in range(start, start + n):
            p = (phs + pmod[i]) % ws if hp else phs
            out[t][i - start] += amp * amod[i] * wvf[p]
            phs = (phs + frq + (fmod[i] if hf else 0)) % ws
        S.expect(c, o + lc["phs"], "i32", phs, "phase of channel")
    for k in range(och):
        for j in range(n):
            S.expect(("chan", "out", k), 8 * j, "double", out[k][j], "out[%d][%d]" % (k, j))


@spec("sp_wave_event_prepare")
def _(S):
    c = cfgbase(0)
    g, le = one_event(S, 0)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    nch = S.rnd.randint(1, 2)
    co = wave_config(S, c, nch, 5)
    cs = S.eng.m.dist["sp_wave_event_channel_config_t"]["size"]; lc = S.lay("sp_wave_event_channel_config_t")
    T = {"amod": "ptr", "fmod": "ptr", "pmod": "ptr", "amp": "double", "frq": "i16", "phs": "i32", "use": "i8", "channel": "i8"}
    f = []
    for k in range(2):
        d = {x: ("ptr", ("n", x, k), 0) if S.rnd.random() < 0.6 else 0 for x in ("amod", "fmod", "pmod")}
        d.update(amp=float(k + 2), frq=S.rnd.choice((0, k + 5)), phs=k + 1, use=S.rnd.randint(0, 1), channel=S.rnd.randint(0, 1))
        f.append(d)
        S.struct(c, "sp_wave_event_channel_config_t", d, off=co + k * cs)
    want = [dict(f[0]), dict(f[1])]
    if nch > 1:
        if f[1]["use"]:
            for x in ("amod", "fmod", "pmod", "frq"):
                want[1][x] = f[1][x] or f[0][x]
        else:
            want[1] = dict(f[0], channel=f[1]["channel"])
    for k in range(2):
        for x, t in T.items():
            S.expect(c, co + k * cs + lc[x], t, want[k][x], "%s[%d]" % (x, k))


def wave_defaults(S, want_expect, base, off=0):
    l = S.lay("sp_wave_event_config_t"); lc = S.lay("sp_wave_event_channel_config_t"); cs = S.eng.m.dist["sp_wave_event_channel_config_t"]["size"]
    sine = S.E.mem(("g", "sp_sine_table"), 0, "ptr")
    r = [(l["wvf"], "ptr", sine, "wvf"), (l["channel_count"], "i8", 2, "channel_count"), (l["wvf_size"], "i32", S.E.mem(("g", "sp_rate"), 0, "i32"), "wvf_size")]
    for k in range(2):
        o = l["channel_config"] + k * cs
        for f, t, v in (("amod", "ptr", 0), ("fmod", "ptr", 0), ("pmod", "ptr", 0), ("amp", "double", 1.0), ("channel", "i8", k), ("frq", "i16", 0), ("phs", "i32", 0), ("use", "i8", 1 if k == 0 else 0)):
            r.append((o + lc[f], t, v, "%s[%d]" % (f, k)))
    return r


@spec("sp_wave_event_config_defaults")
def _(S):
    out = ("param", 0)
    S.areas[out] = ("i8", S.eng.m.dist["sp_wave_event_config_t"]["size"], True)
    for o, t, v, x in wave_defaults(S, None, out):
        S.expect(out, o, t, v, x)


@spec("sp_wave_event_config_new_n", engine=GoodEngine)
def _(S):
    n = S.size("count", 1, 3)
    S.E.args[1] = ("ptr", ("arg", 1), 0)
    S.areas[("arg", 1)] = ("ptr", 1, True)
    sz = S.eng.m.dist["sp_wave_event_config_t"]["size"]
    d = wave_defaults(S, None, None)
    new_structs(S, ("arg", 1), n, sz, d)


def new_structs(S, base, n, sz, d):
    def check(E, V):
        p = E.resolve(base, 0, 8, "ptr", fun_end())
        if not (isinstance(p, tuple) and p[0] == "ptr" and p[1][0] == "o"):
            V.fail("value:out", None, "the result is not new memory but %s" % show(p)); return
        for a in effects(E, "alloc"):
            if a.s.base(a.o.p[1])[0] == p[1]:
                z = a.s.ev(a.o.size if isinstance(a.o.size, tuple) else ("i", a.o.size))
                if z < n * sz:
                    V.fail("size:out", a.o.inst, "%d bytes are allocated for %d elements of size %d" % (z, n, sz)); return
        for k in range(n):
            for o, t, v, x in d:
                import spec
                got = E.resolve(p[1], p[2] + k * sz + o, spec.SIZE[t], t, fun_end())
                if not close(got, v):
                    V.fail("value:out", None, "%s of configuration %d is %s instead of %s" % (x, k, show(got), show(v))); return
    S.checks.append(check)


@spec("sp_map_event_config_new_n", engine=GoodEngine)
def _(S):
    n = S.size("count", 1, 3)
    S.E.args[1] = ("ptr", ("arg", 1), 0)
    S.areas[("arg", 1)] = ("ptr", 1, True)
    d = [(o, {1: "i8", 4: "i32", 8: "ptr"}.get(z), 0, x) for o, x, z in S.eng.m.dist["sp_map_event_config_t"]["el"] if z in (1, 4, 8)]
    new_structs(S, ("arg", 1), n, S.eng.m.dist["sp_map_event_config_t"]["size"], d)


# ------------------------------------------------------------------ noise events
class NoiseEngine(PureEngine):
    """the filter and the random source are specified elsewhere; here only what they are given matters"""
    NOFAIL = True

    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sp_windowed_sinc_bp_br", "sph_random_f64_array_1to1", "sp_convolution_filter_state_free", "sp_event_memory_free", "sph_random_u32", "sph_random_state_new"}


class ForwardEngine(PureEngine):
    def __init__(self, *a, **k):
        PureEngine.__init__(self, *a, **k)
        self.opaque |= {"sp_seq_parallel", "sp_event_block_generate"}


NOISE = "sp_noise_event_config_t"
NOISECH = "sp_noise_event_channel_config_t"


def noise_config(S, nch, **kw):
    """a configuration with all channel settings drawn; returns base, offsets and settings"""
    c = cfgbase(0)
    l = S.lay(NOISE); lc = S.lay(NOISECH); cs = S.eng.m.dist[NOISECH]["size"]
    S.struct(c, NOISE, dict({"channel_count": nch}, **kw))
    return c, l, lc, cs


def ratio(S, x):
    return x / S.E.mem(("g", "sp_rate"), 0, "i32")


def noise_rate(S):
    S.preset[(("g", "sp_rate"), 0)] = S.rnd.choice((10, 1000, 44100, 96000))


@spec("sp_noise_event_config_defaults")
def _(S):
    noise_rate(S)
    out = ("param", 0)
    S.areas[out] = ("i8", S.eng.m.dist[NOISE]["size"], True)
    for o, t, v, x in noise_defaults(S):
        S.expect(out, o, t, v, x)


def noise_defaults(S):
    l = S.lay(NOISE); lc = S.lay(NOISECH); cs = S.eng.m.dist[NOISECH]["size"]
    rate = S.E.mem(("g", "sp_rate"), 0, "i32")
    r = [(l["is_reject"], "i8", 0, "is_reject"), (l["resolution"], "i32", rate if rate < 10000 else rate // 1000, "resolution"), (l["channel_count"], "i8", 2, "channel_count")]
    r += [(l["temp"] + 8 * k, "ptr", 0, "temp[%d]" % k) for k in range(3)]
    for k in range(2):
        o = l["channel_config"] + k * cs
        for f, t, v in (("amod", "ptr", 0), ("fmod", "ptr", 0), ("wmod", "ptr", 0), ("filter_state", "ptr", 0), ("amp", "double", 1.0), ("channel", "i8", k), ("frq", "i16", 0), ("wdt", "i16", rate // 2 & 0xffff), ("trnl", "i16", int(rate * 0.08)), ("trnh", "i16", int(rate * 0.08)), ("use", "i8", 1 if k == 0 else 0)):
            r.append((o + lc[f], t, v, "%s[%d]" % (f, k)))
    return r


@spec("sp_noise_event_config_new_n", engine=GoodEngine)
def _(S):
    noise_rate(S)
    n = S.size("count", 1, 3)
    S.E.args[1] = ("ptr", ("arg", 1), 0)
    S.areas[("arg", 1)] = ("ptr", 1, True)
    new_structs(S, ("arg", 1), n, S.eng.m.dist[NOISE]["size"], noise_defaults(S))


def named(V, E, *names):
    return [a for a in effects(E, "callback") if a.target() in [("fn", n) for n in names]]


@spec("sp_noise_event_free", engine=NoiseEngine)
def _(S):
    nch = S.rnd.randint(1, 2)
    c, l, lc, cs = noise_config(S, nch)
    g, le = one_event(S, 0)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    S.grow(3)
    temp = [("n", "temp", k) if k < 2 or S.rnd.random() < 0.5 else None for k in range(3)]
    for k in range(3):
        S.preset[(c, l["temp"] + 8 * k)] = ("ptr", temp[k], 0) if temp[k] else 0
    states = []
    for k in range(2):
        b = ("ptr", ("n", "state", k), 0) if S.rnd.random() < 0.6 else 0
        S.preset[(c, l["channel_config"] + k * cs + lc["filter_state"])] = b
        if b and k < nch:
            states.append(b)

    def check(E, V):
        got = named(V, E, "sp_convolution_filter_state_free")
        if [a.args()[0] for a in got] != states:
            V.fail("released", got[0].o.inst if got else None, "filter states %s are released instead of %s" % ([show(a.args()[0]) for a in got], [show(x) for x in states]))
        m = named(V, E, "sp_event_memory_free")
        if [a.args()[0] for a in m] != [("ptr", g, 0)]:
            V.fail("released", None, "the memory of the event is not released once")
    S.checks.append(check)
    S.checks.append(lambda E, V: frees(V, E, [t for t in temp if t]))


@spec("sp_noise_event_generate", engine=ForwardEngine)
def _(S):
    ch, smp = out_block(S, "out", 3)
    S.E.args[S.pos("start")] = a = S.rnd.randint(0, 9); S.E.args[S.pos("end")] = b = a + S.rnd.randint(0, 5)
    c, l, lc, cs = noise_config(S, 1, resolution=S.rnd.randint(1, 9))
    g, le = one_event(S, 3)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    S.checks.append(lambda E, V: calls(V, E, [("sp_event_block_generate", [S.preset[(c, l["resolution"])], ("fn", "sp_noise_event_generate_block"), a, b, block_is(S, ch, 3, smp), ("ptr", g, 0)])]))


@spec("sp_noise_event_generate_block", engine=NoiseEngine)
def _(S):
    n = S.size("duration", 0, 3)
    ei = S.rnd.randint(0, 3); bi = S.rnd.randint(0, 2)
    S.E.args[S.pos("event_i")] = ei; S.E.args[S.pos("block_i")] = bi
    noise_block(S, ei, n, bi, 1 << 20, 4)


def noise_block(S, ei, n, bi, res, epos):
    noise_rate(S)
    nch = S.rnd.randint(1, 2)
    rej = S.rnd.randint(0, 1)
    c, l, lc, cs = noise_config(S, nch, is_reject=rej, resolution=res)
    g, le = one_event(S, epos)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    S.grow(ei + n + bi + 1)
    ch, smp = out_block(S, "out", bi + n, 2)
    out = {k: [S.preset[(("chan", "out", k), 8 * j)] for j in range(bi + n)] for k in range(2)}
    temp = []
    for k in range(3):
        temp.append(S.area(("n", "temp", k), "double", min(n, res), True))
        S.preset[(c, l["temp"] + 8 * k)] = ("ptr", ("n", "temp", k), 0)
    f = []
    for k in range(nch):
        am = ("n", "amod", k)
        amod = S.area(am, "double", ei + n)
        d = dict(amp=float(S.E.rnd_value("double")), amod=("ptr", am, 0), channel=S.rnd.randint(0, 1), frq=S.rnd.randint(0, 20000), wdt=S.rnd.randint(0, 20000), trnl=S.rnd.randint(1, 9000), trnh=S.rnd.randint(1, 9000), use=S.rnd.randint(0, 1) if k else 1)
        for x in ("fmod", "wmod"):
            d[x] = ("ptr", ("n", x, k), 0) if S.rnd.random() < 0.5 else 0
            d[x + "v"] = S.area(("n", x, k), "i32", ei + n + 1, values=[S.rnd.randint(0, 20000) for _ in range(ei + n + 1)])
        d["filter_state"] = ("ptr", ("n", "state", k), 0) if k == 0 or S.rnd.random() < 0.6 else 0
        S.struct(c, NOISECH, {x: v for x, v in d.items() if x in lc}, off=l["channel_config"] + k * cs)
        d["amodv"] = amod
        f.append(d)
    filt = []; rnd = []
    pos = 0
    first = True
    while pos < n or first:
        m = min(res, n - pos)
        first = False
        rnd.append(m)
        for k in range(nch):
            d = f[k]
            own = d["use"] and d["filter_state"]
            t = (1 if k else 0) + 1 if own else 1
            if own:
                frq = d["fmodv"][ei + pos] if d["fmod"] else d["frq"]
                w = d["wmodv"][ei + pos] if d["wmod"] else d["wdt"]
                filt.append((k, m, ratio(S, frq), ratio(S, frq + w), ratio(S, d["trnl"]), ratio(S, d["trnh"]), t))
            for i in range(m):
                x = d["amp"] * d["amodv"][ei + pos + i] * temp[t][i]
                out[d["channel"]][bi + pos + i] += max(-1.0, min(1.0, x))
        pos += m
    if n == 0 and res < 1 << 20:
        raise Skip()
    for k in range(2):
        for j in range(bi + n):
            S.expect(("chan", "out", k), 8 * j, "double", out[k][j], "out[%d][%d]" % (k, j))

    def check(E, V):
        got = named(V, E, "sph_random_f64_array_1to1")
        if [a.args()[1] for a in got] != rnd:
            V.fail("calls", got[0].o.inst if got else None, "%s random samples are requested instead of %s" % ([a.args()[1] for a in got], rnd)); return
        for a in got:
            x = a.args()
            if x[0] != ("ptr", c, l["random_state"]) or x[2] != ("ptr", ("n", "temp", 0), 0):
                V.fail("calls", a.o.inst, "the random samples are made with %s into %s" % (show(x[0]), show(x[2]))); return
        got = named(V, E, "sp_windowed_sinc_bp_br")
        if len(got) != len(filt):
            V.fail("calls", got[0].o.inst if got else None, "the noise is filtered %d times instead of %d" % (len(got), len(filt))); return
        for a, (k, m, lo, hi, tl, th, t) in zip(got, filt):
            x = a.args()
            want = [("ptr", ("n", "temp", 0), 0), m, lo, hi, tl, th, rej, ("ptr", c, l["channel_config"] + k * cs + lc["filter_state"]), ("ptr", ("n", "temp", t), 0)]
            for j, (p, q) in enumerate(zip(x, want)):
                if not close(p, q):
                    V.fail("calls", a.o.inst, "filter argument %d for channel %d is %s instead of %s" % (j + 1, k, show(p), show(q))); return
    S.checks.append(check)


@spec("sp_group_generate_parallel", engine=ForwardEngine)
def _(S):
    ch, smp = out_block(S, "out", 3)
    g = ("n", "group", 0); le = S.lay("sp_event_t")
    S.E.args[0] = a = S.rnd.randint(0, 9); S.E.args[1] = b = a + S.rnd.randint(0, 5)
    S.setptr("group", ("ptr", g, 0))
    S.struct(g, "sp_event_t", {})
    S.checks.append(lambda E, V: calls(V, E, [("sp_seq_parallel", [a, b, block_is(S, ch, 3, smp), ("ptr", g, le["config"])])]))


def ir_length(t):
    import math
    n = math.ceil(4.0 / t)
    return int(n) + (1 - int(n) % 2)


@spec("sp_noise_event_prepare", engine=NoiseEngine)
def _(S):
    noise_rate(S)
    rate = S.E.mem(("g", "sp_rate"), 0, "i32")
    nch = S.rnd.randint(1, 2)
    res = S.rnd.choice((1, 7, 40, 4000, 10 ** 6)); dur = S.rnd.choice((1, 5, 50, 3000, 10 ** 6))
    rej = S.rnd.randint(0, 1)
    c, l, lc, cs = noise_config(S, nch, is_reject=rej, resolution=res)
    st = S.rnd.randint(0, 9)
    g, le = one_event(S, 0, start=st, end=st + dur)
    S.preset[(g, le["config"])] = ("ptr", c, 0)
    S.grow(3)
    f = []
    T = {"amod": "ptr", "fmod": "ptr", "wmod": "ptr", "amp": "double", "frq": "i16", "wdt": "i16", "trnl": "i16", "trnh": "i16", "use": "i8", "channel": "i8"}
    for k in range(2):
        d = dict(amp=float(k + 2), use=S.rnd.randint(0, 1) if k else 1, channel=S.rnd.randint(0, 1), frq=S.rnd.choice((0, 100 + k, 20000)) if k else 500, filter_state=0)
        for x in ("amod", "fmod", "wmod"):
            d[x] = ("ptr", ("n", x, k), 0) if (x == "amod" and k == 0) or S.rnd.random() < 0.3 else 0
            d[x + "v"] = S.area(("n", x, k), "i32", 2, values=[S.rnd.randint(0, 20000) for _ in range(2)])
        for x in ("wdt", "trnl", "trnh"):
            d[x] = S.rnd.randint(1, 9000) if k == 0 or S.rnd.random() < 0.4 else 0
        if k and S.rnd.random() < 0.3:
            d.update(frq=0, wdt=0, trnl=0, trnh=0, fmod=0, wmod=0)
        S.struct(c, NOISECH, {x: v for x, v in d.items() if x in lc}, off=l["channel_config"] + k * cs)
        f.append(d)
    for k in range(3):
        S.preset[(c, l["temp"] + 8 * k)] = 0
    lens = [ir_length(ratio(S, min(f[0]["trnl"], f[0]["trnh"])))]
    mod = bool(f[0]["fmod"] or f[0]["wmod"])
    if nch > 1:
        d = f[1]
        if d["use"]:
            if not d["amod"]:
                d["amod"] = f[0]["amod"]
            if any(d[x] for x in ("frq", "wdt", "fmod", "wmod", "trnl", "trnh")):
                mod = mod or bool(d["fmod"] or d["wmod"])
                for x in ("fmod", "trnh", "trnl", "wdt", "wmod"):
                    if not d[x]:
                        d[x] = f[0][x]
                        if x + "v" in d:
                            d[x + "v"] = f[0][x + "v"]
                lens.append(ir_length(ratio(S, min(d["trnl"], d["trnh"]))))
        else:
            f[1] = dict(f[0], channel=d["channel"])
    want = min(res if mod else dur, 4 * rate)
    S.field(c, NOISE, "resolution", "i32", want, "resolution")
    S.expect(g, le["free"], "ptr", ("fn", "sp_noise_event_free"), "free")
    for k in range(nch):
        for x, t in T.items():
            S.expect(c, l["channel_config"] + k * cs + lc[x], t, f[k][x], "%s[%d]" % (x, k))
    need = max(lens + [want])

    def check(E, V):
        size = {}
        for a in effects(E, "alloc"):
            size[a.s.base(a.o.p[1])[0]] = a.s.ev(a.o.size if isinstance(a.o.size, tuple) else ("i", a.o.size))
        temp = []
        for k in range(3):
            p = E.resolve(c, l["temp"] + 8 * k, 8, "ptr", fun_end())
            if k == 2 and len(lens) < 2:
                if p != 0:
                    V.fail("value:temp", None, "a buffer is made that nothing uses")
                continue
            if not (isinstance(p, tuple) and p[0] == "ptr" and p[1] in size and p[2] == 0) or p in temp:
                V.fail("value:temp", None, "buffer %d is not new memory of its own but %s" % (k, show(p))); return
            if size[p[1]] < need * 8:
                V.fail("size:temp", None, "buffer %d has %d bytes and is used for %d samples" % (k, size[p[1]], need)); return
            temp.append(p)
        got = named(V, E, "sp_windowed_sinc_bp_br"); rnd = named(V, E, "sph_random_f64_array_1to1")
        if len(got) != len(lens) or [a.args()[1] for a in rnd] != lens:
            V.fail("calls", None, "%d filters are initialised instead of %d, with %s random samples instead of %s" % (len(got), len(lens), [a.args()[1] for a in rnd], lens)); return
        for k, (a, r) in enumerate(zip(got, rnd)):
            d = f[k]; x = a.args()
            frq = d["fmodv"][0] & 0xffff if d["fmod"] else d["frq"]
            w = d["wmodv"][0] if d["wmod"] else d["wdt"]
            want = [temp[0], lens[k], ratio(S, frq), ratio(S, frq + w), ratio(S, d["trnl"]), ratio(S, d["trnh"]), rej, ("ptr", c, l["channel_config"] + k * cs + lc["filter_state"]), ANY]
            for j, (p, q) in enumerate(zip(x, want)):
                if q is not ANY and not close(p, q):
                    V.fail("calls", a.o.inst, "filter argument %d for channel %d is %s instead of %s" % (j + 1, k, show(p), show(q))); return
            if x[8] not in temp[1:]:
                V.fail("calls", a.o.inst, "the filter for channel %d does not write into a buffer of the event" % k); return
            if r.args()[2] != temp[0]:
                V.fail("calls", r.o.inst, "the random samples are written to %s" % show(r.args()[2])); return
    S.checks.append(check)


# ------------------------------------------------------------------ events that set themselves up when they are prepared
class SetupEngine(PureEngine):
    """a callback with one argument, the event, may set all of its fields"""
    NOFAIL = True

    def callback_effects(self, i, s, fv, args):
        if len(args) != 1:
            return PureEngine.callback_effects(self, i, s, fv, args)
        r = fun.engine.Engine.callback_effects(self, i, s, fv, [])
        self.written_by_call(i, s, self.norm(s, args[0]), self.m.dist["sp_event_t"]["size"], args, "callback", 0)
        return r


def self_setup(S, fields):
    """what the event contains once its prepare function ran"""
    le = S.lay("sp_event_t")
    v = {le[k]: x for k, x in fields.items()}

    def hook(base, off, t):
        if base[0] == "out":
            return v.get(off)
        return S.preset.get((base, off))
    S.E.mem_hook = hook


def seq_setup(S):
    st = S.rnd.randint(0, 6); en = st + S.rnd.randint(1, 6); start = S.rnd.randint(0, 6); end = start + S.rnd.randint(1, 6)
    S.E.args[S.pos("start")] = start; S.E.args[S.pos("end")] = end
    ch, smp = out_block(S, "out", end - start)
    f = event_fields(S, 0, st, en, True, False); f["generate"] = 0
    head, l = event_list(S, "events", [f])
    if en <= start or end <= st:
        raise Skip()
    en2 = st + S.rnd.choice((en - st, en - st, max(start - st, 0) + 1))
    self_setup(S, dict(event_fields(S, 0, st, en2, True, True), generate=("fn", "later")))
    ev = ("ptr", node(0), l["event"])
    off = max(st, start) - start
    exp = [("prepare0", [ev]), ("later", [max(start - st, 0), min(end, en2) - st, block_is(S, ch, ANY, [("ptr", p[1], 8 * off) for p in smp]), ev])]
    S.checks.append(lambda E, V: calls(V, E, exp))


def future_setup(S):
    st = S.rnd.randint(0, 6); en = st + S.rnd.randint(1, 6)
    l = S.lay("sp_seq_future_t"); lb = S.lay("sp_block_t")
    b = ("arg", S.pos("data"))
    S.setptr("data", ("ptr", b, 0))
    S.struct(b, "sp_seq_future_t", {"start": st, "end": en, "out": 2, "event": ("ptr", node(0), 0)})
    f = event_fields(S, 0, st, en, True, False); f["generate"] = 0
    S.struct(node(0), "sp_event_t", f)
    self_setup(S, dict(event_fields(S, 0, st, en, True, True), generate=("fn", "later")))
    ev = ("ptr", node(0), 0)
    S.checks.append(lambda E, V: calls(V, E, [("prepare0", [ev]), ("later", [st, en, ANY, ev])]))


class FailingEngine(PureEngine):
    """callbacks that return a status return one that the sample chooses for each call"""
    NOFAIL = True

    def callback_effects(self, i, s, fv, args):
        r = PureEngine.callback_effects(self, i, s, fv, args)
        if len(r) == 2 and r[1].fail != r[0].fail and r[0].env[i.id][0] == "agg":
            x = r[0].env[i.id]
            r[0].env[i.id] = ("agg", (fun.sym(("cb", self.ctx, i.fn.name, i.id), 32),) + x[1][1:])
            return r[:1]
        return r


def seq_failure(S):
    """an event cannot be prepared or rendered: all events of the list are released"""
    n = S.rnd.randint(1, 3)
    st = sorted(S.rnd.randint(0, 5) for _ in range(n))
    en = [s + S.rnd.randint(1, 6) for s in st]
    start = S.rnd.randint(0, 5); end = start + S.rnd.randint(1, 6)
    act = [i for i in range(n) if en[i] > start and st[i] < end]
    if not act:
        raise Skip()
    bad = S.rnd.choice(act)
    pr = [S.rnd.random() < 0.5 for _ in range(n)]
    fr = [S.rnd.random() < 0.6 for _ in range(n)]
    S.E.args[S.pos("start")] = start; S.E.args[S.pos("end")] = end
    out_block(S, "out", end - start)
    S.grow(n + 2)
    head, l = event_list(S, "events", [event_fields(S, i, st[i], en[i], pr[i], fr[i]) for i in range(n)])
    code = S.rnd.randint(1, 200)

    def status(E, nn):
        if nn[0] != "cb":
            return 1
        for o in E.e.obs:
            if o.kind == "callback" and o.ctx == nn[1] and o.inst.id == nn[3]:
                f = E.ev(o.v)
                return code if f in (("fn", "prepare%d" % bad), ("fn", "generate%d" % bad)) else 0
        raise Unresolved("which call")
    S.E.results = {"callback": status, None: status}
    exp = []; left = []
    for i in range(n):
        ev = ("ptr", node(i), l["event"])
        if en[i] <= start:
            if i < bad:
                if fr[i]:
                    exp.append(("free%d" % i, [ev]))
            else:
                left.append(i)
            continue
        left.append(i)
        if i > bad or st[i] >= end:
            continue
        if pr[i]:
            exp.append(("prepare%d" % i, [ev]))
        if i < bad or not pr[i]:
            exp.append(("generate%d" % i, [ANY, ANY, ANY, ev]))
    exp += [("free%d" % i, [("ptr", node(i), l["event"])]) for i in left if fr[i]]
    S.ret(code)
    S.expect(head, 0, "ptr", 0, "list head")
    S.checks.append(lambda E, V: calls(V, E, exp))
    S.checks.append(lambda E, V: frees(V, E, [node(i) for i in range(n)]))


EXTRA = [("sp_seq", seq_setup, {"engine": SetupEngine}), ("sp_seq_parallel_future_f", future_setup, {"engine": SetupEngine}), ("sp_seq", seq_failure, {"engine": FailingEngine, "failing": True})]
