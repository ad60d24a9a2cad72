"""Lock sets, hand-over of ownership and publication order in the thread pool and the futures.

A forward dataflow analysis over the control flow of every entry function, with calls of internal functions followed
in place.  Pointers are access paths (root, offset).  The state holds what must be true on all paths (locks held, queue
found not empty, future found finished, fields stored) and what may be true on some path (objects handed to another
thread, threads started, entries without a signal)."""
import re

POOL = "sph_thread_pool_t"
QUEUE = "sph_queue_t"
FUTURE = "sph_future_t"
BLOCKING = {"pthread_join", "nanosleep", "pthread_exit", "sleep", "usleep", "poll", "select"}


def single(root):
    """does the access path always stand for the same object (until it is allocated again)"""
    return root[0] not in ("elem", "rec", "?", "ld") and not (isinstance(root[-1], tuple) and isinstance(root[-1][0], tuple) and not single(root[-1][0]))


class St:
    __slots__ = ("must", "may")

    def __init__(self, must, may):
        self.must = must; self.may = may

    def join(self, o):
        return St(self.must & o.must, self.may | o.may)

    def __eq__(self, o):
        return self.must == o.must and self.may == o.may

    def key(self):
        return (self.must, self.may)


class Frame:
    def __init__(self, f, args, path):
        self.f = f; self.args = args; self.path = path; self.vals = {}


class Locks:
    def __init__(self, mod):
        self.m = mod
        self.reports = {}
        self.obl = {}
        self.threads = set()
        self.undecided = set()
        l = mod.dist.get(POOL)
        self.pool = {n: (o, z) for o, n, z in l["el"]} if l else {}
        l = mod.dist.get(FUTURE)
        self.fut = {n: (o, z) for o, n, z in l["el"]} if l else {}
        self.futsize = l["size"] if l else 0
        for f in mod.fns.values():
            for b in f.blocks:
                for i in b:
                    if i.op == "call" and i.d["callee"].get("n") == "pthread_create":
                        self.threads |= set(self.fns_in(i.d["args"][2]))

    def fns_in(self, o):
        if o["k"] == "fn":
            yield o["n"]
        for x in o.get("ops", ()):
            for y in self.fns_in(x):
                yield y

    # ---- values
    def val(self, fr, o):
        k = o["k"]
        if k == "a":
            return fr.args[o["n"]] if o["n"] < len(fr.args) else (("?", fr.path, "a", o["n"]), 0)
        if k == "g":
            return (("g", o["n"]), 0)
        if k == "fn":
            return (("fn", o["n"]), 0)
        if k == "gep":
            return self.gep(fr, o["gep"])
        if k == "null":
            return (("null",), 0)
        if k == "i":
            return (("int", int(o["v"])), 0)
        if k == "ce" and o.get("ops"):
            return self.val(fr, o["ops"][0])
        if k != "l":
            return (("?", str(o)), 0)
        v = fr.vals.get(o["n"])
        if v is None:
            fr.vals[o["n"]] = (("rec", fr.path, o["n"]), 0)
            v = fr.vals[o["n"]] = self.inst_val(fr, fr.f.byid[o["n"]])
        return v

    def gep(self, fr, g):
        r, o = self.val(fr, g["b"])
        if g["vars"]:
            return (("elem", r, o + g["o"]), 0)
        return (r, o + g["o"])

    def inst_val(self, fr, i):
        if i.op == "getelementptr":
            v = self.gep(fr, i.d["gep"])
            st = i.d["gep"]["st"]
            if st == "%struct." + POOL and not i.d["gep"]["vars"]:
                self.pools.add(self.val(fr, i.d["gep"]["b"]))
            if st == "%struct." + FUTURE and not i.d["gep"]["vars"]:
                self.futures.add(self.val(fr, i.d["gep"]["b"]))
            return v
        if i.op in ("bitcast", "addrspacecast", "freeze"):
            return self.val(fr, i.d["ops"][0])
        if i.op == "load":
            return (("ld", self.val(fr, i.d["ops"][0])), 0)
        if i.op == "phi":
            c = {self.val(fr, o) for b, o in i.d["in"]}
            c = {x for x in c if x[0] != ("rec", fr.path, i.id)}
            if len(c) == 1:
                return c.pop()
        return (("v", fr.path, i.id), 0)

    # ---- what an address is
    def where(self, a):
        """('queue', pool) / ('mutex', pool) / ('cond', pool) / ('pool', pool, field) / ('future', future, field) or None"""
        r, o = a
        for p in self.pools:
            if p[0] == r:
                d = o - p[1]
                for n, (fo, z) in self.pool.items():
                    if fo <= d < fo + z:
                        return {"queue": ("queue", p), "queue_mutex": ("mutex", p), "queue_not_empty": ("cond", p)}.get(n, ("pool", p, n))
        for p in self.futures:
            if p[0] == r:
                d = o - p[1]
                for n, (fo, z) in self.fut.items():
                    if fo <= d < fo + z:
                        return ("future", p, n)
        return None

    def report(self, kind, i, text):
        self.reports.setdefault((kind, i.fn.name, i.id), "%s:%d in %s: %s" % (i.loc[0], i.loc[1], i.fn.name, text))

    def need(self, kind, i, ok, text):
        self.obl[(kind, i.fn.name, i.id, self.entry)] = bool(ok) and self.obl.get((kind, i.fn.name, i.id, self.entry), True)
        if not ok:
            self.report(kind, i, text)

    # ---- entries
    def run(self, entry):
        f = self.m.fns[entry]
        self.entry = entry
        self.isthread = entry in self.threads
        self.pools = set(); self.futures = set()
        for k, p in enumerate(f.params):
            t = f.st[k + 1] if k + 1 < len(f.st) else ""
            a = (("arg", k), 0)
            if re.fullmatch(POOL + r"\s*\*", t):
                self.pools.add(a)
            if re.fullmatch(FUTURE + r"\s*\*", t):
                self.futures.add(a)
        for n, g in self.m.globals.items():
            if g["t"] == "%struct." + POOL:
                self.pools.add((("g", n), 0))
        # what the function does at all
        self.inits = set(); self.publishes = set(); self.finishes = set()
        self.reporting = False
        for _ in range(2):
            self.go(f)
        self.reporting = True
        self.go(f)

    def go(self, f):
        self.memo = {}; self.depth = 0
        must = frozenset(("private", p) for p in self.inits)
        fr = Frame(f, [(("arg", k), 0) for k in range(len(f.params))], (f.name,))
        for st, i in self.body(fr, St(must, frozenset()))[1]:
            self.at_return(fr, st, i)

    def at_return(self, fr, st, i):
        if not self.reporting:
            return
        held = [x for x in st.may if x[0] == "locked"]
        self.need("unlock", i, not held, "the lock of the queue may still be held when %s returns" % self.entry)
        self.need("wait-return", i, not any(x[0] == "running" for x in st.may), "%s returns while futures it started may still be running" % self.entry)
        pend = [x for x in st.may if x[0] == "unsignalled"]
        self.need("signal", i, not pend, "an entry may have been added to the queue without waking up a thread")

    def body(self, fr, st):
        """-> (state at return or None, [(state, return)])"""
        f = fr.f
        ins = {0: st}; work = [0]; rets = {}
        n = 0
        while work:
            b = min(work, key=lambda x: f.rpoi.get(x, 0)); work.remove(b)
            n += 1
            if n > 4000:
                break
            s = ins[b]
            dead = False
            if b in self.waits(f):
                s = St(s.must, frozenset(x for x in s.may if x[0] != "running"))
            for i in f.blocks[b]:
                s = self.step(fr, s, i)
                if s is None:
                    dead = True; break
                if i.op == "ret":
                    rets[i.id] = (s, i)
            if dead:
                continue
            term = f.blocks[b][-1]
            for k, t in enumerate(f.succ[b]):
                e = self.edge(fr, s, term, k) if term.op == "br" and len(f.succ[b]) == 2 else s
                o = ins.get(t)
                j = e if o is None else o.join(e)
                if o is None or not j == o:
                    ins[t] = j
                    if t not in work:
                        work.append(t)
        r = None
        for s, i in rets.values():
            r = s if r is None else r.join(s)
        return r, list(rets.values())

    # ---- branches
    def zero_eval(self, fr, o, loads, at):
        """value of the condition when the load it depends on yields zero; None when it depends on anything else"""
        if o["k"] == "i":
            return int(o["v"]) % (1 << o.get("w", 64))
        if o["k"] == "null":
            return 0
        if o["k"] != "l":
            return None
        i = fr.f.byid[o["n"]]
        if i.op == "load" or i.t == "ptr" and i.op in ("phi", "call", "select"):
            loads.append(i)
            return 0
        if i.op in ("zext", "trunc", "ptrtoint", "bitcast", "freeze", "sext"):
            return self.zero_eval(fr, i.d["ops"][0], loads, at)
        if i.op in ("icmp", "xor", "and", "or"):
            a = self.zero_eval(fr, i.d["ops"][0], loads, at); b = self.zero_eval(fr, i.d["ops"][1], loads, at)
            if a is None or b is None:
                return None
            if i.op == "icmp":
                return {"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b, "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b}.get(i.d["pred"], None)
            return {"xor": a ^ b, "and": a & b, "or": a | b}[i.op]
        return None

    def edge(self, fr, s, br, k):
        # succ[0] is taken when the condition is true
        loads = []
        c = self.zero_eval(fr, br.d["ops"][0], loads, br)
        add = set()
        if c is not None and len(loads) == 1:
            l = loads[0]
            if bool(c) == (k == 0) and l.t == "ptr":
                # there is no such object here
                r = self.val(fr, {"k": "l", "n": l.id})[0]
                return St(s.must, frozenset(x for x in s.may if x != ("running", r)))
            w = self.where(self.val(fr, l.d["ops"][0])) if l.op == "load" else None
            if bool(c) != (k == 0):
                if w and w[0] == "queue" and ("size", w[1], fr.path, l.id) in s.must:
                    add.add(("nonempty", w[1]))
                if w and w[0] == "future" and w[2] == "finished" and ("asked", w[1], fr.path, l.id) in s.must:
                    add.add(("done", w[1]))
        else:
            # a condition that is not understood: whatever was looked at counts as tested
            for x in s.must:
                if x[0] == "size":
                    add.add(("nonempty", x[1]))
                if x[0] == "asked":
                    add.add(("done", x[1]))
        if not add:
            return s
        # a finished future belongs to the one who waited for it again
        back = {("gone", x[1][0]) for x in add if x[0] == "done"}
        return St(s.must | add, frozenset(x for x in s.may if x not in back))

    # ---- instructions
    def kill(self, s, *kinds, pool=None):
        return St(frozenset(x for x in s.must if not (x[0] in kinds and (pool is None or x[1] == pool))), s.may)

    def step(self, fr, s, i):
        if i.op == "load":
            return self.access(fr, s, i, self.val(fr, i.d["ops"][0]), False)
        if i.op in ("store", "atomicrmw", "cmpxchg"):
            ops = i.d["ops"]
            v, a = (ops[0], ops[1]) if i.op == "store" else (ops[1], ops[0])
            return self.access(fr, s, i, self.val(fr, a), True, v)
        if i.op == "fence":
            self.undecided.add(i.fn.name)
            return St(s.must | {("fence",)}, s.may)
        if i.op == "call":
            return self.call(fr, s, i)
        if i.op == "unreachable":
            return None
        return s

    def gone(self, s, root):
        return ("gone", root) in s.may

    def access(self, fr, s, i, a, write, v=None):
        w = self.where(a)
        rep = self.reporting
        atomic = i.op != "load" and i.op != "store" or i.d.get("at")
        order = i.d.get("ord", "")
        if rep and a[0][0] not in ("g", "?", "v") and any(x[0] == "gone" for x in s.may):
            self.need("handed-over", i, not self.gone(s, a[0]) or atomic, "an object is used after it was handed to another thread or to the function that may release it")
        elif rep and self.gone(s, a[0]):
            self.need("handed-over", i, atomic, "an object is used after it was handed to another thread or to the function that may release it")
        must = s.must; may = s.may
        if w and w[0] == "queue":
            p = w[1]
            if rep:
                self.need("lock", i, ("locked", p) in must or ("private", p) in must, "the queue is %s without holding its lock" % ("changed" if write else "read"))
            if not write:
                must = must | {("size", p, fr.path, i.id)}
            else:
                if ("private", p) in must:
                    must = must | {("queue-ready", p)}
                x = self.val(fr, v)
                if x[0][0] not in ("null", "int") and i.d.get("vt", "ptr") == "ptr":
                    # is it new to the queue, or the successor of an entry that leaves?
                    if not (x[0][0] == "ld" and self.from_queue(x[0][1])):
                        if single(x[0]):
                            may = may | {("pending", x[0])}
                        elif self.array_of(x[0]):
                            may = may | {("running", self.array_of(x[0]))}
                        if rep:
                            self.published(fr, s, i, x)
                        if ("signalled", p) not in must:
                            may = may | {("unsignalled", p)}
                        self.publishes.add(x[0])
        elif w and w[0] == "pool":
            if rep and self.isthread:
                self.need("worker", i, False, "a worker thread accesses the %s of the pool, which its owner changes without a lock" % w[2])
        elif w and w[0] == "future":
            p = w[1]
            private = p[0] in self.publishes or a[0][0] == "loc"
            if w[2] == "finished":
                if write and not private:
                    self.finishes.add(p)
                if rep and not private and ("fence",) not in must:
                    if write:
                        self.need("release", i, atomic and order in ("release", "seq_cst", "acq_rel"), "the end of a future is announced by a store that is not a release")
                    else:
                        self.need("acquire", i, atomic and order in ("acquire", "seq_cst", "acq_rel"), "the end of a future is asked for by a load that is not an acquire")
                if not write and atomic:
                    must = must | {("asked", p, fr.path, i.id)}
                if write and not private:
                    must = frozenset(must)
                    may = may | {("gone", p[0])}
            elif rep and not private and p not in self.finishes:
                self.need("wait", i, ("done", p) in must or ("fence",) in must, "%s of a future is %s before it is known to be finished" % (w[2], "written" if write else "read"))
        if write:
            must = must | {("set", a)}
        return St(must, may)

    def array_of(self, root):
        return root[1] if root[0] == "elem" else None

    def waits(self, f):
        """headers of loops that wait for futures"""
        c = self.__dict__.setdefault("waitloops", {})
        if f.name not in c:
            c[f.name] = {h for h, l in f.loops.items() if any(i.op == "call" and i.d["callee"].get("n") in self.waiters() for b in l.body for i in f.blocks[b])}
        return c[f.name]

    def waiters(self):
        """functions that ask, in a loop, whether a future is finished"""
        w = self.__dict__.get("waiterset")
        if w is None:
            o, z = self.fut.get("finished", (0, 0))
            w = self.waiterset = set()
            for n, f in self.m.fns.items():
                for b in f.blocks:
                    for i in b:
                        if i.op == "load" and i.d.get("at") and i.d["ops"][0]["k"] == "l":
                            g = f.byid[i.d["ops"][0]["n"]]
                            if g.op == "getelementptr" and g.d["gep"]["st"] == "%struct." + FUTURE and g.d["gep"]["o"] == o:
                                w.add(n)
            more = True
            while more:
                more = False
                for n, f in self.m.fns.items():
                    if n not in w and any(i.op == "call" and i.d["callee"].get("n") in w for b in f.blocks for i in b):
                        w.add(n); more = True
        return w

    def from_queue(self, a):
        """is this address inside an entry that was read from a queue"""
        n = 0
        while n < 20:
            n += 1
            w = self.where(a)
            if w and w[0] == "queue":
                return True
            r = a[0]
            if r[0] == "ld":
                a = r[1]; continue
            return False

    def published(self, fr, s, i, x):
        """the fields of an entry are set before it can be seen"""
        fs = [f for f in self.futures if f[0] == x[0]]
        for f in fs:
            for n in self.fut:
                o, z = self.fut[n]
                ok = any(y[0] == "set" and y[1][0] == x[0] and (y[1][1] == "*" or f[1] + o <= y[1][1] < f[1] + o + z) for y in s.must)
                self.need("publish:" + n, i, ok, "a future is handed to the pool before its field %s is set" % n)

    def pool_of(self, a, kind):
        w = self.where(a)
        return w[1] if w and w[0] == kind else None

    def call(self, fr, s, i):
        c = i.d["callee"]
        rep = self.reporting
        args = [self.val(fr, o) for o in i.d["args"]]
        held = [x for x in s.may if x[0] == "locked"]
        if c["k"] != "fn":
            if rep:
                self.need("callback", i, not held, "a function that is not known is called while the lock of the queue may be held")
                for a in args:
                    if self.gone(s, a[0]):
                        self.need("handed-over", i, False, "an object is used after it was handed over")
            if self.isthread:
                return St(s.must, s.may | {("gone", a[0]) for a in args if a[0][0] in ("v", "ld", "ret", "call")})
            return s
        n = c["n"]
        if n == "pthread_mutex_lock":
            p = self.pool_of(args[0], "mutex")
            if p is None:
                return s
            if rep:
                self.need("relock", i, ("locked", p) not in s.may, "the lock of the queue may already be held when it is taken")
            s = self.kill(s, "size", "nonempty", pool=p)
            return St(s.must | {("locked", p)}, s.may | {("locked", p)})
        if n == "pthread_mutex_unlock":
            p = self.pool_of(args[0], "mutex")
            if p is None:
                return s
            if rep:
                self.need("unlock-held", i, ("locked", p) in s.must, "the lock of the queue is released without being held on every path")
            s = self.kill(s, "size", "nonempty", "locked", "signalled", pool=p)
            may = {x for x in s.may if x != ("locked", p)}
            may |= {("gone", x[1]) for x in may if x[0] == "pending"}
            return St(s.must, frozenset(x for x in may if x[0] != "pending"))
        if n in ("pthread_cond_wait", "pthread_cond_timedwait"):
            p = self.pool_of(args[0], "cond")
            if p is None:
                return s
            q = self.pool_of(args[1], "mutex")
            if rep:
                self.need("wait-lock", i, q == p and ("locked", p) in s.must, "a thread waits for the queue without holding its lock")
            return self.kill(s, "size", "nonempty", "signalled", pool=p)
        if n in ("pthread_cond_signal", "pthread_cond_broadcast"):
            p = self.pool_of(args[0], "cond")
            if p is None:
                return s
            must = s.must | ({("signalled", p)} if ("locked", p) in s.must else frozenset())
            return St(must, frozenset(x for x in s.may if x != ("unsignalled", p)))
        if n == "pthread_mutex_init":
            p = self.pool_of(args[0], "mutex")
            if p is not None:
                self.inits.add(p)
                return St(s.must | {("mutex-ready", p)}, s.may)
            return s
        if n == "pthread_cond_init":
            p = self.pool_of(args[0], "cond")
            return s if p is None else St(s.must | {("cond-ready", p)}, s.may)
        if n == "pthread_create":
            a = args[3]
            p = next((p for p in self.pools if p == a), None)
            if p is not None:
                if rep:
                    for x, t in (("mutex-ready", "lock"), ("cond-ready", "condition"), ("queue-ready", "queue")):
                        self.need(x, i, ("private", p) not in s.must or (x, p) in s.must, "a thread is started before the %s of the pool is initialised" % t)
                # the facts about readiness are for the first thread; the others follow
                return St(frozenset(x for x in s.must if x != ("private", p)), s.may | {("started", p)})
            return s
        if n == "pthread_join":
            if rep:
                self.need("blocking", i, not held, "a thread is joined while the lock of the queue may be held")
            return St(s.must | {("joined",)}, s.may)
        if n in ("pthread_mutex_destroy", "pthread_cond_destroy"):
            p = self.pool_of(args[0], "mutex") or self.pool_of(args[0], "cond")
            if p is not None and rep and self.entry not in self.destroyers:
                self.need("destroy", i, ("joined",) in s.must or ("private", p) in s.must, "the lock of a pool is destroyed although no thread was waited for")
            return s
        if n in BLOCKING:
            if rep:
                self.need("blocking", i, not held, "%s is called while the lock of the queue may be held" % n)
            return s
        if n in ("free",):
            if rep and self.gone(s, args[0][0]):
                self.need("handed-over", i, False, "an object is released after it was handed to another thread")
            if rep and args[0][0][0] not in ("?", "null"):
                self.need("wait-release", i, ("running", args[0][0]) not in s.may, "memory of futures that may still be running is released")
            return s
        if n.startswith("llvm.mem") or n in ("memcpy", "memset", "memmove"):
            w = self.where(args[0])
            if w and w[0] == "queue" and rep:
                self.need("lock", i, ("locked", w[1]) in s.must or ("private", w[1]) in s.must, "the queue is changed without holding its lock")
            must = s.must | {("set", (args[0][0], "*"))}
            if w and w[0] in ("queue", "pool") and ("private", w[1]) in must:
                must = must | {("queue-ready", w[1])}
            return St(must, s.may)
        fresh = ("v", fr.path, i.id)
        if n in ("malloc", "calloc", "realloc"):
            return self.renew(s, fresh)
        f = self.m.fns.get(n)
        if f is None:
            return s
        if n == "sph_queue_deq":
            p = self.pool_of(args[0], "queue")
            if p is not None and rep:
                self.need("nonempty", i, ("nonempty", p) in s.must, "an entry is taken from the queue without having seen, since the lock was taken or waited for, that there is one")
        if not self.interesting(n):
            return s
        if self.depth > 12 or n in [x for x in fr.path if isinstance(x, str)]:
            return s
        k = (n, fr.path, i.id, tuple(args), s.key(), self.reporting)
        r = self.memo.get(k, self)
        if r is self:
            self.depth += 1
            sub = Frame(f, args, fr.path + (i.id, n))
            r = self.body(sub, s)[0]
            self.depth -= 1
            self.memo[k] = r
        if r is None:
            return None
        r = self.kill(r, "x")
        if n == "sph_queue_deq":
            r = self.kill(r, "size", "nonempty")
        return self.renew(r, fresh)

    def renew(self, s, root):
        return St(frozenset(x for x in s.must if not (x[0] == "set" and x[1][0] == root)), frozenset(x for x in s.may if x not in (("gone", root), ("pending", root))))

    def interesting(self, n):
        c = self.__dict__.setdefault("inter", {})
        if n in c:
            return c[n]
        c[n] = False
        f = self.m.fns[n]
        r = any(re.match(r"(%s|%s|%s|sph_queue_node_t|sph_thread_pool_task_t)\b" % (POOL, QUEUE, FUTURE), t) for t in f.st)
        for b in f.blocks:
            for i in b:
                if i.op == "call" and i.d["callee"]["k"] == "fn":
                    x = i.d["callee"]["n"]
                    if x.startswith("pthread_") or x in self.m.fns and self.interesting(x):
                        r = True
        c[n] = r
        return r


def entries(mod, headers):
    """functions that are called from outside: declared in a header, given as a pointer, or without callers"""
    called = set(); taken = set()

    def scan(o, direct):
        if o["k"] == "fn":
            (called if direct else taken).add(o["n"])
        for x in o.get("ops", ()):
            scan(x, False)
    for f in mod.fns.values():
        for b in f.blocks:
            for i in b:
                if i.op == "call":
                    scan(i.d["callee"], True)
                    for o in i.d["args"]:
                        scan(o, False)
                for o in i.d.get("ops", ()):
                    scan(o, False)
    text = headers
    return [n for n in sorted(mod.fns) if n in taken or n not in called or re.search(r"\b%s\s*\(" % re.escape(n), text)]


def run(mod, headers):
    a = Locks(mod)
    a.destroyers = set()
    ent = [n for n in entries(mod, headers) if a.interesting(n)]
    # a function whose only purpose is to destroy the pool is called when all threads have ended
    def destroys(f):
        return any(i.op == "call" and i.d["callee"].get("n") == "pthread_mutex_destroy" for b in f.blocks for i in b)
    def joins(f):
        return any(i.op == "call" and i.d["callee"].get("n") == "pthread_join" for b in f.blocks for i in b)
    for n in ent:
        if destroys(mod.fns[n]) and not joins(mod.fns[n]):
            a.destroyers.add(n)
    for n in ent:
        a.run(n)
    return a, ent
