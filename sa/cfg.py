"""Control-flow structure of the dumped functions: preds, reverse post-order, dominators, natural loops, liveness."""
import json, os


class Inst:
    __slots__ = ("id", "op", "t", "d", "fn", "bb")

    def __init__(self, d, fn, bb):
        self.id = d["id"]; self.op = d["op"]; self.t = d["t"]; self.d = d; self.fn = fn; self.bb = bb

    @property
    def loc(self):
        return (self.d.get("fl", "?"), self.d.get("ln", 0))


class Loop:
    def __init__(self, header):
        self.header = header; self.body = {header}; self.parent = None; self.children = []


def operand_locals(o, acc):
    k = o["k"]
    if k == "l":
        acc.add(o["n"])
    elif k == "gep":
        gep_locals(o["gep"], acc)
    elif k in ("ce", "agg"):
        for x in o["ops"]:
            operand_locals(x, acc)


def gep_locals(g, acc):
    operand_locals(g["b"], acc)
    for v in g["vars"]:
        operand_locals(v["v"], acc)


class Func:
    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.params = d["params"]
        self.ret = d["ret"]
        self.file = d.get("fl", "?"); self.line = d.get("ln", 0)
        self.st = d.get("st", [])
        self.blocks = []
        self.byid = {}
        for b in d["blocks"]:
            insts = [Inst(i, self, b["id"]) for i in b["insts"]]
            for i in insts:
                self.byid[i.id] = i
            self.blocks.append(insts)
        self.succ = [b["succ"] for b in d["blocks"]]
        self.preds = [[] for _ in self.blocks]
        for i, ss in enumerate(self.succ):
            for s in dict.fromkeys(ss):
                self.preds[s].append(i)
        self._rpo(); self._dom(); self._loops(); self._live()

    def _rpo(self):
        seen = set(); order = []
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(n); stack.pop()
        self.rpo = order[::-1]
        self.rpoi = {b: i for i, b in enumerate(self.rpo)}

    def _dom(self):
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.preds[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new; changed = True
        self.idom = idom

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpoi[a] > self.rpoi[b]:
                a = idom[a]
            while self.rpoi[b] > self.rpoi[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.rpoi and self.rpoi[s] <= self.rpoi[b] and self.dominates(s, b):
                    lp = self.loops.setdefault(s, Loop(s))
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in lp.body:
                            lp.body.add(x); work.extend(p for p in self.preds[x] if p in self.rpoi)
        ls = sorted(self.loops.values(), key=lambda l: len(l.body))
        self.inner = {}
        for i, l in enumerate(ls):
            for p in ls[i + 1:]:
                if l.header in p.body and l.header != p.header:
                    l.parent = p; p.children.append(l); break
        for l in ls:
            for b in l.body:
                self.inner.setdefault(b, l)

    def induction(self, loop):
        """header phi id -> ('aff', step) when every way round the loop adds the same constant,
        ('up',) / ('down',) when it only ever grows / shrinks, absent otherwise.  Wrap-around is not modelled."""
        c = getattr(loop, "ind", None)
        if c is not None:
            return c
        loop.ind = res = {}
        for p in self.blocks[loop.header]:
            if p.op != "phi":
                break
            acc = set(); kinds = set()
            for pb, o in p.d["in"]:
                if pb in loop.body:
                    self._delta(p, o, loop, 0, acc, kinds, set())
            if kinds & {"?"}:
                continue
            if len(acc) == 1 and not kinds:
                st = next(iter(acc))
                if st != 0:
                    res[p.id] = ("aff", st)
            elif acc and all(x >= 0 for x in acc) and not kinds & {"down"}:
                res[p.id] = ("up",)
            elif acc and all(x <= 0 for x in acc) and not kinds & {"up"}:
                res[p.id] = ("down",)
        return res

    def _delta(self, p, o, loop, d, acc, kinds, seen):
        if o["k"] != "l":
            kinds.add("?"); return
        if o["n"] == p.id:
            acc.add(d); return
        i = self.byid.get(o["n"])
        if i is None or i.bb not in loop.body:
            kinds.add("?"); return
        w = int(i.t[1:]) if i.t[0] == "i" and i.t[1:].isdigit() else 64
        if i.op == "phi":
            inner = i.bb in self.loops
            if (i.id, None if inner else d) in seen:
                return
            seen.add((i.id, None if inner else d))
            if inner:
                sub = self.induction(self.loops[i.bb]).get(i.id)
                if sub is not None:
                    st = sub[1] if sub[0] == "aff" else (1 if sub[0] == "up" else -1)
                    kinds.add("up" if st > 0 else "down")
                    for pb, x in i.d["in"]:
                        if pb not in self.loops[i.bb].body:
                            self._delta(p, x, loop, d, acc, kinds, seen)
                    return
                # unchanged by the inner loop?
                outer = [x for pb, x in i.d["in"] if pb not in self.loops[i.bb].body]
                if all(x["k"] == "l" and x["n"] == i.id for pb, x in i.d["in"] if pb in self.loops[i.bb].body):
                    for x in outer:
                        self._delta(p, x, loop, d, acc, kinds, seen)
                    return
                kinds.add("?"); return
            for pb, x in i.d["in"]:
                self._delta(p, x, loop, d, acc, kinds, seen)
            return
        if i.op in ("add", "sub"):
            a, b = i.d["ops"]
            if b["k"] != "i" and a["k"] == "i" and i.op == "add":
                a, b = b, a
            if b["k"] == "i":
                n = int(b["v"]) % (1 << w)
                if n >> (w - 1):
                    n -= 1 << w
                self._delta(p, a, loop, d + (n if i.op == "add" else -n), acc, kinds, seen)
                return
        if i.op in ("mul", "shl"):
            a, b = i.d["ops"]
            if b["k"] == "i" and (int(b["v"]) >= 1):
                kinds.add("up")
                self._delta(p, a, loop, d, acc, kinds, seen)
                return
        if i.op in ("udiv", "lshr"):
            a, b = i.d["ops"]
            if b["k"] == "i" and (int(b["v"]) >= 1):
                kinds.add("down")
                self._delta(p, a, loop, d, acc, kinds, seen)
                return
        if i.op == "getelementptr" and not i.d["gep"]["vars"]:
            self._delta(p, i.d["gep"]["b"], loop, d + i.d["gep"]["o"], acc, kinds, seen)
            return
        if i.op == "select":
            for x in i.d["ops"][1:]:
                self._delta(p, x, loop, d, acc, kinds, seen)
            return
        kinds.add("?")

    def uses(self, inst):
        acc = set(); d = inst.d
        for o in d.get("ops", ()):
            operand_locals(o, acc)
        for o in d.get("args", ()):
            operand_locals(o, acc)
        if "gep" in d:
            gep_locals(d["gep"], acc)
        if "callee" in d:
            operand_locals(d["callee"], acc)
        return acc

    def _live(self):
        n = len(self.blocks)
        gen = [set() for _ in range(n)]; kill = [set() for _ in range(n)]; phiuse = [dict() for _ in range(n)]
        for b, insts in enumerate(self.blocks):
            for i in insts:
                if i.op == "phi":
                    kill[b].add(i.id)
                    for pb, o in i.d["in"]:
                        s = set(); operand_locals(o, s)
                        phiuse[b].setdefault(pb, set()).update(s)
                    continue
                for u in self.uses(i):
                    if u not in kill[b]:
                        gen[b].add(u)
                kill[b].add(i.id)
        livein = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= livein[s]
                    out |= phiuse[s].get(b, set())
                new = gen[b] | (out - kill[b])
                if new != livein[b]:
                    livein[b] = new; changed = True
        # what must be kept when entering a block: live-in plus its phi results
        self.livein = [livein[b] | {i.id for i in self.blocks[b] if i.op == "phi"} for b in range(n)]


class Module:
    def __init__(self, j):
        self.fns = {}
        known = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "params.json")))
        self.changed = set()     # functions with other parameters than the specifications are written for
        for f in j["fns"]:
            if f["blocks"]:
                f = Func(f)
                self.fns[f.name] = f
                k = known.get(f.name)
                if k:
                    if [t for n, t in k] != [p["t"] for p in f.params]:
                        self.changed.add(f.name)
                    else:
                        names = {p["name"] for p in f.params}; was = {n for n, t in k}
                        for p, (n, t) in zip(f.params, k):
                            # a renamed parameter
                            if n not in names and p["name"] not in was:
                                p["name"] = n
        self.globals = {g["name"]: g for g in j.get("globals", [])}
        self.structs = j.get("structs", {})
        self.dist = j.get("dist", {})
        self.decls = set(j.get("decls", []))
        # map llvm struct name -> source struct (field names)
        self.bytag = {}
        for n, d in self.dist.items():
            self.bytag[n] = d
            if d.get("tag"):
                self.bytag.setdefault(d["tag"], d)

    def offsets(self, st):
        n = st[len("%struct."):]
        d = self.bytag.get(n) or self.bytag.get(n.split(".")[0])
        return {name: o for o, name, sz in d["el"]} if d else {}

    def field(self, st, off):
        """name of the field at byte offset off in the struct with llvm type st ('%struct.x')"""
        if not st.startswith("%struct."):
            return None
        n = st[len("%struct."):]
        d = self.bytag.get(n) or self.bytag.get(n.split(".")[0])
        if not d:
            return None
        best = None
        for o, name, sz in d["el"]:
            if o <= off < o + max(sz, 1):
                best = name
        return best
