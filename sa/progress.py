"""Rule: no path around a loop leaves everything the path depends on as it was.

For every natural loop and every acyclic path from its header back to it, the values the branches of the path depend on
are followed backwards to loop variables, memory and calls.  When each loop variable among them comes back unchanged (or
as the same constant every time), no memory among them can have been written on the path and no call is involved, then
the next iteration takes the same path again: the loop never ends once the path is taken."""

MATH = {"htonl", "htons", "ntohl", "ntohs", "abs", "labs", "llvm.bswap.i32", "sin", "cos", "tan", "exp", "log", "log2", "log10", "pow", "sqrt", "floor", "ceil", "fabs", "fmod", "round", "llvm.fabs.f64", "llvm.fmuladd.f64", "llvm.floor.f64", "llvm.ceil.f64", "llvm.umin.i32", "llvm.umax.i32", "llvm.smin.i32", "llvm.smax.i32", "llvm.umin.i64", "llvm.umax.i64", "llvm.abs.i32"}
QUIET = {"llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.assume", "llvm.donothing"}
FRESH = {"malloc", "calloc"}
# at the end of the data, or with a failing device, these leave memory as it is: only their result tells of progress
IO = {"fread", "fgets", "fscanf", "fseek", "fseeko", "ftell", "rewind", "fwrite", "fputs", "fputc", "fflush", "read", "write", "lseek"}
MAXPATHS = 400


class Pure:
    def __init__(self, mod):
        self.mod = mod; self.memo = {}

    def __call__(self, n):
        if n in MATH:
            return True
        if n not in self.mod.fns:
            return False
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = False
        f = self.mod.fns[n]
        ok = not f.loops
        for b in f.blocks:
            for i in b:
                if i.op in ("store", "atomicrmw", "cmpxchg", "fence", "load"):
                    ok = False
                elif i.op == "call":
                    c = i.d["callee"]
                    if c.get("k") != "fn" or not (c["n"] in QUIET or self(c["n"])):
                        ok = False
        self.memo[n] = ok
        return ok


def escapes(f):
    """allocas whose address is used for anything else than loads and stores of their own"""
    r = set(); der = {}
    for b in f.rpo:
        for i in f.blocks[b]:
            if i.op == "alloca":
                der[i.id] = i.id
            elif i.op in ("getelementptr", "bitcast"):
                g = i.d["gep"]["b"] if "gep" in i.d else i.d["ops"][0]
                n = g.get("n") if g["k"] == "l" else None
                if n in der and n is not None:
                    der[i.id] = der[n]
    for b in f.blocks:
        for i in b:
            ops = []
            if i.op == "store":
                ops = [i.d["ops"][0]]
            elif i.op == "call":
                c = i.d["callee"]
                if c.get("k") == "fn" and (c["n"] in QUIET or c["n"].startswith(("llvm.memcpy", "llvm.memset"))):
                    continue
                ops = i.d["args"]
            elif i.op in ("phi",):
                ops = [x[1] for x in i.d["in"]]
            elif i.op in ("select", "ret", "insertvalue", "ptrtoint"):
                ops = i.d["ops"]
            for o in ops:
                if isinstance(o, dict) and o.get("k") == "l" and o.get("n") in der:
                    r.add(der[o["n"]])
                elif isinstance(o, dict) and o.get("k") == "gep":
                    q = o["gep"]["b"]
                    if q["k"] == "l" and q.get("n") in der:
                        r.add(der[q["n"]])
    return r


class LoopPath:
    def __init__(self, rule, f, loop, path):
        self.rule = rule; self.f = f; self.loop = loop
        self.path = path
        self.prev = {b: path[k - 1] for k, b in enumerate(path) if k}
        self.blocks = set(path)
        for c in self.all_inner(loop):
            if c.header in self.blocks:
                self.blocks |= c.body
        self.memo = {}
        self.stores = None
        self.subst = {}

    def all_inner(self, l):
        for c in l.children:
            yield c
            yield from self.all_inner(c)

    # values along the path
    def resolve(self, o, depth=0):
        """the operand at the end of the path in terms of values at its start: ("same", header phi), ("inv", operand) or None"""
        if o["k"] != "l":
            return ("inv", repr(o), o)
        i = self.f.byid.get(o["n"])
        if i is None or i.bb not in self.loop.body:
            return ("inv", repr(o), o)
        if depth > 30:
            return None
        if i.op == "phi":
            if i.bb == self.loop.header:
                return ("same", i.id, o)
            if i.bb in self.f.loops:
                vals = [self.resolve(x, depth + 1) for pb, x in i.d["in"] if pb not in self.f.loops[i.bb].body]
                if all(x["k"] == "l" and x["n"] == i.id for pb, x in i.d["in"] if pb in self.f.loops[i.bb].body) and len(vals) == 1:
                    return vals[0]
                return None
            p = self.prev.get(i.bb)
            for pb, x in i.d["in"]:
                if pb == p:
                    return self.resolve(x, depth + 1)
            return None
        if i.op in ("add", "sub", "mul", "or", "xor", "shl", "lshr"):
            a, b = i.d["ops"]
            unit = "1" if i.op == "mul" else "0"
            if b["k"] == "i" and b["v"] == unit:
                return self.resolve(a, depth + 1)
            if a["k"] == "i" and a["v"] == unit and i.op in ("add", "mul", "or", "xor"):
                return self.resolve(b, depth + 1)
            return None
        if i.op == "getelementptr" and not i.d["gep"]["vars"] and i.d["gep"]["o"] == 0:
            return self.resolve(i.d["gep"]["b"], depth + 1)
        return None

    def unchanged(self, o):
        """the operand has the same value in the next iteration that takes this path"""
        k = o["k"]
        if k == "gep":
            return self.unchanged(o["gep"]["b"]) and all(self.unchanged(v["v"]) for v in o["gep"]["vars"])
        if k in ("ce", "agg"):
            return all(self.unchanged(x) for x in o["ops"])
        if k != "l":
            return True
        i = self.f.byid.get(o["n"])
        if i is None or i.bb not in self.loop.body:
            return True
        if i.id in self.memo:
            return self.memo[i.id]
        self.memo[i.id] = True
        r = self.memo[i.id] = self.inst(i)
        return r

    def inst(self, i):
        d = i.d
        if i.op == "phi":
            if i.bb == self.loop.header:
                last = [x for pb, x in d["in"] if pb == self.path[-1]]
                v = self.resolve(last[0]) if last else None
                if v is None:
                    return False
                if v[0] == "same":
                    return v[1] == i.id
                self.subst[i.id] = v[2]
                return True
            if i.bb in self.f.loops:
                return all(self.unchanged(x) for pb, x in d["in"])
            p = self.prev.get(i.bb)
            if p is None:
                return all(self.unchanged(x) for pb, x in d["in"])
            return all(self.unchanged(x) for pb, x in d["in"] if pb == p)
        if i.op == "load":
            return not d.get("at") and not d.get("vol") and self.unchanged(d["ops"][0]) and not self.written(i)
        if i.op == "call":
            c = d["callee"]
            return c.get("k") == "fn" and self.rule.pure(c["n"]) and all(self.unchanged(a) for a in d["args"])
        if i.op in ("alloca", "atomicrmw", "cmpxchg", "invoke"):
            return False
        if "gep" in d:
            if not self.unchanged(d["gep"]["b"]) or not all(self.unchanged(v["v"]) for v in d["gep"]["vars"]):
                return False
        return all(self.unchanged(x) for x in d.get("ops", ()))

    # memory
    def root(self, o):
        """(base operand, offset or None)"""
        off = 0
        for _ in range(40):
            if o["k"] == "gep":
                g = o["gep"]
            elif o["k"] == "l" and o["n"] in self.f.byid and self.f.byid[o["n"]].op == "getelementptr":
                g = self.f.byid[o["n"]].d["gep"]
            else:
                break
            off = None if off is None or g["vars"] else off + g["o"]
            o = g["b"]
        return o, off

    def alias(self, p, psize, q, qsize):
        a, x = self.root(p); b, y = self.root(q)
        la = self.local(a); lb = self.local(b)
        same = a["k"] == b["k"] and a.get("n") == b.get("n")
        if same:
            if x is not None and y is not None and a["k"] != "null":
                # the base may itself be different in each iteration, then both are of the same one
                return not (x + psize <= y or y + qsize <= x)
            return True
        if la is not None and lb is not None:
            return False
        if (la is not None and la not in self.rule.esc(self.f)) or (lb is not None and lb not in self.rule.esc(self.f)):
            # the address of a private variable is in no pointer that was loaded or passed
            return False
        if a["k"] == "g" and b["k"] == "g":
            return False
        return True

    def local(self, o):
        if o["k"] == "l" and o["n"] in self.f.byid and self.f.byid[o["n"]].op == "alloca" or o["k"] == "a" and False:
            return o["n"]
        return None

    def effects(self):
        if self.stores is None:
            self.stores = []
            for b in self.blocks:
                for i in self.f.blocks[b]:
                    if i.op in ("store", "atomicrmw", "cmpxchg", "fence"):
                        self.stores.append(i)
                    elif i.op == "call":
                        c = i.d["callee"]
                        if c.get("k") == "fn" and (c["n"] in QUIET or c["n"] in FRESH or c["n"] in IO or self.rule.pure(c["n"])):
                            continue
                        self.stores.append(i)
        return self.stores

    def written(self, l):
        p = l.d["ops"][0]; base, _ = self.root(p)
        loc = self.local(base)
        for s in self.effects():
            if s.op == "store":
                t = s.d.get("vt") or s.d["ops"][0].get("t")
                if s.d["sz"] != l.d["sz"] and not self.local(base):
                    continue             # objects are accessed by their own type
                if self.alias(s.d["ops"][1], s.d["sz"], p, l.d["sz"]):
                    # a store of the value that is there already
                    v = s.d["ops"][0]
                    if v["k"] == "l" and v["n"] == l.id:
                        continue
                    return True
            elif s.op == "call" and s.d["callee"].get("k") == "fn" and s.d["callee"]["n"].startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                if self.alias(s.d["args"][0], 1 << 40, p, l.d["sz"]) or self.root(s.d["args"][0])[0] == base:
                    return True
            else:
                if loc is not None and loc not in self.rule.esc(self.f):
                    continue
                return True
        return False

    # can the path be taken again with the constants that loop variables were set to
    def term(self, o, depth=0):
        if o["k"] == "i":
            return ("c", int(o["v"]), o.get("w", 64))
        if o["k"] == "null":
            return ("c", 0, 64)
        if o["k"] == "l" and depth < 30:
            i = self.f.byid.get(o["n"])
            if i is not None and i.bb in self.loop.body:
                if i.id in self.subst:
                    return self.term(self.subst[i.id], depth + 1)
                if i.op == "phi" and i.bb not in self.f.loops and i.bb in self.prev:
                    for pb, x in i.d["in"]:
                        if pb == self.prev[i.bb]:
                            return self.term(x, depth + 1)
                if i.op in ("icmp", "zext", "trunc", "xor", "and", "or", "add", "sub", "sext", "mul"):
                    a = [self.term(x, depth + 1) for x in i.d["ops"]]
                    if i.op in ("zext",):
                        if a[0][0] == "c":
                            return ("c", a[0][1] % (1 << a[0][2]), int(i.t[1:]))
                    return self.fold(i, a)
        return (o["k"], str(o.get("n", o.get("v"))))

    def fold(self, i, a):
        if all(x[0] == "c" for x in a):
            w = a[0][2]; m = (1 << w) - 1
            x = a[0][1] & m; y = a[1][1] & m if len(a) > 1 else 0
            if i.op == "icmp":
                p = i.d["pred"]
                if p[0] == "s":
                    x = x - (1 << w) if x >> (w - 1) else x; y = y - (1 << w) if y >> (w - 1) else y
                r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[-2:]]
                return ("c", int(r), 1)
            tw = int(i.t[1:]) if i.t[0] == "i" else 64
            r = {"trunc": x, "xor": x ^ y, "and": x & y, "or": x | y, "add": x + y, "sub": x - y, "mul": x * y}.get(i.op)
            if r is not None:
                return ("c", r & ((1 << tw) - 1), tw)
        if i.op == "icmp" and len(a) == 2 and a[0] == a[1]:
            return ("c", int(i.d["pred"][-2:] in ("eq", "le", "ge")), 1)
        return (i.op, i.d.get("pred"), tuple(a))

    def stuck(self):
        conds = []
        p = self.path + [self.loop.header]
        for k, b in enumerate(self.path):
            t = self.f.blocks[b][-1]
            if t.op in ("ret", "unreachable"):
                return False
            if t.op == "br" and t.d["ops"]:
                if not self.unchanged(t.d["ops"][0]):
                    return False
                conds.append((t, self.f.succ[b], p[k + 1]))
            elif t.op == "switch":
                if not self.unchanged(t.d["ops"][0]):
                    return False
        # calls and waits on the path may end the loop in ways that are not seen here
        for s in self.effects():
            if s.op == "call" and not (s.d["callee"].get("k") == "fn" and s.d["callee"]["n"].startswith("llvm.mem")):
                c = s.d["callee"]
                if c.get("k") != "fn" or c["n"] not in self.rule.mod.fns and c["n"] not in ("free", "printf", "fprintf"):
                    if any(True for _ in conds) and all(self.pathonly(c2[0]) for c2 in conds):
                        continue
                    return False
        seen = {}
        for t, succ, nxt in conds:
            v = self.term(t.d["ops"][0])
            if v[0] == "c" and len(succ) == 2 and succ[0] != succ[1]:
                if (nxt == succ[0]) != bool(v[1] & 1):
                    return False
            # the same comparison both true and false: no such path
            side = nxt == succ[0]
            w = v
            while w[0] == "xor" and any(x == ("c", 1, 1) for x in w[2]):
                w = [x for x in w[2] if x != ("c", 1, 1)][0]; side = not side
            if seen.setdefault(w, side) != side:
                return False
        return True

    def pathonly(self, t):
        """the branch depends on loop variables and invariants only, no memory"""
        work = [t.d["ops"][0]]; seen = set()
        while work:
            o = work.pop()
            if o["k"] != "l" or o["n"] in seen:
                continue
            seen.add(o["n"])
            i = self.f.byid.get(o["n"])
            if i is None or i.bb not in self.loop.body:
                continue
            if i.op in ("load", "call"):
                return False
            if i.op == "phi":
                if i.bb == self.loop.header:
                    continue
                work += [x for pb, x in i.d["in"]]
            else:
                work += list(i.d.get("ops", ()))
                if "gep" in i.d:
                    work.append(i.d["gep"]["b"]); work += [v["v"] for v in i.d["gep"]["vars"]]
        return True


class Progress:
    def __init__(self, mod):
        self.mod = mod; self.pure = Pure(mod); self._esc = {}
        self.loops = 0; self.paths = 0; self.truncated = []; self.reports = []; self.noexit = []

    def esc(self, f):
        if f.name not in self._esc:
            self._esc[f.name] = escapes(f)
        return self._esc[f.name]

    def paths_of(self, f, loop):
        out = []; stack = [[loop.header]]
        while stack and len(out) < MAXPATHS:
            p = stack.pop()
            for s in dict.fromkeys(f.succ[p[-1]]):
                if s == loop.header:
                    out.append(p)
                elif s in loop.body and s not in p:
                    stack.append(p + [s])
        if stack:
            self.truncated.append("%s:%d" % (f.name, self.line(f, loop)))
        return out

    def line(self, f, loop):
        for b in [loop.header] + sorted(loop.body):
            for i in f.blocks[b]:
                if i.d.get("ln"):
                    return i.d["ln"]
        return 0

    def run(self):
        for f in self.mod.fns.values():
            for h, loop in sorted(f.loops.items()):
                self.loops += 1
                bad = None
                for p in self.paths_of(f, loop):
                    self.paths += 1
                    if bad is None:
                        lp = LoopPath(self, f, loop, p)
                        if lp.stuck():
                            bad = lp
                if bad is not None:
                    lines = []
                    for b in bad.path:
                        for i in f.blocks[b]:
                            if i.op == "br" and i.d.get("ln") and (not lines or lines[-1] != i.d["ln"]):
                                lines.append(i.d["ln"])
                    fl = f.blocks[h][-1].d.get("fl", f.file).split("/")[-1]
                    self.reports.append(("loop:%s:%d" % (f.name, self.line(f, loop)), "%s:%d in %s: the way around this loop over line %s changes nothing that its branches depend on, so the loop does not end once it is taken" % (fl, self.line(f, loop), f.name, ", ".join(map(str, lines)))))
        return self
