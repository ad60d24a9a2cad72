"""Whole-program rules on the compiled library: which global state each function changes, the statuses that are
returned, and declarations without definition."""
import re, subprocess
import cfg, ir, memsafe
from engine import un

READONLY = {"printf", "fprintf", "snprintf", "puts", "putchar", "fputs", "fwrite", "strcmp", "strlen", "memcmp", "fputc", "fclose", "free", "fopen", "system", "strncmp", "strchr", "strtod", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast"}
WRITES_FIRST = {"memcpy", "memset", "memmove", "sprintf", "snprintf", "fread", "strcpy", "strcat"}


def is_global(mod, n):
    g = mod.globals.get(n)
    return g is not None and not g["const"] and not n.startswith((".str", "__const", "__func"))


class ModRef:
    """which globals and which parameters' targets a function writes, directly or through the functions it calls"""

    def __init__(self, mod):
        self.mod = mod
        self.taken = {}          # address-taken functions -> where
        self.sites = {}          # (function, global) -> [(file, line, via)]
        self.reads = {}          # (function, global)
        self.calls = {}          # function -> {callee: [location]}
        self.indirect = {}       # function -> [(type, location)]
        self.direct = {}         # function -> {root}
        self.passed = {}         # function -> [(callee, argument number, roots, location)]
        for f in mod.fns.values():
            self.local(f)
        self.byshape = {}
        for n in mod.fns:
            self.byshape.setdefault(self.function_shape(n), set()).add(n)
        self.written = {n: set(r) for n, r in self.direct.items()}
        self.solve()

    def roots_of(self, f, op, env):
        k = op.get("k")
        if k == "g":
            return {("g", op["n"])} if is_global(self.mod, op["n"]) else set()
        if k == "a":
            return {("a", op["n"])}
        if k == "l":
            return env.get(op["n"], set())
        if k == "gep":
            return self.roots_of(f, op["gep"]["b"], env)
        if k == "ce":
            r = set()
            for o in op["ops"]:
                r |= self.roots_of(f, o, env)
            return r
        return set()

    def functions_in(self, op):
        k = op.get("k")
        if k == "fn":
            yield op["n"]
        elif k == "gep":
            yield from self.functions_in(op["gep"]["b"])
        elif k in ("ce", "agg"):
            for o in op["ops"]:
                yield from self.functions_in(o)

    def local(self, f):
        env = {}
        for _ in range(6):
            n = sum(len(v) for v in env.values())
            for b in f.blocks:
                for i in b:
                    if i.op == "load" and i.t == "ptr":
                        # what a global pointer refers to
                        r = {("g", "*" + x[1]) for x in self.roots_of(f, i.d["ops"][0], env) if x[0] == "g" and x[1][0] != "*"}
                        if r:
                            env[i.id] = env.get(i.id, set()) | r
                    if i.op in ("gep", "getelementptr", "bitcast", "phi", "select", "inttoptr", "ptrtoint"):
                        r = set()
                        ops = list(i.d.get("ops", ()))
                        if "gep" in i.d:
                            ops.append(i.d["gep"]["b"])
                        if i.op == "phi":
                            ops += [x[1] if isinstance(x, list) else x for x in i.d.get("in", ())]
                        for o in ops:
                            if isinstance(o, dict):
                                r |= self.roots_of(f, o, env)
                        if r:
                            env[i.id] = env.get(i.id, set()) | r
            if sum(len(v) for v in env.values()) == n:
                break
        direct = self.direct.setdefault(f.name, set())
        calls = self.calls.setdefault(f.name, {})
        passed = self.passed.setdefault(f.name, [])
        ind = self.indirect.setdefault(f.name, [])

        def write(roots, i, via=None):
            for r in roots:
                direct.add(r)
                if r[0] == "g":
                    self.sites.setdefault((f.name, r[1]), []).append(i.loc + (via,))
        for b in f.blocks:
            for i in b:
                d = i.d
                ops = list(d.get("ops", ())) + list(d.get("args", ()))
                for o in ops:
                    if isinstance(o, dict):
                        for n in self.functions_in(o):
                            self.taken.setdefault(n, []).append(i.loc)
                if i.op in ("store", "atomicrmw", "cmpxchg"):
                    p = d["ops"][1] if i.op == "store" else d["ops"][0]
                    write(self.roots_of(f, p, env), i)
                elif i.op == "load":
                    for r in self.roots_of(f, d["ops"][0], env):
                        if r[0] == "g":
                            self.reads.setdefault((f.name, r[1]), []).append(i.loc)
                elif i.op == "call":
                    c = d["callee"]
                    roots = [self.roots_of(f, a, env) if isinstance(a, dict) else set() for a in d["args"]]
                    if c.get("k") == "fn":
                        n = c["n"]
                        if n in self.mod.fns:
                            calls.setdefault(n, []).append(i.loc)
                            for k, r in enumerate(roots):
                                if r and k not in [x[0] for x in d.get("byval", ())]:
                                    passed.append((n, k, r, i.loc))
                        else:
                            m = n.split(".")[1] if n.startswith("llvm.") else n
                            if m in ("dbg", "lifetime", "stacksave", "stackrestore"):
                                continue
                            for k, r in enumerate(roots):
                                if r and (m in WRITES_FIRST and k == 0 or m not in WRITES_FIRST and m not in READONLY):
                                    write(r, i, n)
                    else:
                        ind.append((self.shape(d["ft"], [x[0] for x in d.get("byval", ())]), i.loc))
                        for k, r in enumerate(roots):
                            if r and k not in [x[0] for x in d.get("byval", ())]:
                                write(r, i, "a callback")

    @staticmethod
    def shape(ft, byval):
        return (ft["ret"].replace(" ", ""), tuple("byval" if k in byval else t for k, t in enumerate(ft["params"])))

    def solve(self):
        ch = True
        while ch:
            ch = False
            for f, l in self.passed.items():
                for g, k, roots, loc in l:
                    if ("a", k) in self.written.get(g, ()):
                        for r in roots:
                            if r not in self.written[f]:
                                self.written[f].add(r); ch = True
                            if r[0] == "g":
                                s = self.sites.setdefault((f, r[1]), [])
                                if loc + (g,) not in s:
                                    s.append(loc + (g,)); ch = True

    def function_shape(self, f):
        g = self.mod.fns[f]
        return (g.ret.replace(" ", ""), tuple("byval" if "byval" in p else p["t"] for p in g.params))

    def callees(self, f):
        """functions called by f; indirect calls reach every function of that type, since users may pass any of them"""
        r = set(self.calls.get(f, ()))
        for sh, loc in self.indirect.get(f, ()):
            r |= self.byshape.get(sh, set())
        return r

    def reach(self, roots):
        """-> {function: a caller on the way}"""
        out = {r: None for r in roots}; work = list(roots)
        while work:
            f = work.pop()
            for g in sorted(self.callees(f)):
                if g not in out:
                    out[g] = f; work.append(g)
        return out


# which functions change which global state, by what they are for
OWNERS = [
    (r"sp_initialize|sp_deinitialize", {"sp_sine_table", "sp_sine_table_lfo", "sp_cpu_count", "sp_rate", "sp_channel_count", "sp_sine_lfo_factor", "sp_random_state", "*sp_sine_table", "*sp_sine_table_lfo"}),
    (r"sp_plot_(samples|times|spectrum)", {"sp_plot_temp_file_index"}),
    (r"sph_future_(init|deinit|new)", {"sph_futures_pool", "sph_futures_pool_is_initialized"}),
    (r"sp_.*random.*|sp_.*shuffle.*|sp_time_deharmonize|sp_noise_event_prepare", {"sp_random_state"}),
]
# whole-program functions that may lead to all of them
SHARED = ("sph_futures_pool", "sph_futures_pool_is_initialized")
WORKER = "sph_thread_pool_worker"
TASKS = re.compile(r".*_future_f$")


def globals_rule(mod):
    """-> (reports [(key, text)], coverage)"""
    m = ModRef(mod)
    reports = []
    n = 0
    for (f, g), locs in sorted(m.sites.items()):
        n += 1
        # a helper that only functions allowed to change it call may change it too
        if allowed(m, f, g, set()):
            continue
        file, line, via = locs[0]
        reports.append(("writes:%s:%s" % (f, g), "%s:%d in %s: global state %s is changed%s, but the result of this function has to depend on its arguments only" % (file, line, f, g, " through %s" % via if via else "")))
    # parallel workers
    roots = [f for f in mod.fns if TASKS.match(f) and f in m.taken]
    way = m.reach(roots)
    k = 0
    for f in sorted(way):
        for (h, g), locs in sorted(m.sites.items()):
            if h != f or g in SHARED:
                continue
            k += 1
            path = [f]
            while way[path[-1]] is not None:
                path.append(way[path[-1]])
            file, line, via = locs[0]
            reports.append(("race:%s:%s" % (f, g), "%s:%d in %s: global state %s is changed by a task that runs in parallel with others: %s" % (file, line, f, g, " <- ".join(path))))
    cov = {"functions": len(mod.fns), "global_objects": sorted(g for g in mod.globals if is_global(mod, g)), "write_sites": sum(len(v) for v in m.sites.values()), "writers": n, "reachable_from_tasks": len(way), "tasks": roots, "address_taken_functions": len(m.taken), "indirect_call_sites": sum(len(v) for v in m.indirect.values())}
    return reports, cov


def allowed(m, f, g, seen):
    if any(re.fullmatch(p, f) and g in s for p, s in OWNERS):
        return True
    if f in seen:
        return False
    seen.add(f)
    callers = [h for h, c in m.calls.items() if f in c]
    return f not in m.taken and bool(callers) and all(allowed(m, h, g, seen) for h in callers)


# ------------------------------------------------------------------ statuses
class StatusChecker(memsafe.Checker):
    def on_entry_return(self, f, st, rv, inst):
        memsafe.Checker.on_entry_return(self, f, st, rv, inst)
        if self.is_status_type(f.ret) and rv is not None and rv[0] == "agg":
            a, b = rv[1][0], rv[1][1]
            a = self.norm(st, a) if a[0] in ("s", "o") else a
            i = a[1] if a[0] == "i" else None
            g = None
            if b[0] == "p" and un(b[1])[0] == "G":
                g = un(b[1])[1]
            self.sites.setdefault("status", set()).add((f.name, inst.loc if inst is not None else None, i, g))


def cstring(mod, name, off=0):
    g = mod.globals.get(name)
    if g is None or not g["const"]:
        return None
    s = {}
    for o, n, v in g.get("init", ()):
        if v["k"] == "i":
            s[o] = int(v["v"]) & 255
    r = b""
    while off in s and s[off]:
        r += bytes([s[off]]); off += 1
    return r.decode("utf8", "replace")


def macros(repo):
    """macros that name status ids and groups, and enumerators, from the preprocessor"""
    import os, tempfile, shutil
    d = tempfile.mkdtemp(prefix="sa-")
    try:
        out = ir.run(["clang-18"] + ir.CFLAGS + ir.include_flags(repo, d) + ["-E", "-dM", os.path.join(repo, ir.MAIN)]).decode("utf8", "replace")
        text = ir.run(["clang-18"] + ir.CFLAGS + ir.include_flags(repo, d) + ["-E", os.path.join(repo, ir.MAIN)]).decode("utf8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ids = {}; groups = {}
    for l in out.splitlines():
        x = re.match(r"#define (sp_s_id_\w+) (\d+)$", l)
        if x:
            ids[x.group(1)] = int(x.group(2))
        x = re.match(r'#define (sp_s_group_\w+) "(\w*)"$', l)
        if x:
            groups[x.group(1)] = x.group(2)
    for x in re.finditer(r"enum\s*\w*\s*\{([^}]*)\}", text):
        n = -1
        for e in x.group(1).split(","):
            e = e.strip()
            if not e:
                continue
            k, _, v = e.partition("=")
            try:
                n = int(v.strip(), 0) if v.strip() else n + 1
            except ValueError:
                break
            if "_s_id_" in k or "_status_id_" in k:
                ids[k.strip()] = n
    return ids, groups, text


def prototypes(text, repo):
    """names of functions declared in the repository's headers"""
    out = {}
    file = ""; depth = 0; chunk = ""
    for line in text.splitlines():
        if line.startswith("#"):
            x = re.match(r'# \d+ "([^"]*)"', line)
            if x:
                file = x.group(1)
            continue
        for c in line:
            if c == "{":
                depth += 1
                if depth == 1:
                    chunk += "{"
            elif c == "}":
                depth -= 1
                if depth == 0 and not re.match(r"\s*(typedef|struct|union|enum)\b", chunk):
                    chunk = ""
            elif depth == 0:
                chunk += c
                if c == ";":
                    x = re.match(r"\s*(?!typedef|return|enum|struct\s*\w*\s*\{)[\w\s\*]+?(\w+)\s*\(", chunk)
                    if x and x.group(1) not in ("void", "uint8_t", "status_t") and "(*" not in chunk and "{" not in chunk and "=" not in chunk and file.endswith(".h") and not file.startswith("/usr/"):
                        out.setdefault(x.group(1), file)
                    chunk = ""
        chunk += " "
    return out


def status_rule(mod, repo):
    """-> (reports, coverage): statuses that are returned are in the vocabulary of their group"""
    ids, groups, text = macros(repo)
    voc = {}
    for k, v in ids.items():
        voc.setdefault("sph" if "helper" in k else "sp", {})[v] = k
    reports = []
    names = [n for n, f in mod.fns.items() if f.ret.replace(" ", "") == "{i32,ptr}"]
    seen = 0; constant = 0
    for x in memsafe.run(mod, names=names, cls=StatusChecker):
        for q in x["sites"].get("status", ()):
            f, loc, i, g = eval(q)
            g = cstring(mod, g) if g else None
            seen += 1
            if i is None or g not in voc or i == 0:
                if i and g == "":
                    reports.append(("group:%s:%d" % (f, i), "%s:%d in %s: status %d is returned without the group it belongs to" % (loc[0], loc[1], f, i)))
                continue
            constant += 1
            if i not in voc[g]:
                reports.append(("id:%s:%s:%d" % (f, g, i), "%s:%d in %s: status %d is returned, which is not a status of group %s" % (loc[0], loc[1], f, i, g)))
    for g, v in voc.items():
        same = [k for k in ids if ("helper" in k) == (g == "sph")]
        if len({ids[k] for k in same}) != len(same):
            reports.append(("distinct:" + g, "two statuses of group %s have the same number: %s" % (g, sorted((ids[k], k) for k in same))))
        for n, k in v.items():
            if n == 0:
                reports.append(("zero:" + k, "%s has the number that means success" % k))
    p = prototypes(text, repo)
    missing = sorted(n for n in p if n not in mod.fns)
    for n in missing:
        reports.append(("declared:" + n, "%s: %s is declared but there is no such function" % (p[n], n)))
    cov = {"functions_returning_a_status": len(names), "returned_statuses": seen, "constant_failures": constant, "status_ids": len(ids), "groups": sorted(groups.values()), "declared_functions": len(p)}
    return reports, cov, ids
