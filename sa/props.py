"""The decision procedures of the properties."""
import cfg, ir


class Result:
    def __init__(self):
        self.violations = []; self.coverage = {}; self.assumptions = []; self.summary = ""

    def violation(self, key, text, **kw):
        if all(v["key"] != key for v in self.violations):
            self.violations.append(dict(key=key, text=text, **kw))


class AnalysisBroken(Exception):
    pass


class Context:
    def __init__(self, scratch, tier, seed):
        self.scratch = scratch; self.tier = tier; self.seed = seed; self._mod = None; self._pmod = None

    @property
    def mod(self):
        if self._mod is None:
            self._mod = cfg.Module(ir.load_ir(self.scratch))
        return self._mod

    @property
    def protocols(self):
        """the library with the call sequences of protocols.c"""
        if self._pmod is None:
            j, names, out = ir.load_protocols(self.scratch)
            self._pmod = (cfg.Module(j), names, out)
        return self._pmod

    def need(self, *names):
        miss = [n for n in names if n not in self.mod.fns]
        if miss:
            raise AnalysisBroken("functions not found in the compiled library: " + ", ".join(miss))


CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# ------------------------------------------------------------------ whole-library path analysis (C01, C02, C03)
MEM_ASSUMPTIONS = [
    "callers pass valid objects: event lists are well linked, channel counts are between one and the compiled-in limit, documented minimum sizes hold",
    "loops are covered by a havocked iteration after one distinguished iteration (loops with at most three constant iterations are followed exactly); induction variables do not wrap",
    "event callbacks and impulse-response callbacks may do anything to the objects they are handed and may fail or succeed",
]


def mem_result(ctx, kinds, rule):
    import memsafe
    r = Result()
    mod = ctx.mod
    if len(mod.fns) < 150:
        raise AnalysisBroken("only %d functions in the library" % len(mod.fns))
    res = memsafe.run(mod)
    if kinds & memsafe.Twice.KINDS:
        for x in memsafe.run(mod, names=[n for n, f in mod.fns.items() if f.loops and n not in memsafe.Twice.EXCEPT], cls=memsafe.Twice):
            x["viol"] = [v for v in x["viol"] if v["kind"] in memsafe.Twice.KINDS]
            res.append(x)
    pmod, seqs, out = ctx.protocols
    for x in memsafe.run(pmod, names=[n for n in seqs if n in pmod.fns], cls=memsafe.Protocol):
        for v in x["viol"]:
            if v["file"] == "protocols.c":
                # the sequence has no line in the library: name the function whose memory it is
                v["fn"] = x["entry"]
        x["sites"] = {}
        res.append(x)
    sites = {}
    stats = {}
    unfinished = []
    for x in res:
        if x["budget"]:
            unfinished.append("%s: %s" % (x["entry"], x["budget"]))
        for k, v in x["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in x["sites"].items():
            sites.setdefault(k, set()).update(v)
        for v in x["viol"]:
            if v["kind"] in kinds:
                key = "%s:%s:%s" % (v["kind"], v["fn"], v["entry"])
                r.violation("%s:%s:%d" % (v["kind"], v["fn"], v["line"]), "%s:%d in %s: %s [%s, analysed from %s]" % (v["file"], v["line"], v["fn"], v["msg"], v["kind"], v["entry"]), trace=v["trace"])
    if len(unfinished) > 20:
        raise AnalysisBroken("analysis incomplete: " + "; ".join(unfinished[:5]))
    r.coverage = {"explanation": rule + " The rule was applied on every abstract path from every library function taken as an entry point.", "call_sequences": len(seqs), "call_sequences_left_out": out, "entry_functions": len({x["entry"] for x in res if not x["entry"].startswith("vp_")}), "functions_analysed": len(set().union(*[set(x["covered"]) for x in res])), "abstract_instructions": stats["insts"], "branches_followed_both_ways_or_decided": stats["branches"], "injected_failure_branches": stats["fail_branches"], "allocation_sites": len(sites["alloc"]), "release_sites": len(sites["free"]), "callback_sites": len(sites["callback"]), "return_sites": len(sites["ret"]), "access_sites": len(sites["mem"]), "failure_sites": len(sites["fail"]), "not_completed": unfinished}
    r.assumptions = MEM_ASSUMPTIONS
    for k, lo in (("alloc", 4), ("free", 10), ("callback", 3), ("fail", 10)):
        if len(sites[k]) < lo:
            raise AnalysisBroken("only %d %s sites found" % (len(sites[k]), k))
    r.summary = "%d entry functions, %d abstract instructions, %d release sites" % (len({x["entry"] for x in res}), stats["insts"], len(sites["free"]))
    return r


def with_summaries(m, r):
    """adds what was decided on summaries to the result of the path analysis"""
    r.violations = m.violations + r.violations
    m.coverage["summaries"] = r.coverage
    r.coverage = m.coverage; r.assumptions = m.assumptions + r.assumptions
    r.summary = m.summary + "; " + r.summary
    return r


def failing_jobs():
    """references for what a failed call returns and leaves"""
    import specs_lib, specs_seq
    return [x for x in specs_lib.EXTRA + specs_seq.EXTRA if x[2].get("failing")] + seq_jobs("sp_seq_parallel", "sp_seq_parallel_future_f")


RELEASING = ("sp_block_free", "sp_(times|samples)_array_free", "sp_path_times")


@check("C01")
def c01(ctx):
    m = mem_result(ctx, {"swallow", "undef-ret"}, "Rule: after any allocation, file operation, thread creation or callback outcome that is a failure, a function that returns a status returns a non-zero status id; and every path of every non-void function returns a value.")
    return with_summaries(m, vf_result(ctx, failing_jobs(), ("return",), "Rule: where one of several calls fails, the returned status is the one of the first failure.", samples=48))


@check("C02")
def c02(ctx):
    m = mem_result(ctx, {"leak"}, "Rule: at every return, each allocation and each opened file made on the path is released, stored where the caller can reach it, or handed to a callback.")
    return with_summaries(m, vf_result(ctx, misc_jobs(*RELEASING) + lib_jobs("sp_convolution_filter_state_free") + seq_jobs("sp_event_list_free", "sp_event_list_remove", "sp_group_free", "sp_map_event_free", "sp_noise_event_free", "sp_event_memory_free", "sp_seq"), ("released",), "Rule: functions that release an object release each part of it exactly once.", samples=48))


@check("C03")
def c03(ctx):
    m = mem_result(ctx, {"null-deref", "uninit-deref", "uninit-branch", "uninit-use", "use-after-free", "double-free", "bad-free", "free-uninit", "oob", "dangling"}, "Rule: no access or release through a null, uninitialised, released or foreign pointer, no decision on an uninitialised value, no access outside an object of known size, and after a failure nothing of the caller refers to memory that the call released.")
    return with_summaries(m, vf_result(ctx, all_jobs(), ("bounds",), "Rule: in the value-flow summary of every specified function, every access to memory that was passed or allocated is inside of it at the sampled sizes.", floor=0.2, samples=16))


def inplace_jobs():
    import spec, specs_arrays
    return [(n, specs_arrays.SPECS[n], {"engine": spec.inplace(a, b), "scale": 0.5}) for n, a, b in specs_arrays.INPLACE]


def all_jobs():
    import specs_arrays, specs_main, specs_seq
    return inplace_jobs() + jobs_of(*specs_arrays.SPECS, *specs_main.SPECS) + lib_jobs(".*") + misc_jobs(".*") + seq_jobs(*specs_seq.SPECS) + sorting_jobs()


# ------------------------------------------------------------------ value-flow summaries against reference semantics
VF_ASSUMPTIONS = [
    "callers pass distinct areas of the sizes the specification names, unless it says that areas may be the same",
    "summaries are compared at sampled sizes (zero to four elements and the sizes the code itself compares with) and sampled contents: two different values agree at all samples only by accident",
    "outcomes after a failed allocation, file operation or callback are left to the other properties",
    "equality of floating point results is up to rounding",
]


def vf_result(ctx, jobs, kinds, rule, floor=0.3, samples=24):
    """jobs: [(function, specification, options)]"""
    import valueflow
    r = Result()
    mod = ctx.mod
    have = [j for j in jobs if j[0] in mod.fns]
    missing = sorted({j[0] for j in jobs} - set(mod.fns))
    if len(have) < 0.7 * len(jobs):
        raise AnalysisBroken("functions not found in the compiled library: " + ", ".join(missing))
    res = valueflow.run(mod, have, samples=samples * (16 if ctx.tier == "thorough" else 4), seed=ctx.seed, limit=600 if ctx.tier == "thorough" else 240)
    tot = {k: sum(x[k] for x in res) for k in ("obligations", "decided", "undecided", "samples", "accesses", "obs")}
    bad = 0
    for x in res:
        for key, where, fn, text in x["bad"]:
            bad += 1
            if key.split(":")[0] in kinds:
                r.violation("%s:%s" % (x["fn"], key), "%s in %s: %s [%s, summary of %s]" % (where, fn, text, key, x["fn"]))
    broken = ["%s (%s)" % (x["fn"], x["err"]) for x in res if x["err"]]
    if not r.violations and tot["decided"] + bad < floor * max(1, tot["obligations"]):
        raise AnalysisBroken("only %d of %d obligations decided" % (tot["decided"], tot["obligations"]))
    if len(broken) > 0.4 * len(res):
        raise AnalysisBroken("no summary for " + ", ".join(broken))
    r.coverage = {"explanation": rule, "functions": len(res), "recorded_effects": tot["obs"], "instances": tot["samples"], "obligations": tot["obligations"], "decided": tot["decided"] + bad, "undecided": tot["undecided"], "accesses_checked": tot["accesses"], "not_found": missing, "no_summary": broken,
                  "per_function": [{"function": x["fn"], "effects": x["obs"], "instances": x["samples"], "obligations": x["obligations"], "decided": x["decided"], "undecided": x["undecided"]} for x in res]}
    r.assumptions = VF_ASSUMPTIONS
    r.summary = "%d functions, %d of %d obligations decided, %d accesses" % (len(res), tot["decided"], tot["obligations"], tot["accesses"])
    return r


def jobs_of(*names, **opts):
    import specs_arrays, specs_main
    al = dict(specs_arrays.SPECS); al.update(specs_main.SPECS)
    return [(n, al[n], dict(OPTIONS.get(n, {}), **opts)) for n in names]


OPTIONS = {"sp_windowed_sinc_lp_hp_ir": {"scale": 0.25, "weight": 50}, "sp_windowed_sinc_bp_br_ir": {"weight": 50}, "sp_convolve": {"weight": 20}}
WAVES = ("sp_wave", "sp_sine", "sp_sine_lfo", "sp_sine_period", "sp_triangle", "sp_square", "sp_phase", "sp_phase_float")
KERNELS = ("sp_convolve_one", "sp_convolve", "sp_moving_average", "sp_windowed_sinc_lp_hp_ir_length", "sp_windowed_sinc_lp_hp_ir", "sp_windowed_sinc_bp_br_ir", "sp_null_ir", "sp_passthrough_ir", "sp_spectral_inversion_ir", "sp_spectral_reversal_ir", "sp_sinc", "sp_window_blackman")
BLOCKS = ("sp_block_copy", "sp_block_zero", "sp_block_with_offset", "sp_block_new", "sp_interleave", "sp_deinterleave")
SCALARS = ("sp_sample_max", "sp_sample_min", "sp_time_max", "sp_time_min", "sp_pan_to_amp", "sp_modulo_match", "sp_set_sequence_max", "sp_permutations_max", "sp_compositions_max", "sp_time_expt", "sp_time_factorial", "sp_time_harmonize", "sp_time_round_to_multiple", "sp_sample_round_to_multiple", "sp_u64_from_array")
SELECTING = ".*(discrete|binary|shuffle|deharmonize|select_random|permutations|compositions|sequences).*"
VALUES = ("value", "return", "endless", "size")


@check("C04")
def c04(ctx):
    import specs_arrays
    return vf_result(ctx, jobs_of(*specs_arrays.SPECS) + inplace_jobs() + misc_jobs(SELECTING), VALUES, "Rule: for every array operation, the final contents of the output array, of newly allocated arrays and the returned value, taken from the function's value-flow summary, equal the reference semantics of the operation.", samples=40)


@check("C05")
def c05(ctx):
    import specs_arrays
    return vf_result(ctx, jobs_of(*(set(specs_arrays.SPECS) | set(WAVES + KERNELS + BLOCKS + ("sp_modulo_match",)))) + inplace_jobs() + misc_jobs(SELECTING, "sph_helper_primitive.*", "sp_memory_.*") + lib_jobs("sp_stat_.*", "sp_samples_scale_to_times", "sp_(path|envelope)_.*", "sp_convolution_filter.*", "sp_windowed_sinc_.*"), ("bounds", "readonly", "size"), "Rule: every load, store and block copy in the summary addresses an element inside of the array it belongs to, for the sizes the caller passed; input arrays are never written; allocations are large enough for what is written to them.")


@check("C06")
def c06(ctx):
    return vf_result(ctx, jobs_of(*WAVES) + seq_jobs("sp_wave_event_generate"), STATE, "Rule: the final contents of the output of every oscillator equal the initial contents plus the wave, the phase state that is written back is the phase after the last sample modulo the period, and waveform functions return the value of the wave at the phase.", samples=60)


@check("C07")
def c07(ctx):
    return vf_result(ctx, jobs_of(*KERNELS) + lib_jobs("sp_convolution_filter", "sp_windowed_sinc_.*"), VALUES, "Rule: the output and the carryover contain exactly the products of the convolution sum that belong to them in addition to the previous carryover; kernels and windows have the documented coefficients.")


@check("C08")
def c08(ctx):
    return vf_result(ctx, jobs_of(*BLOCKS), VALUES, "Rule: each sample of each channel ends up at the position the block layout assigns to it.", samples=60)


@check("C09")
def c09(ctx):
    return vf_result(ctx, jobs_of(*SCALARS) + misc_jobs("sph_f64_.*", "sp_time_deharmonize"), VALUES, "Rule: the returned term equals the reference term.", samples=100)


# ------------------------------------------------------------------ sequencer
def seq_jobs(*names):
    import specs_seq
    return [(n, specs_seq.SPECS[n], dict(specs_seq.OPTS.get(n, {}))) for n in names] + [x for x in specs_seq.EXTRA if x[0] in names]


LISTS = ("sp_event_list_reverse", "sp_event_list_remove", "sp_event_list_free", "sp_event_list_add", "sp_group_add", "sp_group_append")
SEQUENCING = ("sp_event_schedule", "sp_event_block_generate", "sp_seq", "sp_group_prepare", "sp_group_generate", "sp_group_free")
PARALLEL = ("sp_seq_parallel", "sp_seq_parallel_future_f", "sp_group_generate_parallel")
RENDERING = ("sp_wave_event_prepare", "sp_wave_event_generate", "sp_wave_event_config_defaults", "sp_wave_event_config_new_n", "sp_map_event_prepare", "sp_map_event_generate", "sp_map_event_isolated_generate", "sp_map_event_free", "sp_map_event_config_new_n", "sp_noise_event_prepare", "sp_noise_event_config_defaults", "sp_noise_event_config_new_n", "sp_noise_event_free", "sp_noise_event_generate", "sp_noise_event_generate_block")
MEMORY = ("sp_event_memory_free", "sp_event_memory_fixed_add_with_handler", "sp_event_memory_add_with_handler", "sp_event_memory_ensure")
STATE = ("value", "return", "endless", "size", "calls", "list", "released", "bounds", "readonly")


@check("C10")
def c10(ctx):
    return vf_result(ctx, seq_jobs(*(LISTS + ("sp_seq", "sp_group_free", "sp_event_block_generate", "sp_event_schedule"))), STATE, "Rule: after each operation the list, followed by the next fields from its head, holds exactly the expected events in order of descending start, every previous field points back, and exactly the removed events are released, after their free function ran.", samples=60)


@check("C11")
def c11(ctx):
    return vf_result(ctx, seq_jobs(*(SEQUENCING + LISTS)), STATE, "Rule: the recorded callback invocations (prepare, generate, free) are exactly the expected ones, with the expected positions, output offsets and events; the list and the event states afterwards are the expected ones.", samples=48)


@check("C12")
def c12(ctx):
    return vf_result(ctx, seq_jobs(*PARALLEL) + misc_jobs("sph_future.*"), STATE, "Rule: the parallel sequencer prepares and frees the same events as the sequential one, hands every due event exactly one work item with the range the sequential one would generate, and adds every work item's block once, at its offset, to the output.", samples=48)


@check("C13")
def c13(ctx):
    return vf_result(ctx, seq_jobs(*RENDERING), STATE, "Rule: the summary of each event function leaves exactly the reference rendering in the output, advances exactly the reference state, and passes exactly the reference arguments to user functions.", samples=48)


@check("C14")
def c14(ctx):
    return vf_result(ctx, seq_jobs(*MEMORY) + misc_jobs("sp_memory_(new|resize)"), STATE, "Rule: the register afterwards holds all previous entries and the added one with its handler, within its allocated size, and freeing an event's memory calls each handler exactly once with its address.", samples=60)


# ------------------------------------------------------------------ paths, files, statistics, filters, supporting library
def lib_jobs(*pats):
    import re, specs_lib
    names = [n for n in specs_lib.SPECS if any(re.fullmatch(p, n) for p in pats)]
    return [(n, specs_lib.SPECS[n], dict(specs_lib.OPTS.get(n, {}))) for n in names] + [x for x in specs_lib.EXTRA if x[0] in names]


@check("C15")
def c15(ctx):
    return vf_result(ctx, lib_jobs(r"sp_(path|envelope)_.*", "spline_path_.*") + misc_jobs("sp_path_times"), STATE, "Rule: paths and envelopes pass exactly the given points, in order and scaled as documented, to the segments they are made of; segments start where the previous one ended; drawing a range calls each segment exactly for its part of the range, at its place in the output, whatever was drawn before.", samples=60)


@check("C16")
def c16(ctx):
    return vf_result(ctx, lib_jobs("sp_file_.*"), STATE, "Rule: the bytes handed to the file are the header and the interleaved samples of the format, in order; the sizes in the header are those of the data written; reading accepts exactly the documented format and places each value in its channel.", samples=60)


@check("C17")
def c17(ctx):
    return vf_result(ctx, lib_jobs("sp_stat_.*", "sp_samples_scale_to_times") + sorting_jobs(), STATE, "Rule: the resulting term equals the defining formula of the statistic.", samples=48)


@check("C18")
def c18(ctx):
    return vf_result(ctx, lib_jobs("sp_convolution_filter.*", "sp_windowed_sinc_.*") + jobs_of("sp_convolve"), STATE, "Rule: a kernel is calculated again exactly when its function or arguments differ from the stored ones, replaces and releases the former one, and leaves the carried over values and their length consistent; parameters reach the kernel function unchanged.", samples=60)


def sorting_jobs():
    import specs_lib
    return [(fn, spec, dict(o, scale=0.6, weight=30)) for fn, spec, o in specs_lib.SORTING]


def misc_jobs(*pats):
    import re, specs_misc
    names = [n for n in specs_misc.SPECS if any(re.fullmatch(p, n) for p in pats)]
    return [(n, specs_misc.SPECS[n], dict(specs_misc.OPTS.get(n, {}))) for n in names]


@check("C19")
def c19(ctx):
    import glob, os, locks
    text = "".join(open(x, errors="replace").read() for x in glob.glob(os.path.join(ir.REPO, "source/c*/**/*.h"), recursive=True))
    a, ent = locks.run(ctx.mod, text)
    if len(a.obl) < 20:
        raise AnalysisBroken("only %d accesses to shared queue, pool and future objects found" % len(a.obl))
    r = vf_result(ctx, misc_jobs("sph_(queue|thread|future).*"), STATE, "Rules: (1) on every path of every function that touches a queue, pool or future, the accesses to fields that threads share happen while the mutex of the object is held, or before it is published to another thread or after the threads have been joined; condition variables are waited for in a loop that tests the state again, with the mutex held; every lock is released on every path; (2) the queue is first in, first out, and pool and future operations start, feed, stop and join exactly the threads and tasks they are for (value-flow summaries).", samples=60)
    for (kind, fn, k), text in a.reports.items():
        r.violation("%s:%s:%s" % (kind, fn, k), text)
    from collections import Counter
    r.coverage["lock_obligations"] = dict(Counter(k[0] for k in a.obl))
    r.coverage["lock_entry_functions"] = ent
    r.coverage["lock_undecided"] = [str(x) for x in a.undecided]
    r.assumptions = r.assumptions + ["pthread functions behave as POSIX specifies", "a pool is finished by one thread at a time"]
    r.summary += "; %d lock obligations in %d entry functions" % (len(a.obl), len(ent))
    return r


@check("C20")
def c20(ctx):
    import structure
    rep, cov = structure.globals_rule(ctx.mod)
    if cov["functions"] < 150 or not cov["tasks"] or cov["write_sites"] < 5:
        raise AnalysisBroken("global state or parallel tasks not found: %s" % cov)
    r = Result()
    for key, text in rep:
        r.violation(key, text)
    r.coverage = dict(cov, explanation="Rule: a mod/ref analysis over the call graph (address-taken functions of matching type for indirect calls) finds every function that changes an object with static storage; each has to be one that is documented to, or a helper only called by such; nothing reachable from a task of the parallel sequencer changes one.")
    r.assumptions = ["user callbacks do not change the library's global objects"]
    r.summary = "%d functions, %d write sites of global objects, %d functions reachable from tasks" % (cov["functions"], cov["write_sites"], cov["reachable_from_tasks"])
    return r


@check("C21")
def c21(ctx):
    import structure, specs_misc
    rep, cov, ids = structure.status_rule(ctx.mod, ir.REPO)
    if cov["returned_statuses"] < 50 or cov["status_ids"] < 8:
        raise AnalysisBroken("statuses not found: %s" % cov)
    r = vf_result(ctx, specs_misc.status_jobs(ids), VALUES, "Rules: every constant failure status that reaches a return is one of the identifiers the headers define for the group it is returned with; identifiers within a group are distinct and not zero; name and description of each are those of that status; every function declared in a header is defined.", samples=200)
    for key, text in rep:
        r.violation(key, text)
    r.coverage.update(cov)
    r.summary += "; %d returned statuses, %d declared functions" % (cov["returned_statuses"], cov["declared_functions"])
    return r


@check("C22")
def c22(ctx):
    return vf_result(ctx, misc_jobs("sp_render_.*", "sp_(de)?initialize"), STATE, "Rule: the recorded calls to the sequencer and to file functions cover the requested range in consecutive blocks, each rendered into zeroed memory and written in order; initialisation sets each global object to what the reference gives.", samples=60)


@check("C23")
def c23(ctx):
    import specs_main
    return vf_result(ctx, jobs_of(*[n for n in specs_main.SPECS if "random" in n]) + misc_jobs("sp_random_state_new", "sp_normal_random", ".*random_(discrete|binary).*"), STATE, "Rule: outputs and the state written back equal those of the reference generators (xoshiro256 plus and star star, splitmix64 seeding), and bounded and scaled variants the reference mapping of the raw output.", samples=60)


@check("C24")
def c24(ctx):
    return vf_result(ctx, misc_jobs("sp_ffti?", "Fft_.*"), STATE, "Rule: for each transform size the output terms equal the sums that define the discrete Fourier transform.", samples=12)


@check("C25")
def c25(ctx):
    return vf_result(ctx, misc_jobs(SELECTING) + jobs_of("sp_set_sequence_max", "sp_permutations_max", "sp_compositions_max"), STATE, "Rule: for every outcome of the generator, the resulting arrays are those of the reference algorithm: the same multiset for shuffles, one of the given elements for selections, all and only the combinations for enumerations.", samples=40)


@check("C26")
def c26(ctx):
    import progress
    p = progress.Progress(ctx.mod).run()
    if p.loops < 60 or p.paths < p.loops:
        raise AnalysisBroken("only %d loops found" % p.loops)
    jobs = all_jobs()
    calls = {}
    for n, f in ctx.mod.fns.items():
        calls[n] = {i.d["callee"]["n"] for b in f.blocks for i in b if i.op == "call" and i.d["callee"].get("k") == "fn"}

    def loops(n, seen):
        if n in seen or n not in ctx.mod.fns:
            return False
        seen.add(n)
        return bool(ctx.mod.fns[n].loops) or any(loops(c, seen) for c in calls[n])
    jobs = [j for j in jobs if j[0] not in ctx.mod.fns or loops(j[0], set())]
    r = vf_result(ctx, jobs, ("endless",), "Rules: (1) on every acyclic path around every loop, at least one loop variable, memory location or call result that the branches of the path depend on changes; (2) for sampled inputs of a few elements, some return of the function is not excluded within 70 iterations of its loops.", floor=0.2, samples=10)
    for key, text in p.reports:
        r.violation(key, text)
    r.coverage.update({"loops": p.loops, "paths_around_loops": p.paths, "loops_with_more_paths_than_followed": p.truncated})
    r.summary += "; %d loops, %d paths around them" % (p.loops, p.paths)
    return r
