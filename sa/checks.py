"""Property -> check table."""
import re, os, time
import multiprocessing as mp
from . import ir, drive, models, clients, contracts, spec, p_mem, p_lock
from .ir import AnalysisBroken

MIN_FUNCS = 240       # entry points confirmed by hand on the reference tree (278 exported + 24 callbacks)
LIMIT = 300


def weight(f):
    n = sum(len(b.ins) for b in f.blocks.values())
    return HEAVY.get(f.name, 0) + n


# analysed first, so that the slow ones do not finish alone (scheduling only)
HEAVY = {"thread_worker_handle_msg": 10 ** 6, "ini_reader_parse_stream": 10 ** 6, "__xlog_internal_print": 10 ** 6,
         "file_logger_log": 10 ** 5, "time_util_get_time_str_current": 10 ** 4, "mplite_init": 10 ** 4}


def run_engine(ctx, mk, variant="main", only=None, mdl=None, opts=None, pre=None, post=None, fs=None):
    """abstract interpretation of every entry point; returns unit results"""
    p = ctx.prog(variant)
    if fs is None: fs = [f for f in drive.entries(p) if only is None or only(f)]
    fs = sorted(fs, key=lambda f: -weight(f))
    M = models.standard(**(mdl or {}))

    global _job

    def _job(i): return drive.run_unit(p, fs[i], mk, M, opts=opts, pre=pre, post=post, limit=LIMIT)
    with mp.get_context("fork").Pool(min(8, max(1, len(fs))), maxtasksperchild=1) as pool:
        res = pool.map(_call, range(len(fs)), chunksize=1)
    c = ctx.cov
    c["units"] = c.get("units", 0) + len(p.modules)
    c["entry_functions"] = c.get("entry_functions", 0) + len(res)
    fns = set()
    for r in res:
        fns |= set(r["stats"]["functions"])
        for k in ("branches", "calls", "loops", "loop_iters"):
            c[k] = c.get(k, 0) + r["stats"].get(k, 0)
        for k, v in r["sites"].items(): c["sites " + k] = c.get("sites " + k, 0) + v
        c["exit_states"] = c.get("exit_states", 0) + r["rets"]
    c["functions_interpreted"] = c.get("functions_interpreted", 0) + len(fns)
    bad = [r for r in res if r["error"]]
    for r in bad: ctx.notes.append("%s:%s not decided (%s)" % (r["file"], r["fn"], r["error"].strip().split("\n")[-1][:200]))
    c["not_decided"] = c.get("not_decided", 0) + len(bad)
    if len(bad) > max(3, len(res) // 10):
        ctx.broken = ctx.broken or "%d of %d entry functions could not be analysed; first: %s %s" % (len(bad), len(res), bad[0]["fn"], bad[0]["error"][-400:])     # what is found nevertheless stands
    return res


def _call(i): return _job(i)


def place(x):
    m = re.match(r"(.*?)(?::(\d+))? \(in ([^)]*)\)", x["where"] or "")
    if not m: return x["where"], "", 0
    return m.group(1), m.group(3), int(m.group(2) or 0)


def file_reports(ctx, res, rules, variant="main", skip=None, dedupe=True):
    seen = set()
    for r in res:
        for x in r["reports"]:
            if x["rule"] not in rules: continue
            if skip and skip(r, x): continue
            file, func, line = place(x)
            key = "%s" % (x["key"] if x["key"] is not None else "",)
            k = (x["rule"], file, func, line, key)
            if k in seen: continue
            seen.add(k)
            ctx.add(x["rule"], file, func, line, x["msg"], key, x["path"], "%s, called through %s" % (r["fn"], x["callstack"]), variant)


def rule_property(rules, mk, variants=("main",), only=None, skip=None, thorough=("memcheck",)):
    def run(ctx):
        vs = list(variants)
        if ctx.tier == "thorough": vs += [v for v in thorough if v not in vs]
        for v in vs:
            res = run_engine(ctx, mk, v, only)
            if only is None: ctx.need(len(res) >= MIN_FUNCS, "only %d entry functions found in variant %s" % (len(res), v))
            file_reports(ctx, res, rules, v, skip)
        ctx.cov["variants"] = vs
        ctx.cov["rules"] = list(rules)
    return run


# ------------------------------------------------------------------ life cycle of resources
def mem_null(): return [clients.MemClient(bounds=False, null=True, uaf=False, fam=False)]
def mem_uaf(): return [clients.MemClient(bounds=False, null=False, uaf=True, fam=False), clients.DangleClient()]
def mem_fam(): return [clients.MemClient(bounds=False, null=False, uaf=False, fam=True)]
def leak(): return [clients.LeakClient()]
def uninit(): return [clients.UninitClient()]
def lock(): return [clients.LockClient()]


# ---- P03: one allocator family per translation unit, and the right one for memory handed to the caller
LIBC_FAM = {"malloc", "calloc", "realloc", "free", "strdup", "strndup", "asprintf", "vasprintf", "getline", "aligned_alloc", "posix_memalign", "reallocarray"}
LCU_FAM = {"lcu_malloc", "lcu_malloc_trace", "lcu_calloc", "lcu_calloc_trace", "lcu_realloc", "lcu_realloc_trace", "lcu_free",
           "lcu_strdup", "lcu_strdup_trace", "lcu_strndup", "lcu_strndup_trace"}
# the tracking allocator itself is built on the C library's; its entry records are the C library's own
FAMILY_EXEMPT = {"src/mem/allocator.c", "src/mem/allocation_tracker.c"}


def allocator_calls(f):
    """calls through the members of an allocator_t (its only instances wrap the tracking allocator)"""
    geps, loads = set(), set()
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == "gep" and str(i.ty) == "%struct.allocator_t": geps.add(i.res)
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == "load" and i.ops[0][0] == "l" and i.ops[0][1] in geps: loads.add(i.res)
    return [i for b in f.blocks.values() for i in b.ins
            if i.op == "call" and i.extra and i.extra[0] and i.extra[0][0] == "l" and i.extra[0][1] in loads]


def family_uses(p):
    """module -> {family: [(function, instruction, name)]}: calls and address uses"""
    out = {}
    for m in p.modules:
        d = out.setdefault(m.path, {"libc": [], "lcu": []})
        for f in m.funcs.values():
            for i in allocator_calls(f): d["lcu"].append((f, i, "an allocator_t callback"))
            for b in f.blocks.values():
                for i in b.ins:
                    ns = set()
                    drive._gnames(i.ops, ns); drive._gnames(i.extra, ns)
                    for n in ns:
                        if m.funcs.get(n) is not None: continue
                        if n in LIBC_FAM: d["libc"].append((f, i, n))
                        elif n in LCU_FAM: d["lcu"].append((f, i, n))
        for g in m.globals.values():
            ns = set(); drive._gnames(g.init, ns)
            for n in ns:
                if n in LIBC_FAM and m.funcs.get(n) is None: d["libc"].append((None, g, n))
                elif n in LCU_FAM: d["lcu"].append((None, g, n))
    return out


def family_check(ctx):

    def post(eng, st, f, args, r):
        if r is None or r[0] != "p": return
        q = st.canon(r)
        o = st.objs.get(q[1]) or {}
        if q[1][0] != "h" or o.get("kind") != "heap" or o.get("state") != "live" or not o.get("fam"): return
        if f.internal or f.module.path in FAMILY_EXEMPT: return
        t = ir.ret_di(f)
        if t not in ("char*", "void*", "unsigned char*"): return
        last = [i for b in f.blocks.values() for i in b.ins if i.op == "ret"][-1]
        eng.report("family", st, last, "returned-family:" + o["fam"], "%s hands the caller a block from the %s allocator (%s)" % (f.name, o["fam"], o.get("site")), key=o.get("site"))
    handed = {}
    for v in ("main", "memcheck"):
        res = run_engine(ctx, mem_fam, v, post=post)
        ctx.need(len(res) >= MIN_FUNCS, "only %d entry functions found in variant %s" % (len(res), v))
        file_reports(ctx, res, {"mismatched-release"}, v)
        for r in res:
            for x in r["reports"]:
                if x["rule"].startswith("returned-family:"):
                    handed.setdefault(v, set()).add(r["fn"])
                    want = "lcu" if v == "memcheck" else "libc"
                    if x["rule"].split(":")[1] != want:
                        file, func, line = place(x)
                        ctx.add("returned-family", file, r["fn"], line, x["msg"] + "; users of the %s build release it with the %s allocator" % (v, want), x["key"], x["path"], None, v)
        n = 0
        for path, d in family_uses(ctx.prog(v)).items():
            n += len(d["libc"]) + len(d["lcu"])
            if path in FAMILY_EXEMPT or not d["libc"] or not d["lcu"]: continue
            minor = "libc" if len(d["libc"]) <= len(d["lcu"]) else "lcu"
            for f, i, name in d[minor]:
                w = ir.loc_str(i) if f is not None else "%s (in %s)" % (path, i.name)
                file, func, line = place({"where": w})
                ctx.add("mixed-family", file, func, line, "uses %s although the other blocks of this file come from the %s allocator" % (name, "lcu" if minor == "libc" else "libc"), name, (), None, v)
        ctx.cov["family sites " + v] = n
        ctx.need(n >= 60, "only %d allocator uses found in variant %s" % (n, v))
    ctx.need("strreplace" in handed.get("memcheck", ()) or "strreplace" in handed.get("main", ()), "no function handing memory to the caller was recognised")
    ctx.cov["functions handing memory to the caller"] = sorted(handed.get("main", set()) | handed.get("memcheck", set()))


# the functions that *are* the lock primitives: they return with the lock taken / released by design
LOCK_PRIMITIVES = {"portable_mutex_lock", "portable_mutex_unlock", "portable_rwlock_rdlock", "portable_rwlock_wrlock", "portable_rwlock_unlock"}


def skip_primitive(r, x):
    return r["fn"] in LOCK_PRIMITIVES and x["rule"] in ("lock-held-at-return", "unlock-not-held")


# ------------------------------------------------------------------ behavioural specifications
def spec_check(rule, *parts, minimum=1):
    """parts: (module, function building the Specs, extra clients, options)"""
    def run(ctx):
        import importlib
        from . import p_ring
        vs = ["main"] + (["memcheck"] if ctx.tier == "thorough" else [])
        n = 0
        for v in vs:
            for mod, fn in parts:
                m = importlib.import_module("sa." + mod)
                S_ = getattr(m, fn)()
                S_.rule = rule
                cl = getattr(m, "CLIENTS", [])
                for c in cl:
                    if hasattr(c, "rule"): c.rule = rule
                res = spec.run_specs(ctx, S_, v, clients=([] if getattr(m, "ABORTS", False) else [p_ring.abort_client(rule)]) + list(cl), opts=getattr(m, "OPTS", None))
                n += len(res)
        ctx.cov["specified operations"] = n
        ctx.need(n >= minimum, "only %d operations specified" % n)
    return run


SPEC_TXT = ("Path- and context-sensitive abstract interpretation of the LLVM IR of each specified exported function together with everything it calls, started "
            "from every abstract state satisfying the object's invariant (the invariant is shown to be preserved); integers exact up to linear arithmetic, "
            "32/64-bit wrap-around split into cases, power-of-two masks and quotients by symbolic divisors related to their operands. ")

ENGINE_TXT = ("Path- and context-sensitive abstract interpretation of the LLVM IR (clang -O0 + SROA) of every translation unit of src/, from every "
              "exported function, callback and thread body with unconstrained arguments; linear-integer domain, symbolic heap, widening at loops; "
              "allocation and library failures forked at every call. ")
ENGINE_ASM = ["objects reached through different pointer parameters do not alias unless the code derives one from the other",
              "library calls behave as their C/POSIX specification (models in sa/models.py)",
              "user callbacks do not release objects they were only lent"]

SPEC_ASM = ["the object passed in satisfies its invariant (established by create, preserved by every specified operation)",
            "the caller's buffers do not overlap the object", "arguments that the operation does not test for NULL are not NULL"]

CHECKS = {
    "P01": dict(run=rule_property({"leak"}, leak), assume=ENGINE_ASM,
                explain=ENGINE_TXT + "Rule: at every return (and loop back edge) each heap block, FILE or DIR acquired on the path has been released, is returned, or is reachable from memory the caller can see."),
    "P02": dict(run=rule_property({"use-after-release", "double-release", "bad-release", "dangling-pointer", "returns-released", "returns-local", "escaping-local"}, mem_uaf), assume=ENGINE_ASM,
                explain=ENGINE_TXT + "Rule: no access to, release of, or pointer left to an object after its release; only whole heap objects are released; no address of a local outlives its function."),
    "P03": dict(run=family_check, assume=ENGINE_ASM,
                explain=ENGINE_TXT + "Rule: every block is released through the allocator family (C library or the tracking allocator) it was obtained from; a file uses one family only; raw memory handed to the caller comes from the family the caller's free() belongs to. Decided in the plain and in the memory-check build."),
    "P04": dict(run=p_mem.check, assume=ENGINE_ASM + ["texts and buffers handed in are shorter than 2^40 bytes, texts are terminated, and buffers are as large as the documentation asks for (sa/p_mem.py lists them)",
                                                      "levels handed to the logger are levels; the content of an mplite pool is not modelled"],
                explain=ENGINE_TXT + "Operations with a behavioural specification are entered from every state of it, all other entry points with arbitrary arguments. Rule: every byte read or written, directly or by a library function, lies inside the object the pointer leads into (stack array, struct, global, heap block, text with its terminator, caller's buffer); string constants are not written."),
    "P05": dict(run=rule_property({"null-dereference"}, mem_null), assume=ENGINE_ASM,
                explain=ENGINE_TXT + "Rule: a pointer that is NULL on the current path (failed allocation, failed open, failed lookup, a parameter the function itself tested for NULL) is never dereferenced."),
    "P06": dict(run=rule_property({"double-lock", "unlock-not-held", "wait-without-lock", "destroy-held", "lock-held-at-return"}, lock, skip=skip_primitive), assume=ENGINE_ASM,
                explain=ENGINE_TXT + "Rule: lock state along every path: no second acquisition, release only while held, condition waits hold their mutex, nothing held at return; configured lock callbacks count as a lock."),
    "P07": dict(run=p_lock.check, assume=ENGINE_ASM + ["constructors and destructors are not called while other threads use the object", "the table of guarded members in sa/p_lock.py"],
                explain=ENGINE_TXT + "Rule: every read or write of a guarded member, of what hangs on it, and every call that hands it out happens while the lock that guards it is held (for writing where a read lock exists), unless no lock is configured; accesses are attributed to members through the address computation of the instruction."),
    "P18": dict(run=p_lock.order, assume=ENGINE_ASM + ["locks reached through a user's callbacks are not known"],
                explain=ENGINE_TXT + "Rule: the relation 'taken while held' over kinds of locks (through calls into other modules as well) has no cycle; no thread is joined, no semaphore and no condition of another lock is waited for while a lock is held."),
    "P16": dict(run=rule_property({"uninitialised-read"}, uninit, variants=("main+locals",), thorough=("memcheck+locals",)), assume=ENGINE_ASM,
                explain=ENGINE_TXT + "Rule: no byte of a local is read on a path on which it was not written."),
    "P10": dict(run=spec_check("spsc", ("p_spsc", "p10"), minimum=12), assume=SPEC_ASM + ["sequentially consistent memory (the code uses plain, non-atomic indexes)"],
                explain=SPEC_TXT + "Interference: at each load of the peer's index the other thread may have advanced it by any amount its own operations allow. Rules: only the own index is stored, once, after the last byte is copied, to exactly old+moved; nothing beyond what the peer has published is touched; nothing available from the start is refused; no assertion can fail."),
    "P11": dict(run=spec_check("ring-buffer", ("p_ring", "p11"), ("p_queue", "acb"), minimum=29), assume=SPEC_ASM,
                explain=SPEC_TXT + "Rule: returned amount, new read/write position, and the ring positions and caller bytes of every block copy equal the specification of the operation."),
    "P12": dict(run=spec_check("queue", ("p_queue", "p12"), minimum=17), assume=SPEC_ASM + ["RingBuffer_create_with_mem is used through its specification, shown by P11"],
                explain=SPEC_TXT + "Rule: a message is accepted or delivered whole (size header and payload at consecutive ring positions, positions advanced by exactly that) or the queue is left unchanged and the refusal is justified; no assertion can fail."),
    "P13": dict(run=spec_check("container", ("p_cont", "p13"), minimum=27), assume=SPEC_ASM + ["user callbacks (hash, equality, release) do not modify the container; equal keys have equal hashes"],
                explain=SPEC_TXT + "Lists are entered in every shape of 0 to 3 nodes, maps in 7 shapes of 1, 2 and 4 buckets with chains of up to 3 entries (equal and different hashes, with and without release callbacks, at and below the load limit), arrays with any length and capacity, inside and outside storage and element sizes 1, 4, 24. Elements, keys, values and callback answers are unconstrained. Rule: the final shape, the answers and the release callbacks are those of the abstract sequence / mapping."),
    "P08": dict(run=spec_check("wakeup", ("p_work", "p08"), minimum=8), assume=SPEC_ASM + ["semaphores and condition variables behave as POSIX says; the statements of one worker are analysed as a sequence, other threads only through the states they may leave behind"],
                explain=SPEC_TXT + "Rule: nothing that was accepted is left behind while a worker sleeps; every message or job is handed over exactly once, with its data; waits return only in the state they wait for."),
    "P09": dict(run=spec_check("lifecycle", ("p_work", "p09"), minimum=7), assume=SPEC_ASM + ["joining a running worker succeeds; the number of running pool workers is read as any value other threads may have left"],
                explain=SPEC_TXT + "Rule: a worker is started only when everything it uses is in place, and nothing it uses is released before it is known to be gone."),
    "P24": dict(run=spec_check("ini", ("p_ini", "p24"), minimum=19), assume=SPEC_ASM + ["strcasecmp tells equal names apart from different ones; the string builder appends what it is given or reports an error (shown by its own property)"],
                explain=SPEC_TXT + "The tree is entered in 7 shapes of 0 to 2 sections with 0 to 2 keys, every choice of the section and key asked for (present, absent, present in another section only), every remembered section; names, values, buffer sizes and numbers are unconstrained. Rule: the final tree, the strings copied, the code returned, the calls of the handler and the text appended are those of an ordered map of maps."),
    "P19": dict(run=spec_check("codec", ("p_codec", "p19"), minimum=4), assume=SPEC_ASM + ["output and source do not overlap; at most 2^30 bytes or characters"],
                explain=SPEC_TXT + "For each stored character the term over the loaded source bytes (shifts, masks, disjunctions, constant tables) is compared with the specified bits; groups done and characters of the current group are counted by a ghost."),
    "P15": dict(run=spec_check("strings", ("p_str", "p15"), minimum=15), assume=SPEC_ASM + ["texts are shorter than 2^40 bytes; strstr, strchr, strtok_r and vsnprintf answer as the C library specifies, the same text for the same arguments"],
                explain=SPEC_TXT + "Texts and buffer sizes of any length; for strreplace texts with 0 to 3 occurrences at any place and an empty pattern; for strtrim any set of characters. A ghost counter follows how much of the source has arrived at its place. Rule: returned length, final bytes, terminator and the bytes written are those of the operation; a builder's text is the old text followed by what was appended, or unchanged."),
    "P26": dict(run=spec_check("params", ("p_par", "p26"), minimum=16), assume=SPEC_ASM + ["the map keeps its contract (shown by P13)", "the same arguments are formatted to the same text; texts are shorter than 2^40 bytes", "strtok_r, strchr, strtol and strtod answer as the C library specifies"],
                explain=SPEC_TXT + "The map is used through its contract (new key, replaced value, no memory); every character of a stored, returned or joined text is traced back through the copies to where it came from; tokens of any length with the equals sign nowhere, in front, at the end or inside, any number of them; maps of 0 to 2 entries are joined."),
    "P14": dict(run=spec_check("iteration", ("p_cont", "p14"), ("p_iter", "dirs"), minimum=3), assume=SPEC_ASM + ["the handler does not modify what is being iterated"],
                explain=SPEC_TXT + "Rule: every element (list, map) or directory entry other than . and .. is handed to the callback exactly once with the caller's context, lists in order; after the callback asked to stop it is not called again; the result tells whether the iteration was complete."),
    "P17": dict(run=spec_check("io", ("p_io", "p17"), ("p_io", "p17log"), minimum=10), assume=SPEC_ASM + ["system calls behave as POSIX says; a transfer is at most INT_MAX bytes", "the message queue keeps its contract (shown by P12 and P08)"],
                explain=SPEC_TXT + "Every call to the system is answered in every way it may be (complete, partial, end, error). Rule: amounts, positions, prefixes, lines, messages, file life and result codes are those of the operation."),
    "P21": dict(run=spec_check("xlog", ("p_log", "p21"), minimum=12), assume=SPEC_ASM + ["vsnprintf answers the same length for the same format and arguments, or fails the first time", "a tag, a function name and a message are shorter than 2^24 characters", "the flags derived from target and format agree with them when a message is printed (which the check shows for the setters)"],
                explain=SPEC_TXT + "The configuration of xlog is set in the abstract memory, one case for each value of level, target, trigger and format, with message, tag and time zone arbitrary. Rule: whoever is told, what he is told and what the settings are afterwards is what the statement says."),
    "P23": dict(run=spec_check("tracker", ("p_trk", "p23"), minimum=20), assume=SPEC_ASM + ["the map of records keeps its contract (shown by P13); a failing allocation of a record may end the process", "blocks are smaller than 2^40 bytes where the statement does not speak of larger ones"],
                explain=SPEC_TXT + "The map of records is taken by its contract with the record asked for absent, in use, marked as released or another allocator's; every byte of both marks is overwritten in turn. Rule: blocks, marks, records and answers are those of the statement, misuse and only misuse ends the process."),
    "P25": dict(run=spec_check("posix", ("p_posix", "p25"), minimum=16), assume=SPEC_ASM + ["the POSIX functions answer anything"],
                explain=SPEC_TXT + "Every call to the system is recorded with its arguments and may answer anything. Rule: the calls made, the objects and arguments they get, the answer passed on, the handle and the memory are those the statement asks for."),
}
