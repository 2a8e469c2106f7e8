"""P07: state that threads share is touched only while the lock that guards it is held.

The table below says which fields of which structures are guarded, and by what.  Every exported function,
callback and thread body is interpreted (clients.LockClient follows the locks); an access is attributed to a
field through the instruction's own address computation, so helpers may be split or joined freely."""
from . import ir, drive
from .lin import S, const, sub, addc, is_const, ZERO, show
from .engine import bname, S as _S
from .clients import LockClient
from .ir import loc_str

RW, W = "rw", "w"


class Guard:
    """fields: name -> RW (reads and writes) or W (writes only).  lock: ("mutex", field of the same structure),
    ("callbacks", field holding the acquire callback), ("handle", field) or ("global handle", variable).
    shared: fields whose pointer is itself fixed, but what it leads to is guarded.  private: what hangs on the field belongs
    to whoever took it off.  owned: helpers that are called with the lock held.  output: calls that must not interleave.
    atomic: every operation is one critical section."""

    def __init__(self, file, struct, lock, fields=(), shared=(), exempt=(), output=(), var=None, owned=(), private=(), atomic=False):
        self.file, self.struct, self.lock, self.fields, self.shared = file, struct, lock, dict(fields), set(shared)
        self.exempt, self.output, self.var, self.owned, self.private = set(exempt), set(output), var, set(owned), set(private)
        self.atomic = atomic


def f(mode, *names): return [(n, mode) for n in names]


TH = "src/thread/thpool.c"
GUARDS = [
    Guard(TH, "jobqueue", ("mutex", "rwmutex"), f(RW, "front", "rear", "len"), private={"front", "rear"}, exempt={"thpool_init", "thpool_destroy", "thpool_wait"}),
    Guard(TH, "thpool_", ("mutex", "thcount_lock"), f(W, "num_threads_alive", "num_threads_working"), exempt={"thpool_init"}),
    Guard(TH, "bsem", ("mutex", "mutex"), f(RW, "v"), exempt={"thpool_init", "thpool_destroy"}),
    Guard("src/data/hashmap.c", "Hashmap", ("callbacks", "lock"), f(RW, "buckets", "bucketCount") + f(W, "size"), exempt={"hashmap_create", "hashmap_free"}, atomic=True),
    Guard("src/data/hashmap.c", "Entry", ("callbacks of", "Hashmap"), f(RW, "key", "hash", "value", "next"), exempt={"hashmap_create", "hashmap_free"}),
    Guard("src/mem/mplite.c", "mplite", ("callbacks", "lock"), f(RW, "aiFreelist", "nAlloc", "totalAlloc", "totalExcess", "currentOut", "currentCount", "maxOut", "maxCount", "maxRequest"),
          exempt={"mplite_init", "mplite_print_stats"}, owned={"mplite_malloc_unsafe", "mplite_free_unsafe"}, atomic=True),
    Guard("src/ring/autocover_buffer.c", "_auto_cover_buf", ("callbacks", "buf_lock"), shared={"ring"}, exempt={"auto_cover_buf_create", "auto_cover_buf_destroy"}, atomic=True),
    Guard("src/time/time_util.c", "time_cache_t", ("handle", "rw_lock"), f(RW, "timezone_hour", "tval", "format_cache")),
    Guard("src/log/xlog.c", "xlog_config", ("global handle", "g_xlog_mutex"),
          f(W, "min_level", "target", "format", "flush_mode") + f(RW, "trigger_up_level", "default_tag", "cb_pack", "fp_out", "timezone_hour", "cache_tgt", "cache_fmt"),
          output={"printf", "puts", "putchar", "fputs", "fwrite", "vprintf", "fflush", "freopen", "fclose"}, var="g_xlog_cfg", atomic=True),
    Guard("src/log/file_logger.c", "file_logger_s", ("callbacks", "cfg.lock"), f(RW, "msg_cache_p", "cur_msg_obj_capacity"), shared={"msg_queue"},
          exempt={"file_logger_init", "file_logger_deinit"}),
]


def defs(fn):
    d = getattr(fn, "_defs", None)
    if d is None:
        d = {x.res: x for bl in fn.blocks.values() for x in bl.ins if x.res}
        fn._defs = d
    return d


def bare(t): return (t.name or "").split(".", 1)[-1] if getattr(t, "k", None) == "s" else ""


def steps(ins, v):
    """the address computation behind v, innermost first: (struct type, index of the member, operand holding the structure's address)"""
    d = defs(ins.fn)
    for _ in range(20):
        if v[0] == "l":
            g = d.get(v[1])
            if g is None: return
            if g.op == "cast": v = g.ops[0] if isinstance(g.ops[0], tuple) else v; continue
            if g.op != "gep": return
            ty, ops = g.ty, g.ops
        elif v[0] == "gep": ty, ops = v[1], v[2]
        else: return
        p = ops[0][1]
        t = ty
        out = []
        for n, o in enumerate(ops[2:]):
            x = o[1]
            if t.k == "s" and x[0] == "c":
                out.append((t, x[1], p if n == 0 else None))
                t = t.el[x[1]]
            elif t.k == "a": t = t.el
            else: break
        for o in reversed(out): yield o
        v = p


class Shared(LockClient):
    """lock discipline plus: guarded fields only under their lock"""
    name = "guard"

    def __init__(self, guards):
        super().__init__()
        self.guards = guards
        self.typed = {}
        self.judged = set()

    def key(self, ts): return super().key(ts), repr(sorted(map(repr, ts.get("taken", ()))))

    def acquire(self, eng, st, ins, lid, kind):
        top = self.top(ins, st)
        if any(g.atomic and top.module.path.endswith(g.file) for g in self.guards):
            t = st.ts.get("taken", ())
            if lid in t: eng.report("guard", st, ins, "split", "%s gives its lock up in the middle: what was read under it may have changed" % top.name, key=top.name)
            else: st.ts["taken"] = t + (lid,)
        super().acquire(eng, st, ins, lid, kind)

    # ---- where things are
    def top(self, ins, st):
        return (st.ctx[0].fn if st.ctx else ins.fn)

    def guard(self, path, struct):
        for g in self.guards:
            if path.endswith(g.file) and g.struct == struct: return g
        return None

    def locate(self, eng, st, ins, v, b, off):
        """(guard, member name, address of the structure (base, offset)) or None"""
        path = ins.fn.module.path
        if b[0] == "g":
            g = eng.find_global(b)
            t = g.ty if g is not None else None
            if t is not None and t.k == "a": t = t.el
            gd = self.guard(path, self.alias(path, bare(t))) if t is not None else None
            if gd:
                n = ir.layout(t)
                o = st.red(off)
                for start in range(0, ir.layout(g.ty), n):
                    if st.cons.entails_ge0(addc(o, -start)) and st.cons.entails_le(addc(o, 1 - start - n)):
                        return gd, self.member(ins.fn.module, t, o, start, st), (b, const(start))
                return gd, None, None
        if v is None: return None
        for t, ix, p in steps(ins, v):
            gd = self.guard(path, self.alias(path, bare(t)))
            if gd is None or p is None: continue
            ir.layout(t)
            e = ir.struct_fields(ins.fn.module, t.name).get(t._offs[ix])
            if e is None: raise ir.AnalysisBroken("no debug information for %s" % t.name)
            q = st.env.get(p[1]) if p[0] == "l" else None
            if q is None or q[0] != "p":
                o = st.red(off)
                start = (b, sub(o, const(t._offs[ix])))
            else:
                q = st.canon(q)
                start = (q[1], st.red(q[2]))
            self.typed[start] = (gd, t, ins.fn.module)
            return gd, e[0], start
        return None

    def alias(self, path, n):
        """mplite_t and struct mplite are one structure; so are tagged and untagged names"""
        for g in self.guards:
            if path.endswith(g.file) and n in (g.struct, g.struct + "_t", g.struct.rstrip("_")): return g.struct
        return n

    def member(self, mod, t, off, start, st):
        fs = ir.struct_fields(mod, t.name)
        for o, (n, sz, _) in fs.items():
            if st.cons.entails_ge0(addc(off, -start - o)) and st.cons.entails_le(addc(off, 1 - start - o - max(sz, 1))): return n
        return None

    # ---- locks
    def lock_at(self, eng, st, gd, t, mod, start):
        """(what must be held, True if there is no lock to take)"""
        kind, fld = gd.lock
        b, o = start
        if kind == "global handle": cell, co = ("g", fld, mod.path), ZERO
        else:
            fs = {v[0]: k for k, v in ir.struct_fields(mod, t.name).items()}
            first = fld.split(".")[0]
            if first not in fs: raise ir.AnalysisBroken("%s has no member %s" % (t.name, first))
            k = fs[first]
            if "." in fld:
                sub_ = t.el[t._offs.index(k)]
                ir.layout(sub_)
                k += {v[0]: kk for kk, v in ir.struct_fields(mod, sub_.name).items()}[fld.split(".")[1]]
            if kind == "mutex": return [(b, st.red(addc(o, k)))], False
            cell, co = b, st.red(addc(o, k))
        if kind == "callbacks":
            # the structure of callbacks starts with its argument; the acquire callback is the one LockClient met
            v = [x for x in self.acquires(st, cell, co)]
            return [(b, ("cb",))], any(st.is_null(x) is True for x in v)
        from .clients import _ptr
        v = eng.load_mem(st, None, cell, co, 8, _ptr())
        v = st.canon(v)
        if st.is_null(v) is True: return [], True
        return [(v[1], None)], False

    def acquires(self, st, b, o):
        for k, (v, sz) in st.mem.get(b, {}).items():
            if v[0] != "p": continue
            d = st.red(sub(k, o))
            if is_const(d) and 0 <= d[0] < 24: yield v

    def ok(self, eng, st, gd, start, t, mod, write):
        held = self.held(st)
        if gd.lock[0] == "callbacks of":
            for s, (g2, t2, m2) in self.typed.items():
                if g2.struct != gd.lock[1]: continue
                want, free = self.lock_at(eng, st, g2, t2, m2, s)
                if free: return True
            return any(l[1] == ("cb",) for l, k, w in held)
        want, free = self.lock_at(eng, st, gd, t, mod, start)
        if free: return True
        for l, k, w in held:
            for x in want:
                if l[0] == x[0] and (x[1] is None or l[1] == x[1]) and not (write and k == "r"): return True
        return False

    def judge(self, eng, st, ins, gd, name, start, write, what=None):
        if self.top(ins, st).name in gd.exempt or ins.fn.name in gd.exempt: return
        if self.top(ins, st).name in gd.owned: return
        if start[0][0] in ("h", "a"): return                 # not shared yet
        mode = gd.fields.get(name)
        if what is None and (mode is None or (mode == W and not write)): return
        self.judged.add((gd.struct, name))
        self.count("guarded", ins)
        t, mod = self.typ(eng, gd, start, ins)
        if not self.ok(eng, st, gd, start, t, mod, write):
            eng.report("guard", st, ins, "unguarded", "%s %s.%s without %s" %
                       (what or ("writes" if write else "reads"), gd.struct, name, "holding its lock" if not self.held(st) or not write else "holding its lock for writing"), key=(gd.struct, name, write))

    def typ(self, eng, gd, start, ins):
        x = self.typed.get(start)
        if x: return x[1], x[2]
        g = eng.find_global(start[0])
        t = g.ty.el if g.ty.k == "a" else g.ty
        return t, ins.fn.module

    def through(self, eng, st, b):
        """the guarded pointer member an object was reached through: (guard, member, structure)"""
        for _ in range(12):
            if b[0] != "s": return None
            k = S.keys[b[1]]
            if not isinstance(k, tuple) or k[0] != "pinit": return None
            cb, co = k[1], k[2]
            for s, (g, t, m) in self.typed.items():
                if s[0] != cb: continue
                n = self.member(m, t, sub(co, s[1]), 0, st)
                if n in g.shared or (g.fields.get(n) == RW and n not in g.private): return g, n, s
            g = eng.find_global(cb) if cb[0] == "g" else None
            if g is not None and g.ty.k == "s":
                gd = self.guard(cb[2], self.alias(cb[2], bare(g.ty)))
                if gd:
                    m = [x for x in eng.prog.modules if x.path == cb[2]][0]
                    n = self.member(m, g.ty, co, 0, st)
                    if gd.fields.get(n) == RW: return gd, n, (cb, ZERO)
            b = cb
        return None

    # ---- events
    def operand(self, ins):
        if ins.op == "store": return ins.ops[1]
        if ins.op == "load": return ins.ops[0]
        return None

    def on_access(self, eng, st, ins, b, off, size, write, val=None):
        if ins is None: return
        super_ = getattr(super(), "on_access", None)
        if super_: super_(eng, st, ins, b, off, size, write, val)
        if b[0] in ("a", "h"): return
        x = self.locate(eng, st, ins, self.operand(ins), b, off)
        if x:
            if x[1] is not None: self.judge(eng, st, ins, x[0], x[1], x[2], write)
            return
        x = self.through(eng, st, b)
        if x: self.judge(eng, st, ins, x[0], x[1], x[2], write, "uses what hangs on")

    def on_range(self, eng, st, ins, b, off, length, write, what):
        if ins is None or b[0] in ("a", "h"): return
        vs = [o[1] for o in ins.ops] if ins.op == "call" else []
        for v in vs:
            q = st.env.get(v[1]) if v[0] == "l" else None
            if q is not None and (q[0] != "p" or st.canon(q)[1] != b): continue
            if q is None and b[0] != "g": continue
            x = self.locate(eng, st, ins, v, b, off)
            if x:
                if x[1] is not None: self.judge(eng, st, ins, x[0], x[1], x[2], write)
                return
        for s, (g, t, m) in list(self.typed.items()):          # the structure as a whole
            if s[0] == b and st.red(sub(off, s[1])) == ZERO:
                for n in g.fields: self.judge(eng, st, ins, g, n, s, write)
                return
        x = self.through(eng, st, b)
        if x: self.judge(eng, st, ins, x[0], x[1], x[2], write, "uses what hangs on")

    def on_call(self, eng, st, ins, name, args):
        for g in self.guards:
            if not ins.fn.module.path.endswith(g.file): continue
            if name in g.output:
                to = st.canon(args[-1]) if args and args[-1][0] == "p" else None
                if name in ("fputs", "fwrite", "fprintf", "fflush") and to is not None and "stderr" in bname(to[1]): continue
                self.output(eng, st, ins, g, name)
            if name in g.owned and eng.models.get(name):
                b = st.canon(args[0])
                t = [x for x in ins.fn.module.structs.values() if self.alias(ins.fn.module.path, bare(x)) == g.struct]
                if t:
                    s = (b[1], st.red(b[2]))
                    self.typed[s] = (g, t[0], ins.fn.module)
                    self.judge(eng, st, ins, g, name + "()", s, True, "calls")
        if eng.models.get(name) or eng.prog.resolve(ins.fn.module, name) is None:
            for a in args:
                if a[0] != "p": continue
                b = st.canon(a)[1]
                x = self.through(eng, st, b) if b[0] == "s" else None
                if x: self.judge(eng, st, ins, x[0], x[1], x[2], True, "hands out what hangs on")
        return super().on_call(eng, st, ins, name, args)

    def output(self, eng, st, ins, g, name):
        if self.top(ins, st).name in g.exempt: return
        m = ins.fn.module
        self.judge(eng, st, ins, g, name + "()", (("g", g.var, m.path), ZERO), True, "calls")

    def on_icall(self, eng, st, ins, f, args):
        r = super().on_icall(eng, st, ins, f, args)
        if f[0] == "p":
            b = st.canon(f)[1]
            x = self.through(eng, st, b) if b[0] == "s" else None
            if x: self.judge(eng, st, ins, x[0], x[1], x[2], True, "calls")
        return r


def clients(): return [Shared(GUARDS)]


def check(ctx):
    from . import checks
    vs = ["main"] + (["memcheck"] if ctx.tier == "thorough" else [])
    files = {g.file for g in GUARDS}
    for v in vs:
        p = ctx.prog(v)
        missing = [x for x in files if not any(m.path.endswith(x) for m in p.modules)]
        res = checks.run_engine(ctx, clients, v, only=lambda fn: any(fn.module.path.endswith(x) for x in files))
        checks.file_reports(ctx, res, {"unguarded", "split"}, v)
        ctx.need(not missing, "no source %s" % missing)
        ctx.need(len(res) >= 60, "only %d entry functions in variant %s" % (len(res), v))
    ctx.cov["variants"] = vs
    ctx.cov["guarded structures"] = ["%s by %s %s" % (g.struct, g.lock[0], g.lock[1]) for g in GUARDS]
    ctx.need(ctx.cov.get("sites guard.guarded", 0) >= 60, "only %d guarded accesses found" % ctx.cov.get("sites guard.guarded", 0))


# ---------------------------------------------------------------- P18: no cycle of waiting
WAITS = {"pthread_join": "joins a thread", "portable_thread_join": "joins a thread", "sem_wait": "waits for a semaphore", "portable_sem_wait": "waits for a semaphore",
         "sem_timedwait": "waits for a semaphore"}


class Order(LockClient):
    """which lock is taken while which other is held; what is waited for while a lock is held"""
    name = "order"

    def klass(self, eng, st, ins, lid, v=None):
        b = lid[0]
        if lid[1] == ("cb",):
            return "the lock callbacks of %s" % ins.fn.module.path
        first = next(iter(steps(ins, v)), None) if v is not None else None
        if first is not None and not bare(first[0]).startswith("portable_"):
            t, ix, _ = first
            ir.layout(t)
            e = ir.struct_fields(ins.fn.module, t.name).get(t._offs[ix])
            return "%s.%s" % (bare(t), e[0] if e else ix)
        for _ in range(12):
            if b[0] == "g": return b[1]
            k = S.keys[b[1]] if b[0] == "s" else None
            if not isinstance(k, tuple) or k[0] != "pinit": break
            b = k[1]
        return "a lock of the caller"

    def acquire(self, eng, st, ins, lid, kind):
        v = ins.ops[0][1] if ins.op == "call" and ins.ops and lid[1] != ("cb",) else None
        c = self.klass(eng, st, ins, lid, v)
        names = dict(st.ts.get("lockclass", ()))
        eng.report("order", st, ins, "takes", c, key=c)
        for l, k, w in self.held(st):
            self.count("nested", ins)
            a = names.get(l, "a lock")
            eng.report("order", st, ins, "edge", "%s is taken while %s is held (since %s)" % (c, a, w), key=(a, c))
        names[lid] = c
        st.ts["lockclass"] = tuple(sorted(names.items(), key=repr))
        super().acquire(eng, st, ins, lid, kind)

    def on_call(self, eng, st, ins, name, args):
        w = WAITS.get(name)
        t = eng.prog.resolve(ins.fn.module, name) if self.held(st) and eng.models.get(name) else None
        if t is not None and t.blocks:          # used through a contract: its locks are found when it is an entry itself
            names = dict(st.ts.get("lockclass", ()))
            for l, k, at in self.held(st):
                eng.report("order", st, ins, "calls", "is called while %s is held (since %s)" % (names.get(l, "a lock"), at), key=(names.get(l, "a lock"), t.name))
        if w:
            self.count("wait", ins)
            for l, k, at in self.held(st):
                eng.report("order", st, ins, "waits-with-lock", "%s while a lock taken at %s is held" % (w, at), key=name)
        if name in ("pthread_cond_wait", "pthread_cond_timedwait"):
            self.count("wait", ins)
            own = self.lid(st, args[1])
            for l, k, at in self.held(st):
                if l != own: eng.report("order", st, ins, "waits-with-lock", "waits for a condition while another lock, taken at %s, is held" % at, key=name)
        return super().on_call(eng, st, ins, name, args)


def order(ctx):
    from . import checks
    vs = ["main"] + (["memcheck"] if ctx.tier == "thorough" else [])
    for v in vs:
        res = checks.run_engine(ctx, lambda: [Order()], v)
        ctx.need(len(res) >= checks.MIN_FUNCS, "only %d entry functions found in variant %s" % (len(res), v))
        checks.file_reports(ctx, res, {"waits-with-lock"}, v)
        edges, takes = {}, {}
        for r in res:
            for x in r["reports"]:
                if x["rule"] == "edge": edges.setdefault(x["key"], []).append((r, x))
                elif x["rule"] == "takes": takes.setdefault(r["fn"], set()).add(x["key"])
        for r in res:
            for x in r["reports"]:
                if x["rule"] != "calls": continue
                for c in takes.get(x["key"][1], ()):
                    edges.setdefault((x["key"][0], c), []).append((r, dict(x, msg="%s, which takes %s, %s" % (x["key"][1], c, x["msg"]))))
        after = {}
        for a, c in edges: after.setdefault(a, set()).add(c)

        def reaches(a, c):
            seen, todo = set(), [a]
            while todo:
                n = todo.pop()
                if n == c: return True
                if n in seen: continue
                seen.add(n)
                todo += after.get(n, ())
            return False
        for (a, c), xs in sorted(edges.items()):
            if a == c or reaches(c, a):
                r, x = xs[0]
                file, func, line = checks.place(x)
                ctx.add("lock-order", file, func, line, x["msg"] + ("; both are of the same kind" if a == c else "; elsewhere the order is the other way round"), "%s > %s" % (a, c), x["path"], "%s, called through %s" % (r["fn"], x["callstack"]), v)
        ctx.cov["lock order " + v] = sorted("%s > %s" % e for e in edges)
    ctx.cov["variants"] = vs
    ctx.need(ctx.cov.get("sites order.lock", 0) >= 40, "only %d lock operations found" % ctx.cov.get("sites order.lock", 0))
