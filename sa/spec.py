"""Behavioural specifications of single operations.

A spec constrains the abstract state in which an exported function is entered (the invariant of the
object it works on) and states what must hold in every abstract state in which it returns.  The
function's own body, with everything it calls, is interpreted by the engine; nothing about how the
body is written is assumed."""
import re
from . import ir
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import Client, NULL, NULLB, I, dsym, expr_syms, bname, fsym

M32, M64 = 1 << 32, 1 << 64


def last_ret(fn):
    r = None
    for b in fn.blocks.values():
        for i in b.ins:
            if i.op == "ret": r = i
    return r


class CopyLog(Client):
    """remembers the block copies made on the current path, oldest first"""
    name = "copies"

    def on_copy(self, eng, st, ins, db, doff, sb, soff, n):
        st.ts["copies"] = st.ts.get("copies", ()) + ((db, doff, sb, soff, n),)

    def key(self, ts):
        c = ts.get("copies")
        return repr(c) if c else None


# members of the specified structs, in the order of their declaration
ORDER = {
    "list_t": ["head", "tail", "length", "free_cb", "allocator"],
    "list_node_t": ["next", "data"],
    "Hashmap": ["buckets", "bucketCount", "fn_hash", "fn_key_free", "fn_value_free", "fn_key_equality", "lock", "size"],
    "Entry": ["key", "hash", "value", "next"],
    "array_t": ["element_size", "length", "capacity", "data", "internal_storage"],
    "__ring_buffer_t": ["need_free_myself", "in", "out", "size", "buf"],
    "__ring_buf_t": ["need_free_myself", "pbuf", "size", "offset_read", "offset_write"],
    "file_logger_s": ["timezone_hour", "cfg", "msg_queue", "cur_log_file_size_counter", "cur_fp", "msg_cache_p", "cur_msg_obj_capacity"],
    "_auto_cover_buf": ["ring", "ring_buffer_size", "buf_lock"],
}


def size_of(mod, sname):
    t = mod.structs.get("%struct." + sname)
    if t is None: raise ir.AnalysisBroken("struct %s not found in %s" % (sname, mod.path))
    return ir.layout(t)


class Ob:
    """a struct in the abstract memory, fields addressed by name"""

    def __init__(self, eng, st, mod, base, sname, off=ZERO):
        self.eng, self.mod, self.base, self.off, self.sname = eng, mod, base, off, sname
        self.f = {}
        for o, (n, sz, ty) in ir.struct_fields(mod, "%struct." + sname).items(): self.f.setdefault(n, (o, sz))
        if not self.f: raise ir.AnalysisBroken("struct %s not found in %s" % (sname, mod.path))

    def where(self, name):
        if name not in self.f:
            # a renamed member is still the member at its place
            order = ORDER.get(self.sname, [])
            if name in order and len(order) == len(self.f):
                o = sorted(self.f.values())[order.index(name)]
                return addc(self.off, o[0]), o[1]
        if name not in self.f: raise ir.AnalysisBroken("field %s not found" % name)
        o, sz = self.f[name]
        return addc(self.off, o), sz

    def i(self, st, name):
        """Expr of an integer field, brought into range"""
        o, sz = self.where(name)
        v = self.eng.load_mem(st, None, self.base, o, sz, ir.int_t(sz * 8), False)
        return st.red(self.eng.as_int(st, v, sz * 8))

    def name(self, st, name, text=None):
        e = self.i(st, name)
        return e

    def p(self, st, name):
        o, sz = self.where(name)
        return st.canon(self.eng.load_mem(st, None, self.base, o, 8, ir.PTR))

    def set(self, st, name, v):
        o, sz = self.where(name)
        self.eng.store_mem(st, None, self.base, o, v, sz)


class Case:
    """one returning state of a function under a spec"""

    def __init__(self, eng, st, f, args, r, rule):
        self.eng, self.st, self.f, self.args, self.r, self.rule = eng, st, f, args, r, rule

    def fail(self, what, key=None):
        self.eng.report("spec", self.st, last_ret(self.f), self.rule, "%s: %s" % (self.f.name, what), key=key or what)

    def ret(self, w=32, signed=False):
        """[(state, Expr)] of the returned integer"""
        e = self.st.red(self.eng.as_int(self.st, self.r, w))
        return (self.eng.scanon if signed else self.eng.ucanon)(self.st.copy(), e, w)

    def eq(self, a, b, what, key=None, mod=None, st=None):
        st = st or self.st
        d = st.red(sub(a, b))
        if st.cons.entails_eq(d): return True
        if mod:
            for k in (-2, -1, 1, 2):
                if st.cons.entails_eq(addc(d, k * mod)): return True
            # congruent by construction
            if is_const(d) and d[0] % mod == 0: return True
            if all(k % mod == 0 for _, k in d[1]) and d[0] % mod == 0: return True
        self.fail("%s (found %s, expected %s)" % (what, show(st.red(a)), show(st.red(b))), key or what)
        return False

    def holds(self, cond, what, key=None):
        if not cond: self.fail(what, key)
        return cond


def split(st, e):
    """[(state with e<=0), (state with e>=1)] dropping the impossible one; tagged True/False"""
    out = []
    a = st.copy()
    if a.assume_le(e): out.append((a, True))
    b = st.copy()
    if b.assume_ge0(addc(e, -1)): out.append((b, False))
    return out


def need(st, *conds):
    for c in conds:
        if not st.assume_le(c): return None
    return st


class Specs:
    """collects the specs of one property; one function may have several entry cases"""

    def __init__(self, rule):
        self.rule = rule
        self.t = {}
        self.alias = {}

    def add(self, names, pre, post):
        for n in ([names] if isinstance(names, str) else names): self.t.setdefault(n, []).append((pre, post))

    def fn(self, name, pre):
        def d(post):
            self.add(name, pre, post)
            return post
        return d

    def of(self, f): return self.t[self.alias.get(f.name, f.name)]

    def pre(self, eng, st, f, args):
        out = []
        for n, (pr, po) in enumerate(self.of(f)):
            s = st.copy()
            for x in (pr(eng, s, f, args) if pr else [s]):
                if x is None or x.cons.bot: continue
                x.ts["spec"] = (n,) + tuple(x.ts.get("spec", ()))
                out.append(x)
        if not out: raise ir.AnalysisBroken("no entry state for %s" % f.name)
        return out

    def post(self, eng, st, f, args, r):
        n = st.ts["spec"][0]
        self.of(f)[n][1](Case(eng, st, f, args, r, self.rule))


class SpecKey(Client):
    """keeps the entry cases apart when states are joined"""
    name = "spec"

    def key(self, ts): return ts.get("spec")


def thread_body(ctx, p, path):
    """the function a module starts as a thread"""
    from .drive import _gnames
    ns = set()
    m = [m for m in p.modules if m.path.endswith(path)]
    ctx.need(len(m) == 1, "%s is gone" % path)
    for f in m[0].funcs.values():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "call" and i.extra and i.extra[0] in (("g", "pthread_create"), ("g", "portable_thread_create")): _gnames([x for x in i.extra[1:]] + [i.ops], ns)
    c = [m[0].funcs[n] for n in ns if m[0].funcs.get(n) is not None and m[0].funcs[n].blocks]
    ctx.need(len(c) == 1, "%d thread bodies found in %s" % (len(c), path))
    return c[0]


def handler_body(ctx, p, path):
    """the one function of a module whose address is handed on"""
    from .drive import _gnames
    m = [m for m in p.modules if m.path.endswith(path)]
    ctx.need(len(m) == 1, "%s is gone" % path)
    ns = set()
    for f in m[0].funcs.values():
        for b in f.blocks.values():
            for i in b.ins:
                _gnames([i.ops] + ([x for x in i.extra[1:]] if i.op == "call" and i.extra else [i.extra]), ns)
    for g in m[0].globals.values(): _gnames(g.init, ns)
    c = [m[0].funcs[n] for n in ns if m[0].funcs.get(n) is not None and m[0].funcs[n].blocks]
    ctx.need(len(c) == 1, "%d handlers found in %s" % (len(c), path))
    return c[0]


def run_specs(ctx, specs, variant="main", clients=(), opts=None, files=None):
    from . import checks, drive
    p = ctx.prog(variant)
    fs = []
    for n in specs.t:
        if n.startswith("@thread:"):
            fs.append(thread_body(ctx, p, n[8:]))
            specs.alias[fs[-1].name] = n
            continue
        if n.startswith("@handler:"):
            fs.append(handler_body(ctx, p, n[9:]))
            specs.alias[fs[-1].name] = n
            continue
        c = [f for f in p.all_funcs() if f.name == n and f.blocks and (files is None or any(f.module.path.endswith(x) for x in files))]
        ctx.need(len(c) == 1, "%d definitions of %s found" % (len(c), n))
        fs.append(c[0])
    o = {"contracts": False, "merge_cap": 64, "ret_cap": 64, "loop_entry_cap": 32}
    o.update(opts or {})
    res = checks.run_engine(ctx, lambda: [SpecKey(), CopyLog()] + [c() for c in clients], variant, opts=o, pre=specs.pre, post=specs.post, fs=fs)
    checks.file_reports(ctx, res, {specs.rule}, variant)
    if not ctx.viol:        # what was found stands, however much of the rest could not be analysed
        for r in res:
            if r["error"]: raise ir.AnalysisBroken("%s not decided: %s" % (r["fn"], r["error"][-600:]))
            ctx.need(r["rets"] > 0, "%s has no returning state" % r["fn"])
    ctx.cov["specified functions"] = sorted(set(ctx.cov.get("specified functions", [])) | {f.name for f in fs})
    return res
