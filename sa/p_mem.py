"""P04: every access stays inside the object it is made to.

Two passes.  The operations that have a behavioural specification are interpreted from every state of their
specification (which bounds the objects they are given); every other entry point is interpreted with arbitrary
arguments, the caller's buffers being as large as the documentation asks for."""
from . import ir, drive
from .lin import S, const, sym, add, sub, addc, is_const, scale, ZERO
from .engine import NULL, fsym, bname
from .clients import MemClient
from .models import slen_of, argi, rng, put_string

BIG = 1 << 40

SPECS = [("p_ring", "p11"), ("p_queue", "acb"), ("p_queue", "p12"), ("p_cont", "p13"), ("p_cont", "p14"), ("p_str", "p15"), ("p_ini", "p24"),
         ("p_par", "p26"), ("p_spsc", "p10"), ("p_work", "p08"), ("p_work", "p09"), ("p_iter", "dirs"),
         ("p_io", "p17"), ("p_io", "p17log")]


class Bounds(MemClient):
    """out-of-bounds accesses; the line reader handed to ini_reader_parse_stream behaves like fgets"""

    def __init__(self):
        super().__init__(True, False, False, False)
        self.reader = None

    def on_icall(self, eng, st, ins, f, args):
        if self.reader is None or f[0] != "p" or f[1] != self.reader or len(args) != 3: return None
        n = argi(eng, st, args, 1, 32)
        out = []
        for s, m in eng.scanon(st, n, 32):
            d = rng(eng, s, ins, args[0], m, True, "line read into")
            if d is None: continue
            t = s.copy()
            eng.invalidate(t, d[0], d[1], m)
            out.append((t, NULL))
            k = fsym("linelen", 0, 1 << 31)
            s.assume_le(addc(sub(sym(k), m), 1))
            if s.cons.bot: continue
            eng.invalidate(s, d[0], d[1], m)
            put_string(eng, s, d[0], d[1], sym(k))
            out.append((s, args[0]))
        return out


    def on_unterminated(self, eng, st, ins, b, off):
        eng.report("mem", st, ins, "out-of-bounds", "the text read from %s is not known to be terminated inside it" % bname(b), key="unterminated")

    def on_call(self, eng, st, ins, name, args):
        if name == "mplite_size": return [(st, ("i", sym(fsym("size of the block", 0, (1 << 31) - 1))))]      # the content of the pool is not modelled
        return super().on_call(eng, st, ins, name, args) if hasattr(super(), "on_call") else None


def bounds(): return Bounds()


def size_of_text(eng, st, p):
    """length of the text a pointer argument leads to (a symbol), the object ending with its terminator"""
    p = st.canon(p)
    n = slen_of(eng, st, None, p)
    st.assume_le(addc(n, -BIG))
    return st.red(n)


# ---------------------------------------------------------------- what the caller provides
# function -> {parameter index: size in bytes as a function of (eng, st, args)}
def param(i): return lambda eng, st, a: argi(eng, st, a, i, 64)


def text(i, extra=1): return lambda eng, st, a: addc(size_of_text(eng, st, a[i]), extra)


def num(n): return lambda eng, st, a: const(n)


CALLER = {}


def caller(name, **kw): CALLER[name] = {int(k[1:]): v for k, v in kw.items()}


caller("lcu_url_encode", a0=param(1), a2=param(3))
caller("lcu_url_decode", a0=param(1), a2=param(3))
for n in ("time_util_get_time_str",): caller(n, a1=num(24))
caller("time_util_get_time_str_current", a0=num(24))
caller("time_util_get_time_str_for_file_name", a1=num(24))
caller("time_util_get_time_str_for_file_name_current", a0=num(24))
caller("__slog_internal_hex_print", a2=param(3))
caller("__xlog_internal_hex_print", a2=param(3))
caller("lcu_base64_encode", a0=lambda eng, st, a: addc(scale(eng.divsym(st, addc(argi(eng, st, a, 2, 64), 2), 3), 4), 1), a1=param(2))
caller("lcu_base64_decode", a0=lambda eng, st, a: addc(scale(eng.divsym(st, addc(size_of_text(eng, st, a[1]), 3), 4), 3), 1), a1=text(1))
caller("file_util_append_slash_on_path_if_needed", a0=param(1))
caller("file_util_read", a1=param(2))
caller("file_util_write", a1=param(2))


def tracker(eng, st):
    """the allocation tracker is off, or on with the length of its guard text worked out"""
    for m in eng.prog.modules:
        g = m.globals.get("canary")
        if g is None or not m.path.endswith("allocation_tracker.c") or "allocations" not in m.globals or "canary_size" not in m.globals: continue
        ns = set()
        drive._gnames(g.init, ns)
        t = [m.globals[n] for n in ns if n in m.globals]
        if len(t) != 1 or not t[0].init or t[0].init[0] != "str": continue
        b = lambda n: ("g", n, m.path)
        eng.store_mem(st, None, b("canary"), ZERO, ("p", ("g", t[0].name, m.path), ZERO), 8)
        eng.store_mem(st, None, b("canary_size"), ZERO, ("i", const(t[0].init[1].index(0))), 8)
        off = st.copy()
        eng.store_mem(off, None, b("allocations"), ZERO, NULL, 8)
        h = ("s", fsym("tracked"))
        st.nn[h] = True
        eng.store_mem(st, None, b("allocations"), ZERO, ("p", h, ZERO), 8)
        return [off, st]
    return [st]


def caches(eng, st):
    """every cached time text is at least as long as its milliseconds"""
    for m in eng.prog.modules:
        g = m.globals.get("g_time_caches")
        if g is None or not m.path.endswith("time_util.c"): continue
        b = ("g", g.name, m.path)
        fs = ir.struct_fields(m, "%struct.time_cache_t")
        o = [k for k, v in fs.items() if v[0] == "format_cache"]
        if not o: continue
        for base in range(0, ir.layout(g.ty), ir.layout(m.structs["%struct.time_cache_t"])):
            n = slen_of(eng, st, None, ("p", b, const(base + o[0])))
            if not st.assume_ge0(addc(n, -4)) or not st.assume_le(addc(n, -23)): raise ir.AnalysisBroken("no state of the time cache")
    return [st]


def levels(eng, st, f, args):
    """levels are levels, the default tag is a text within its array"""
    st = [s for s, e in eng.ucanon(st, st.red(eng.as_int(st, args[0], 32)), 32) if s.assume_le(addc(e, -6)) and s.assume_ge0(e)][0]
    for m in eng.prog.modules:
        if not m.path.endswith("xlog.c") or "g_xlog_cfg" not in m.globals: continue
        b = ("g", "g_xlog_cfg", m.path)
        fs = {v[0]: k for k, v in ir.struct_fields(m, m.globals["g_xlog_cfg"].ty.name).items()}
        k = fsym("trigger_up_level", 0, 6)
        eng.put_cell(st, b, const(fs["trigger_up_level"]), ("i", sym(k)), 4)
        n = slen_of(eng, st, None, ("p", b, const(fs["default_tag"])))
        st.assume_le(addc(n, -23))
    out = []
    n = st.copy()
    if n.set_nn(args[1], False): out.append(n)
    if st.set_nn(args[1], True):
        size_of_text(eng, st, args[1])
        out.append(st)
    return out


def a_builder(eng, st, f, args):
    """the context of the dump callbacks leads to a valid string builder"""
    ctx = st.canon(args[1])
    st.set_nn(args[1], True)
    m = f.module
    fs = {v[0]: k for k, v in ir.struct_fields(m, "%struct.dump_ini_context").items()}
    sm = next(x for x in eng.prog.modules if x.path.endswith("stringbuilder.c"))
    bs = {v[0]: k for k, v in ir.struct_fields(sm, "%struct.stringbuilder").items()}
    sb, bb = ("h", "builder"), ("h", "text")
    st.setobj(sb, size=const(ir.layout(sm.structs["%struct.stringbuilder"])), fam="libc", state="live", esc=True)
    cap, n = sym(fsym("allocated", 2, BIG)), sym(fsym("length", 0, BIG))
    st.assume_ge0(addc(sub(cap, n), -1))
    st.setobj(bb, size=cap, fam="libc", state="live", esc=True)
    eng.put_cell(st, sb, const(bs["buffer"]), ("p", bb, ZERO), 8)
    eng.put_cell(st, sb, const(bs["allocated"]), ("i", cap), 8)
    eng.put_cell(st, sb, const(bs["length"]), ("i", n), 8)
    eng.put_cell(st, ctx[1], st.red(addc(ctx[2], fs["sb"])), ("p", sb, ZERO), 8)
    return st


def pre(eng, st, f, args):
    for (n, t), a in zip(f.params, args):
        if t.k == "i" and t.w == 64 and a[0] == "i":        # lengths of things that exist
            c = eng.ucanon(st, st.red(a[1]), 64)
            c = [s for s, e in c if s.assume_le(addc(e, -BIG))]
            if c: st = c[0]
    for i, size in CALLER.get(f.name, {}).items():
        p = st.canon(args[i])
        if p[0] != "p": continue
        st.objs.setdefault(p[1], {})
        st.objs[p[1]] = dict(st.objs[p[1]], size=size(eng, st, args))
    if f.name == "file_util_append_slash_on_path_if_needed":       # a text inside the caller's buffer
        n = argi(eng, st, args, 1, 64)
        if not st.assume_ge0(addc(n, -1)) or not st.assume_le(addc(sub(size_of_text(eng, st, args[0]), n), 1)): raise ir.AnalysisBroken("no text")
    if f.name == "__xlog_internal_print": return levels(eng, st, f, args)
    if f.name in ("iter_section_for_dump", "iter_key_value_for_dump"): st = a_builder(eng, st, f, args)
    if f.name == "ini_reader_parse_stream":
        for c in eng.clients: c.reader = st.canon(args[0])[1]
    if f.module.path.endswith("time_util.c"): return caches(eng, st)
    if f.module.path.endswith(("allocator.c", "allocation_tracker.c")): return tracker(eng, st)
    return [st]


def spec_names(p):
    import importlib
    names = set()
    for mod, fn in SPECS:
        s = getattr(importlib.import_module("sa." + mod), fn)()
        names |= {n for n in s.t if not n.startswith("@")}
    return names


def sweep(ctx, v="main", names=None):
    from . import checks, drive
    p = ctx.prog(v)
    done = spec_names(p)
    fs = [f for f in drive.entries(p) if f.name not in done and (not names or f.name in names)]
    res = checks.run_engine(ctx, lambda: [bounds()], v, fs=fs, pre=pre)
    return res


RULES = {"out-of-bounds", "write-to-constant"}


def check(ctx):
    import importlib
    from . import checks, spec, p_ring
    vs = ["main"] + (["memcheck"] if ctx.tier == "thorough" else [])
    n = 0
    for v in vs:
        res = sweep(ctx, v)
        n += len(res)
        checks.file_reports(ctx, res, RULES, v)
        for mod, fn in SPECS:
            m = importlib.import_module("sa." + mod)
            s = getattr(m, fn)()
            s.rule = "-"
            cl = [x for x in getattr(m, "CLIENTS", [])]
            for x in cl:
                if hasattr(x, "rule"): x.rule = "-"
            res = spec.run_specs(ctx, s, v, clients=[p_ring.abort_client("-")] + cl + [bounds], opts=getattr(m, "OPTS", None))
            n += len(res)
            for r in res:
                for x in r["reports"]:
                    if x["rule"] == "-" and x["key"] == "capacity": x["rule"] = "out-of-bounds"      # later accesses rely on it
            checks.file_reports(ctx, res, RULES, v)
    ctx.cov["variants"] = vs
    ctx.need(n >= 240, "only %d entry functions analysed" % n)
    ctx.need(ctx.cov.get("sites mem.bounds", 0) >= 1000, "only %d accesses judged" % ctx.cov.get("sites mem.bounds", 0))
