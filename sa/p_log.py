"""P21: xlog passes on exactly the messages it is told to, complete and to where they belong."""
from . import ir, models
from .lin import S, const, sym, add, sub, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, fsym, bname
from .spec import Specs, need
from .p_cont import newsym
from .p_par import origin, comes_from
from .p_queue import mod_of

LOG = "src/log/xlog.c"
BIG = 1 << 24
STAMP = 23          # length of a time text, at most
CONSOLE, CALLBACK, ANDROID = 4, 8, 2
F_TIME, F_TAG, F_TID = 2, 4, 8
LETTERS = "0VDIWE?"


class Cfg:
    """the configuration of xlog in the abstract memory"""

    def __init__(self, eng):
        self.eng, self.mod = eng, mod_of(eng, LOG)
        c = [g for g in self.mod.globals.values() if getattr(g.ty, "k", None) == "s" and not g.const and "trigger_up_level" in [v[0] for v in ir.struct_fields(self.mod, g.ty.name).values()]]
        if len(c) != 1: raise ir.AnalysisBroken("the configuration of xlog is not found")
        self.b = ("g", c[0].name, self.mod.path)
        self.f = {}
        for o, (n, sz, ty) in sorted(ir.struct_fields(self.mod, c[0].ty.name).items()): self.f.setdefault(n, (o, sz))

    def has(self, n): return n in self.f

    def put(self, st, n, v, at=0, size=None):
        if n not in self.f: return
        o, sz = self.f[n]
        self.eng.put_cell(st, self.b, const(o + at), v if isinstance(v, tuple) and v[0] in ("i", "p") else I(v), size or sz)

    def get(self, st, n, at=0, size=None, ptr=False):
        o, sz = self.f[n]
        sz = size or sz
        v = self.eng.load_mem(st, None, self.b, const(o + at), sz, ir.PTR if ptr else ir.int_t(sz * 8), False)
        return st.canon(v) if ptr else st.red(self.eng.as_int(st, v, sz * 8))


class XLog(Client):
    name = "xlog"
    rule = "xlog"

    def failed(self, eng, st, ins, what, key):
        eng.report("spec", st, ins, self.rule, "%s: %s" % (ins.fn.name, what), key=key)

    def key(self, ts):
        return repr([ts.get(k) for k in ("shown", "told", "message", "stamp", "fmtfail", "allocfail", "flushed", "xspec")]) if "xspec" in ts else None

    def on_call(self, eng, st, ins, name, args):
        if "xlog" not in st.ts: return None
        h = getattr(self, "call_" + name, None)
        return h(eng, st, ins, args) if h else None

    def on_nullderef(self, eng, st, ins, what): self.failed(eng, st, ins, "a NULL pointer is used", "null")

    def call_vsnprintf(self, eng, st, ins, args):
        t = st.ts["xlog"]
        if st.canon(args[2])[1] != t["fmt"]: self.failed(eng, st, ins, "something other than the caller's format is printed", "format"); return []
        d = st.canon(args[0])
        out = []
        for s, n in eng.ucanon(st.copy(), st.red(eng.as_int(st, args[1], 64)), 64):
            if s.is_null(d) is True:
                out.append((s, ("i", t["len"]))); continue
            for c in eng.clients: c.on_range(eng, s, ins, d[1], s.red(d[2]), n, True, "vsnprintf")
            if s.ts.get("fmtfail") is None:
                bad = s.copy()
                bad.ts["fmtfail"] = True
                eng.invalidate(bad, d[1], bad.red(d[2]), n)
                out.append((bad, I(-1)))
            s.ts["fmtfail"] = False
            x = s.copy()
            if x.assume_ge0(addc(sub(n, t["len"]), -1)):
                models.put_string(eng, x, d[1], d[2], t["len"])
                x.ts["message"] = (d[1], x.red(d[2]), "whole")
                out.append((x, ("i", t["len"])))
            if s.assume_le(sub(n, t["len"])):
                z = s.copy()
                s.ts["message"] = z.ts["message"] = (d[1], s.red(d[2]), "cut")
                if z.assume_eq(n): out.append((z, ("i", t["len"])))
                if s.assume_ge0(addc(n, -1)):
                    models.put_string(eng, s, d[1], d[2], addc(n, -1))
                    out.append((s, ("i", t["len"])))
        return out

    def call_time_util_get_time_str_current(self, eng, st, ins, args):
        d = st.canon(args[0])
        cfg = Cfg(eng)
        z = st.red(sub(eng.as_int(st, args[1], 32), cfg.get(st, "timezone_hour")))
        if not st.cons.entails_eq(z): self.failed(eng, st, ins, "the time is not that of the time zone set", "zone"); return []
        for c in eng.clients: c.on_range(eng, st, ins, d[1], st.red(d[2]), const(STAMP + 1), True, "time")
        k = sym(fsym("length of the time", 4, STAMP))
        models.put_string(eng, st, d[1], d[2], k)
        st.ts["stamp"] = (d[1], st.red(d[2]), k)
        return [(st, ("i", k))]

    def call_strlcpy(self, eng, st, ins, args):
        """what is in front of the message is a text without terminator"""
        m, p = st.ts.get("message"), st.canon(args[1])
        if m and p[1] == m[0]:
            n = models.slen_of(eng, st, ins, p)
            st.assume_ge0(sub(n, sub(m[1], p[2])))
        return None

    call_strcpy = call_strncpy = call_strlcpy

    def emitted(self, eng, st, ins, p, end):
        """the text at p, of which end characters are passed on (None: up to its terminator)"""
        t = st.ts["xlog"]
        p = st.canon(p)
        b, off = p[1], st.red(p[2])
        m = st.ts.get("message")
        if m is None or m[0] != b: self.failed(eng, st, ins, "the message is not in what is passed on", "message"); return False
        if m[2] != "whole": self.failed(eng, st, ins, "the message is cut short", "cut"); return False
        front = st.red(sub(m[1], off))
        if end is not None and not st.cons.entails_eq(sub(end, add(front, addc(t["len"], 1)))): self.failed(eng, st, ins, "the size passed on is not that of the text with its terminator", "size"); return False
        z = eng.load_mem(st, None, b, st.red(add(m[1], t["len"])), 1, ir.int_t(8), False)
        if not st.cons.entails_eq(st.red(eng.as_int(st, z, 8))): self.failed(eng, st, ins, "the text is not terminated behind the message", "end"); return False
        f, pos = t["format"], ZERO
        if not f and not t["func"]:
            if not st.cons.entails_eq(front): self.failed(eng, st, ins, "something is in front of a raw message", "raw"); return False
            return True
        if f & F_TIME:
            s = st.ts.get("stamp")
            if s is None: self.failed(eng, st, ins, "the time is missing", "time"); return False
            if not comes_from(st, b, off, s[2], s[0], s[1]) and not (s[0] == b and st.cons.entails_eq(sub(s[1], off))): self.failed(eng, st, ins, "the text does not begin with the time", "time"); return False
            pos = s[2]
        elif st.ts.get("stamp") is not None: self.failed(eng, st, ins, "a time nobody asked for", "time"); return False
        if f & F_TAG:
            for k, want in enumerate((32, ord(LETTERS[t["shown as"]]), ord("/"))):
                if not self.char(eng, st, b, add(off, addc(pos, k)), want): self.failed(eng, st, ins, "the level in front of the message is not %r" % (" %s/" % LETTERS[t["shown as"]]), "level"); return False
        elif f & F_TID:
            if not self.char(eng, st, b, add(off, pos), ord("(")): self.failed(eng, st, ins, "the thread is missing", "thread"); return False
        if f and not t["func"]:
            for k, want in ((-2, ord(":")), (-1, 32)):
                if not self.char(eng, st, b, addc(m[1], k), want): self.failed(eng, st, ins, "the header does not end in ': '", "colon"); return False
        return True

    def char(self, eng, st, b, off, want):
        o = origin(st, b, st.red(off), const(1))
        if o is None: return False
        v = eng.load_mem(st, None, o[0], st.red(o[1]), 1, ir.int_t(8), False)
        return st.cons.entails_eq(st.red(addc(eng.as_int(st, v, 8), -want)))

    def shown(self, eng, st, ins, p):
        if st.ts.get("shown"): self.failed(eng, st, ins, "a message is printed twice", "twice"); return []
        if not self.emitted(eng, st, ins, p, None): return []
        st.ts["shown"] = True
        return [(st, eng.unknown(st, ir.int_t(32), "printed"))]

    def call_printf(self, eng, st, ins, args):
        f = models.fmt_of(eng, st, args[0])
        if f in ("%s\n", "%s"): return self.shown(eng, st, ins, args[1])
        return None

    def call_puts(self, eng, st, ins, args): return self.shown(eng, st, ins, args[0])

    def call_fflush(self, eng, st, ins, args):
        if st.ts.get("shown"): st.ts["flushed"] = True
        return None

    def on_icall(self, eng, st, ins, f, args):
        t = st.ts.get("xlog")
        if t is None: return None
        f = st.canon(f)
        if t["cb"] is None or f[1] != t["cb"] or len(args) != 4: self.failed(eng, st, ins, "something other than the callback is called", "callback"); return []
        if st.ts.get("told"): self.failed(eng, st, ins, "the callback is called twice", "twice"); return []
        n = st.red(eng.as_int(st, args[2], 64))
        out = []
        for s, e in eng.ucanon(st.copy(), n, 64):
            if not self.emitted(eng, s, ins, args[1], e): continue
            if s.canon(args[3])[1] != t["user"]: self.failed(eng, s, ins, "the callback does not get the user's data", "user"); continue
            bad = s.copy()
            if not s.cons.entails_eq(s.red(sub(eng.as_int(s, args[0], 32), const(t["shown as"])))): self.failed(eng, s, ins, "the callback is not told the level", "level"); continue
            s.ts["told"] = True
            out.append((s, None))
        return out


CLIENTS = [XLog]
OPTS = {"snprintf_fails": False}


def configured(eng, st, target, format, mn, up, cb=True, out=False, flush=0):
    c = Cfg(eng)
    c.put(st, "min_level", mn)
    c.put(st, "trigger_up_level", up)
    c.put(st, "target", target)
    c.put(st, "format", format)
    c.put(st, "flush_mode", flush)
    for k, bit in enumerate((ANDROID, CONSOLE, CALLBACK)): c.put(st, "cache_tgt", int(bool(target & bit)), k, 1)
    for k, bit in enumerate((F_TIME, F_TAG, F_TID)): c.put(st, "cache_fmt", int(bool(format & bit)), k, 1)
    fn = newsym(st, "callback") if cb else NULL
    us = newsym(st, "user data", null=True)
    c.put(st, "cb_pack", fn, 0, 8)
    c.put(st, "cb_pack", us, 8, 8)
    z = sym(fsym("time zone", -12, 12))
    c.put(st, "timezone_hour", ("i", z))
    n = models.slen_of(eng, st, None, ("p", c.b, const(c.f["default_tag"][0])))
    st.assume_le(addc(n, -(c.f["default_tag"][1] - 1)))
    return c, fn[1] if cb else None, us[1]


def messages():
    """(target, format, least level, trigger, level, callback set, flush mode, place in the source)"""
    both = CONSOLE | CALLBACK
    for lv in range(0, 8):                  # the filter
        for mn in range(0, 6):
            for tg in (0, both): yield tg, 0, mn, 0, lv, True, 0, False
    for tg in (0, ANDROID, CONSOLE, CALLBACK, both, both | ANDROID):      # where to
        for cb in (False, True):
            for fl in (0, 1): yield tg, 0, 1, 0, 3, cb, fl, False
    for lv in range(1, 6):                  # the level told
        for up in range(0, 6):
            yield both, F_TAG, 1, up, lv, True, 0, False
            yield CALLBACK, 0, 1, up, lv, True, 0, False
            yield CONSOLE, F_TAG, 1, up, lv, False, 0, False
    # the header (what comes after a tag of any length, cut or padded, or a function name, is beyond the numeric domain)
    for fm in (0, F_TIME, F_TAG, F_TID, F_TIME | F_TID): yield both, fm, 1, 4, 3, True, 0, False


def pre_print(eng, st, f, args):
    out = []
    for m in sorted(set(messages())):
        tg, fm, mn, up, lv, cb, fl, fu = m
        for tag in ((True, False) if fm == F_TAG and not fu else (True,)):
            s = st.copy()
            if not s.assume_eq(s.red(addc(eng.as_int(s, args[0], 32), -lv))): raise ir.AnalysisBroken("no level")
            if not s.set_nn(args[1], tag is not False): raise ir.AnalysisBroken("no tag")
            if tag is not False:
                n = models.slen_of(eng, s, None, s.canon(args[1]))
                s.assume_le(addc(n, -BIG))
            if not s.set_nn(args[2], fu) or not s.set_nn(args[4], True): raise ir.AnalysisBroken("no text")
            if fu:
                n = models.slen_of(eng, s, None, s.canon(args[2]))
                s.assume_le(addc(n, -BIG))
                line = s.red(eng.as_int(s, args[3], 32))
                for x, e in eng.scanon(s, line, 32):
                    if x.assume_ge0(addc(e, -1)): s = x; break
            c, b, u = configured(eng, s, tg, fm, mn, up, cb, flush=fl)
            ln = sym(fsym("length of the message", 0, BIG))
            s.ts["xlog"] = {"fmt": s.canon(args[4])[1], "len": ln, "cb": b, "user": u, "format": fm, "func": fu, "shown as": up if up and lv < up else lv, "what": m}
            s.ts["xspec"] = m + (tag,)
            out.append(s)
    return out


def setter(S_, name, field, valid, given, at=0, size=None, effects=()):
    """given: values tried; valid(v); effects: (field, at, size, value as a function of v)"""
    def pre(eng, st, f, args):
        out = []
        for v, stale in [(v, k) for v in given for k in (0, 1)]:
            s = st.copy()
            if not s.assume_eq(s.red(addc(eng.as_int(s, args[0], 32), -(v % (1 << 32))))):
                s = st.copy()
                if not s.assume_eq(s.red(addc(eng.as_int(s, args[0], 32), -v))): continue
            c = configured(eng, s, CONSOLE, F_TAG, 1, 0, cb=bool(stale))[0]
            for fld, a, sz, fn in effects: c.put(s, fld, stale, a, sz)
            old = sym(fsym("old value", 0, 1 << 20))
            c.put(s, field, ("i", old), at, size)
            s.ts["set"] = (v, old)
            s.ts["xspec"] = (v, stale)
            out.append(s)
        if not out: raise ir.AnalysisBroken("no value for %s" % f.name)
        return out

    @S_.fn(name, pre)
    def post(c):
        g = Cfg(c.eng)
        v, old = c.st.ts["set"]
        now = g.get(c.st, field, at, size)
        want = const(v) if valid(v) else old
        d = c.st.red(sub(now, want))
        if not c.st.cons.entails_eq(d) and not (is_const(d) and d[0] % (1 << 32) == 0):
            c.fail("%s is not what was set" % field if valid(v) else "an invalid value is taken over", field)
        if valid(v):
            for fld, a, sz, fn in effects:
                if not g.has(fld): continue
                if not c.st.cons.entails_eq(c.st.red(sub(g.get(c.st, fld, a, sz), const(fn(v))))): c.fail("what was set does not take effect", "effect")


def getter(S_, name, field):
    def pre(eng, st, f, args):
        c = Cfg(eng)
        v = sym(fsym("value", 0, 1 << 20))
        c.put(st, field, ("i", v))
        st.ts["set"] = v
        return [st]

    @S_.fn(name, pre)
    def post(c):
        if not c.st.cons.entails_eq(c.st.red(sub(c.eng.as_int(c.st, c.r, 32), c.st.ts["set"]))): c.fail("the value in use is not returned", "value")


def p21():
    S_ = Specs("xlog")

    @S_.fn("__xlog_internal_print", pre_print)
    def _(c):
        st = c.st
        tg, fm, mn, up, lv, cb, fl, fu = st.ts["xlog"]["what"]
        told, shown = bool(st.ts.get("told")), bool(st.ts.get("shown"))
        wanted = tg != 0 and mn != 0 and 1 <= lv <= 5 and lv >= mn
        if lv == 0: wanted = False
        if not wanted:
            c.holds(not told and not shown, "a message below the least level, or without a target, is passed on", "filter")
            return
        if st.ts.get("fmtfail") or st.ts.get("allocfail"): return
        c.holds(shown == bool(tg & CONSOLE), "a message for the console is not printed" if not shown else "a message that is not for the console is printed", "console")
        c.holds(told == bool(tg & CALLBACK and cb), "the callback is not called" if not told else "a callback that is not wanted is called", "callback")
        if fl and shown: c.holds(bool(st.ts.get("flushed")), "a message is not flushed although every one should be", "flush")

    bits = lambda b: lambda v: int(bool(v & b))
    ok = lambda lo, hi: lambda v: lo <= v <= hi
    ev = [-8, -1] + list(range(0, 16, 2))
    setter(S_, "xlog_set_min_level", "min_level", ok(0, 5), [-1, 6, 7] + list(range(6)))
    setter(S_, "xlog_auto_level_up", "trigger_up_level", ok(0, 6), range(6))
    setter(S_, "xlog_set_timezone", "timezone_hour", ok(-12, 12), [-13, -12, 0, 8, 12, 13, 100])
    setter(S_, "xlog_set_flush_mode", "flush_mode", ok(0, 1), [0, 1])
    setter(S_, "xlog_set_target", "target", ok(0, 14), ev, effects=[("cache_tgt", k, 1, bits(b)) for k, b in enumerate((ANDROID, CONSOLE, CALLBACK))])
    setter(S_, "xlog_set_format", "format", ok(0, 14), ev, effects=[("cache_fmt", k, 1, bits(b)) for k, b in enumerate((F_TIME, F_TAG, F_TID))])
    for n, fld in (("xlog_get_min_level", "min_level"), ("xlog_get_target", "target"), ("xlog_get_format", "format"), ("xlog_get_flush_mode", "flush_mode")): getter(S_, n, fld)

    @S_.fn("xlog_set_user_callback", lambda eng, st, f, args: [(configured(eng, st, CONSOLE, F_TAG, 1, 0), st)[1]])
    def _(c):
        g = Cfg(c.eng)
        for k, a in ((0, c.args[0]), (8, c.args[1])):
            v, w = g.get(c.st, "cb_pack", k, 8, True), c.st.canon(a)
            if not (v[1] == w[1] and c.st.cons.entails_eq(sub(v[2], w[2]))): c.fail("the callback and its data are not kept", "callback")
    return S_
