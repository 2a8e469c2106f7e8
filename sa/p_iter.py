"""P14, directories: every entry but "." and ".." is handed to the handler once, until the handler asks to stop."""
from . import models
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, fsym
from .spec import Specs, Ob, last_ret
from .p_cont import same, newsym

D_NAME = 19


class DirClient(Client):
    name = "dir"
    rule = "iteration"

    def on_icall(self, eng, st, ins, f, args):
        h = st.ts.get("handler")
        if h is None or st.canon(f)[1] != h: return None
        d = st.ts.get("dir")
        if d is None: return [(st, I(0))]
        if d == "stopped": eng.report("spec", st, ins, self.rule, "the handler is called again after it asked to stop", key="stop")
        elif d[0] != "entry" or d[2]: eng.report("spec", st, ins, self.rule, "the handler is called without a new directory entry", key="visit")
        else:
            info = st.canon(args[0])
            nm = st.canon(eng.load_mem(st, None, info[1], addc(info[2], 8), 8, models.ir.PTR))
            di = st.canon(eng.load_mem(st, None, info[1], info[2], 8, models.ir.PTR))
            if nm[1] != d[1] or st.red(nm[2]) != const(D_NAME): eng.report("spec", st, ins, self.rule, "the handler is given the name of something else", key="name")
            if di[1] != st.ts["path"]: eng.report("spec", st, ins, self.rule, "the handler is given another directory", key="dirname")
            if st.canon(args[1])[1] != st.ts["user"]: eng.report("spec", st, ins, self.rule, "the user's data is not passed on", key="user")
        go, stop = st.copy(), st
        go.ts["dir"] = ("entry", d[1], True) if isinstance(d, tuple) else d
        stop.ts["dir"] = "stopped"
        r = sym(fsym("handler result", -(1 << 31), (1 << 31) - 1))
        out = [(go, I(0))]
        for s in eng.assume(stop, ("cmp", "ne", ("i", r), I(0), 32), True):
            if not s.cons.bot: out.append((s, ("i", r)))
        return out

    def key(self, ts):
        d = ts.get("dir")
        return repr((d if not isinstance(d, tuple) else (d[0], d[2]), ts.get("dots"), ts.get("statfail"), ts.get("openfail")))


def entry_kinds(eng, st, ins, r):
    """the cases of a directory entry's name: [(state, is it "." or "..")]"""
    b = r[1]
    ln = models.slen_of(eng, st, ins, ("p", b, const(D_NAME)))

    def char(s, i, c, eq):
        v = eng.load_mem(s, None, b, const(D_NAME + i), 1, models.ir.int_t(8), False)
        return [x for x in eng.assume(s, ("cmp", "eq" if eq else "ne", v, I(c), 8), True) if not x.cons.bot]

    def length(s, n):
        return s if s.assume_eq(addc(ln, -n)) else None
    out = []
    a = st.copy()
    if a.assume_ge0(addc(ln, -3)): out.append((a, False))
    for n, pat in ((1, ((46, True),)), (2, ((46, True), (46, True)))):
        s = length(st.copy(), n)
        cur = [s] if s is not None else []
        for i, (c, _) in enumerate(pat):
            out += [(y, False) for x in cur for y in char(x.copy(), i, c, False)]
            cur = [y for x in cur for y in char(x, i, c, True)]
        out += [(x, ".." if n == 2 else ".") for x in cur]
    return out


def m_readdir(eng, st, ins, args):
    d = st.ts.get("dir")
    if d == "stopped": eng.report("spec", st, ins, DirClient.rule, "the directory is read on after the handler asked to stop", key="stop")
    if isinstance(d, tuple) and not d[2] and not st.ts.get("statfail"):
        eng.report("spec", st, ins, DirClient.rule, "a directory entry other than . and .. is skipped", key="skipped")
    out = []
    for s, r in models.m_readdir(eng, st, ins, args):
        if r is NULL:
            s.ts["dir"] = ("end", NULLB, True)
            out.append((s, r))
            continue
        for x, dots in entry_kinds(eng, s, ins, r):
            x.ts["dir"] = ("entry", r[1], bool(dots))
            x.ts["dots"] = dots
            out.append((x, r))
    return out


def m_stat(eng, st, ins, args):
    base = models.m_outstruct(1, 144)
    out = []
    for s, r in base(eng, st, ins, args):
        if not (r[0] == "i" and r[1] == ZERO): s.ts["statfail"] = True
        out.append((s, r))
    return out


def m_opendir(orig):
    def f(eng, st, ins, args):
        out = []
        for s, r in orig(eng, st, ins, args):
            if s.is_null(r) is True: s.ts["openfail"] = True
            out.append((s, r))
        return out
    return f


def m_strcmp(orig):
    """comparison with "." and ".." """
    def f(eng, st, ins, args):
        for a, b in ((args[0], args[1]), (args[1], args[0])):
            a, b = st.canon(a), st.canon(b)
            d = st.ts.get("dir")
            g = eng.find_global(b[1]) if b[1][0] == "g" else None
            if isinstance(d, tuple) and d[1] == a[1] and st.red(a[2]) == const(D_NAME) and g is not None and g.init and g.init[0] == "str":
                t = bytes(g.init[1])
                if t in (b".\0", b"..\0"): return [(st, I(0 if st.ts.get("dots") == t[:-1].decode() else 1))]
        return orig(eng, st, ins, args)
    return f


def dirs():
    S_ = Specs("iteration")

    def pre(eng, s, f, args):
        for a in args[:2]: s.set_nn(a, True)
        s.ts["path"] = s.canon(args[0])[1]
        s.ts["handler"] = s.canon(args[1])[1]
        s.ts["user"] = s.canon(args[2])[1]
        s.ts["dir"] = ("start", NULLB, True)
        return [s]

    @S_.fn("file_iterator_foreach", pre)
    def _(c):
        st = c.st
        d = st.ts["dir"]
        ok = st.cons.constval(st.red(c.eng.as_int(st, c.r, 32))) == 0
        if ok and (st.ts.get("statfail") or st.ts.get("openfail")): c.fail("success is reported although entries were not visited", "status")
        if ok and isinstance(d, tuple) and d[0] != "end" and d[0] != "start": c.fail("success is reported before the end of the directory", "end")
        if ok and isinstance(d, tuple) and d[0] == "start": c.fail("success is reported without reading the directory", "end")
        if not ok and not (st.ts.get("statfail") or st.ts.get("openfail") or isinstance(d, tuple) and d[0] == "start"):
            c.fail("failure is reported although every entry was visited or the handler stopped", "status")
    return S_


CLIENTS = [DirClient]
_std = models.standard()
OPTS = {"merge_cap": 200, "ret_cap": 200, "loop_entry_cap": 64,
        "models": {"readdir": m_readdir, "stat": m_stat, "lstat": m_stat, "opendir": m_opendir(_std["opendir"]),
                   "strcmp": m_strcmp(_std["strcmp"])}}
