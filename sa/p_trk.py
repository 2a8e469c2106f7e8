"""P23: the tracking allocator hands out whole blocks, knows each of them, and notices misuse."""
from . import ir, models
from .lin import S, const, sym, add, sub, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, fsym, bname
from .spec import Specs
from .p_cont import freed, newsym
from .p_par import comes_from, origin
from .p_queue import mod_of

TRK = "src/mem/allocation_tracker.c"
BIG = 1 << 40
REC = ("h", ("shape", "record"), 0)
MAP = ("h", ("shape", "records"), 0)


class Lay:
    """the tracker's static state and the layout of its records"""

    def __init__(self, eng):
        self.eng = eng
        self.mod = m = mod_of(eng, TRK)
        t = [n for n in m.structs if {"allocator_id", "ptr", "size"} <= {x[0] for x in ir.struct_fields(m, n).values()}]
        if len(t) != 1: raise ir.AnalysisBroken("the record of an allocation is not found")
        self.f = {n: (o, sz) for o, (n, sz, ty) in ir.struct_fields(m, t[0]).items()}
        self.size = ir.layout(m.structs[t[0]])
        self.size = self.size[0] if isinstance(self.size, tuple) else self.size
        g = {n.lstrip("@"): x for n, x in m.globals.items()}
        for n in ("allocations", "canary_size", "canary"):
            if n not in g: raise ir.AnalysisBroken("the tracker's %s is not found" % n)
        self.map, self.csize, self.canary = [("g", g[n].name, m.path) for n in ("allocations", "canary_size", "canary")]

    def text(self, st):
        """where the mark's text lies, and the text"""
        g = self.mod.globals[self.canary[1]]
        if g.init and g.init[0] == "str": return ("p", self.canary, ZERO), g.init[1].rstrip(b"\0")
        t = self.mod.globals.get(g.init[1]) if g.init and g.init[0] == "g" else None
        if t is None or not t.init or t.init[0] != "str": raise ir.AnalysisBroken("the mark's text is not found")
        return ("p", ("g", t.name, self.mod.path), ZERO), t.init[1].rstrip(b"\0")

    def get(self, st, n, base=REC, off=ZERO, ptr=False):
        o, sz = self.f[n]
        v = self.eng.load_mem(st, None, base, addc(off, o), sz, ir.PTR if ptr else ir.int_t(sz * 8), False)
        return st.canon(v) if ptr else st.red(self.eng.as_int(st, v, sz * 8))

    def put(self, st, n, v, base=REC):
        o, sz = self.f[n]
        self.eng.put_cell(st, base, const(o), v if isinstance(v, tuple) and v[0] in ("i", "p") else I(v), sz)

    def tracker(self, st, on):
        eng = self.eng
        st.ts["trk"] = on
        g = self.mod.globals[self.canary[1]]
        if not g.const and g.init and g.init[0] == "g": eng.store_mem(st, None, self.canary, ZERO, self.text(st)[0], 8)
        if on:
            st.setobj(MAP, kind="heap", state="live", fam=None)
            eng.store_mem(st, None, self.map, ZERO, ("p", MAP, ZERO), 8)
            eng.put_cell(st, self.csize, ZERO, I(len(self.text(st)[1])), 8)
        else: eng.store_mem(st, None, self.map, ZERO, NULL, 8)
        st.ts["record"] = None

    def record(self, st, kind, ptr, n, own):
        """what the tracker knows about ptr: None, live, foreign / foreign higher (of another allocator), freed"""
        st.ts["record"] = kind
        if kind is None: return
        st.setobj(REC, kind="heap", state="live", fam="libc", size=const(self.size))
        self.put(st, "ptr", ptr)
        self.put(st, "size", ("i", n))
        self.put(st, "freed", 1 if kind == "freed" else 0)
        self.put(st, "file_line", ("i", sym(fsym("line", 0, 1 << 20))))
        self.put(st, "allocator_id", ("i", own if not str(kind).startswith("foreign") else self.other(st, own, kind == "foreign")))

    def other(self, st, own, less):
        e = sym(fsym("another allocator", 0, 255))
        st.assume_ge0(addc(sub(own, e) if less else sub(e, own), -1))
        return e


class Trk(Client):
    """the map of records by its contract (P13), the ends of the process, and what is reported"""
    name = "tracker"
    rule = "tracker"

    def failed(self, eng, st, ins, what, key):
        eng.report("spec", st, ins, self.rule, "%s: %s" % (ins.fn.name, what), key=key)

    def key(self, ts): return repr([ts.get(k) for k in ("case", "record", "log", "allocfail", "moved", "rec")]) if "trk" in ts else None

    def log(self, st, *e):
        st.ts["log"] = st.ts.get("log", ()) + (e,)

    def on_call(self, eng, st, ins, name, args):
        if "trk" not in st.ts: return None
        if name in ("abort", "__assert_fail", "exit", "_exit"):
            if not st.ts.get("misuse") and not st.ts.get("allocfail"): self.failed(eng, st, ins, "the process is aborted although nothing is wrong", "abort")
            return []
        if name.startswith("lcu_"):
            f = eng.find_fn(name, ins) if hasattr(eng, "find_fn") else None
            c = [x for x in eng.prog.all_funcs() if x.name == name and x.blocks]
            return eng.call_in_context(st, c[0], list(args), ins) if c else None
        h = getattr(self, "call_" + name, None)
        return h(eng, st, ins, args) if h else None

    def ours(self, eng, st, ins, m):
        m = st.canon(m)
        if m[1] == MAP: return True
        self.failed(eng, st, ins, "another map than the tracker's is used", "map")
        return False

    def call_hashmap_get(self, eng, st, ins, args):
        if not self.ours(eng, st, ins, args[0]): return []
        k = st.canon(args[1])
        w = st.ts.get("address")
        if w is not None and at(st, k, w[1], w[2]): return [(st, NULL if st.ts["record"] in (None, "gone") else ("p", REC, ZERO))]
        for e in logged(st, "put"):
            if at(st, k, e[1][1], e[1][2]): return [(st, e[2])]
        return [(st, NULL)]

    def call_hashmap_put(self, eng, st, ins, args):
        if not self.ours(eng, st, ins, args[0]): return []
        k, v = st.canon(args[1]), st.canon(args[2])
        self.log(st, "put", k, v)
        st.ts["rec"] = v
        return [(st, NULL)]

    def call_hashmap_remove(self, eng, st, ins, args):
        if not self.ours(eng, st, ins, args[0]): return []
        k = st.canon(args[1])
        w = st.ts.get("address")
        if w is None or not (k[0] == "p" and k[1] == w[1] and st.cons.entails_eq(st.red(sub(k[2], w[2])))):
            self.failed(eng, st, ins, "the record of another address is removed", "key"); return []
        self.log(st, "remove")
        st.ts["record"] = "gone"
        st.setobj(REC, kind="heap", state="freed", fam="libc", freed_at="hashmap_remove")
        return [(st, NULL)]

    def call_hashmap_clear(self, eng, st, ins, args):
        if not self.ours(eng, st, ins, args[0]): return []
        self.log(st, "clear")
        return [(st, None)]

    def call_hashmap_free(self, eng, st, ins, args):
        if not self.ours(eng, st, ins, args[0]): return []
        self.log(st, "free map")
        st.setobj(MAP, kind="heap", state="freed", fam=None, freed_at="hashmap_free")
        return [(st, None)]

    def call_hashmap_create(self, eng, st, ins, args):
        f = st.copy()
        models.alloc_failed(eng, f)
        st.setobj(MAP, kind="heap", state="live", fam=None)
        l = st.canon(args[5])
        lk = [st.canon(eng.load_mem(st, None, l[1], addc(l[2], 8 * k), 8, ir.PTR)) for k in range(3)] if st.is_null(l) is not True else [NULL] * 3
        self.log(st, "create", tuple(st.canon(a) for a in args[1:5]), tuple(lk))
        return [(f, NULL), (st, ("p", MAP, ZERO))]

    def call_hashmap_foreach(self, eng, st, ins, args):
        if not self.ours(eng, st, ins, args[0]): return []
        cb = st.canon(args[1])
        c = [x for x in eng.prog.all_funcs() if x.blocks and cb[1][0] == "fn" and x.name == cb[1][1] and x.module.path == TRK] or [x for x in eng.prog.all_funcs() if x.blocks and cb[1][0] == "fn" and x.name == cb[1][1]]
        if not c: self.failed(eng, st, ins, "the records are not examined", "foreach"); return []
        live, done = [st], []
        for k, v in st.ts["entries"]:
            nx = []
            for s in live:
                for x, r in eng.call_in_context(s, c[0], [k, v, args[2]], ins):
                    for go in (True, False):
                        for y in eng.assume(x.copy(), r, go):
                            if y.cons.bot: continue
                            if not go and k is not st.ts["entries"][-1][0]: y.ts["moved"] = "stopped"
                            (nx if go else done).append(y)
            live = nx
        return [(s, None) for s in live + done]

    def call_memcmp(self, eng, st, ins, args):
        a, b = st.canon(args[0]), st.canon(args[1])
        n = st.red(eng.as_int(st, args[2], 64))
        if not is_const(n) or n[0] > 16: return None
        same = True
        for k in range(n[0]):
            v, w = [st.red(eng.as_int(st, eng.load_mem(st, None, p[1], st.red(addc(p[2], k)), 1, ir.int_t(8), False), 8)) for p in (a, b)]
            d = st.red(sub(v, w))
            if st.cons.entails_eq(d): continue
            if st.cons.entails_ge0(addc(d, -1)) or st.cons.entails_le(addc(d, 1)): same = False; break
            return None
        return [(st, I(0 if same else 1))]

    call_bcmp = call_strncmp = call_memcmp

    def on_icall(self, eng, st, ins, f, args):
        if "trk" not in st.ts: return None
        f = st.canon(f)
        if st.ts.get("report") is None or f[1] != st.ts["report"]: self.failed(eng, st, ins, "something other than the caller's report function is called", "report"); return []
        self.log(st, "report", tuple(st.canon(a) for a in args))
        return [(st, None)]

    def on_free(self, eng, st, ins, p, fam):
        if "trk" in st.ts and st.ts.get("block") is not None and st.canon(p)[1] == st.ts["block"]: self.log(st, "release", st.canon(p))

    def on_realloc(self, eng, st, ins, ob, nb): st.ts["moved"] = (ob, nb)


CLIENTS = [Trk]
ABORTS = True         # misuse ends the process; where, is part of the property
OPTS = {"unroll": 20}


def number(eng, st, arg, w, hi=None):
    e = eng.ucanon(st, eng.as_int(st, arg, w), w)
    if len(e) == 1: return st, st.red(e[0][1])
    for s, x in e:
        if s.assume_ge0(x): return s, s.red(x)
    raise ir.AnalysisBroken("no number")


def canaries(eng, st, b, off, n, change=None):
    """the marks before and behind a block of n bytes at off; change: (index, value) of one that was overwritten"""
    lay = Lay(eng)
    p, t = lay.text(st)
    for k, ch in enumerate(t):
        for w, at in ((0, addc(off, k - len(t))), (1, add(off, addc(n, k)))):
            v = I(ch)
            if change == (w, k, -1): v = ("i", sym(fsym("overwritten", -128, ch - 1)))
            if change == (w, k, 1): v = ("i", sym(fsym("overwritten", ch + 1, 127)))
            eng.put_cell(st, b, st.red(at), v, 1)


def marked(c, st, b, off, n):
    """both canaries stand around the n bytes at off"""
    p, t = Lay(c.eng).text(st)
    L = const(len(t))
    for at, what in ((sub(off, L), "before"), (add(off, n), "behind")):
        if comes_from(st, b, st.red(at), L, p[1], p[2]): continue
        for k, ch in enumerate(t):
            v = c.eng.load_mem(st, None, b, st.red(addc(at, k)), 1, ir.int_t(8), False)
            if not st.cons.entails_eq(st.red(addc(c.eng.as_int(st, v, 8), -ch))):
                c.fail("there is no mark %s the block" % what, "mark"); return False
    return True


def logged(st, what): return [e for e in st.ts.get("log", ()) if e[0] == what]


def at(st, v, b, off):
    v = st.canon(v)
    return v[0] == "p" and v[1] == b and st.cons.entails_eq(st.red(sub(v[2], off)))


def recorded(c, st, ptr, n, ident, line):
    """the tracker has a record of the block"""
    lay = Lay(c.eng)
    r = st.ts.get("rec") or (("p", REC, ZERO) if st.ts["record"] == "freed" else None)
    if r is None: c.fail("the block is not recorded", "record"); return
    ptr = st.canon(ptr)
    p = logged(st, "put")
    if st.ts.get("rec") and not (len(p) == 1 and at(st, p[0][1], ptr[1], ptr[2])): c.fail("the record is kept under another address", "record")
    b, o = r[1], r[2]
    if not at(st, lay.get(st, "ptr", b, o, True), ptr[1], ptr[2]): c.fail("the record has another address", "record")
    for name, want in (("size", n), ("allocator_id", ident), ("freed", ZERO), ("file_line", line)):
        if want is None: continue
        d = st.red(sub(lay.get(st, name, b, o), want))
        if not st.cons.entails_eq(d) and not (is_const(d) and d[0] % 256 == 0 and name != "size"): c.fail("the record's %s is not that of the block" % name, "record %s" % name)


def trackers(fn):
    """entry states with the tracker off and on"""
    def pre(eng, st, f, args):
        out = []
        for on in (False, True):
            s = st.copy()
            lay = Lay(eng)
            lay.tracker(s, on)
            out += fn(eng, s, f, args, lay, on)
        for s in out: s.ts.setdefault("case", s.ts["trk"])
        return out
    return pre


def p23():
    S_ = Specs("tracker")

    # ---- the tracker itself
    @S_.fn("allocation_tracker_resize_for_canary", trackers(lambda eng, s, f, args, lay, on: [s]))
    def _(c):
        for s, n in c.eng.ucanon(c.st.copy(), c.eng.as_int(c.st, c.args[0], 64), 64):
            want = addc(n, 2 * len(Lay(c.eng).text(s)[1]) if s.ts["trk"] else 0)
            if not s.assume_le(addc(want, 1 - (1 << 64))): continue
            d = s.red(sub(c.eng.as_int(s, c.r, 64), want))
            if not s.cons.entails_eq(d):
                if all(x.cons.bot or x.cons.entails_eq(x.red(sub(e, want))) for x, e in c.eng.ucanon(s.copy(), c.eng.as_int(s, c.r, 64), 64)): continue
                c.fail("not the size with the room for the marks", "size")

    def pre_alloc(eng, st, f, args, lay, on):
        out = []
        z = st.copy()
        if z.set_nn(args[1], False):
            z.ts["case"] = "null"
            out.append(z)
        if not st.set_nn(args[1], True): return out
        for kind in (None, "freed", "live") if on else (None,):
            s = st.copy()
            s, n = number(eng, s, args[2], 64)
            s.assume_le(addc(n, -BIG))
            p = s.canon(args[1])
            t = len(lay.text(s)[1]) if on else 0
            ret = ("p", p[1], s.red(addc(p[2], t)))
            s.ts["address"] = ret if on else None
            lay.record(s, kind, ret, sym(fsym("old size", 0, BIG)), s.red(eng.as_int(s, args[0], 8)))
            if kind == "live": s.ts["misuse"] = True
            s.ts["case"] = (on, kind)
            out.append(s)
        return out

    @S_.fn("allocation_tracker_notify_alloc", trackers(pre_alloc))
    def _(c):
        st = c.st
        if st.ts["case"] == "null":
            c.holds(st.is_null(c.r) is True, "NULL does not stay NULL", "null")
            c.holds(not st.ts.get("log"), "a block that is none is recorded", "record")
            return
        p = st.canon(c.args[1])
        if not st.ts["trk"]:
            c.holds(at(st, c.r, p[1], p[2]), "without the tracker the block is not passed on as it is", "off")
            return
        if st.ts.get("misuse"): c.fail("a block that is still in use is recorded again", "misuse"); return
        t = len(Lay(c.eng).text(st)[1])
        if not at(st, c.r, p[1], addc(p[2], t)): c.fail("the block does not begin behind the mark", "address"); return
        n = st.red(c.eng.as_int(st, c.args[2], 64))
        if marked(c, st, p[1], st.red(addc(p[2], t)), n):
            recorded(c, st, c.r, n, st.red(c.eng.as_int(st, c.args[0], 8)), st.red(c.eng.as_int(st, c.args[5], 32)))

    def pre_known(check):
        def pre(eng, st, f, args, lay, on):
            out = []
            z = st.copy()
            if z.set_nn(args[1], False):
                z.ts["case"] = "null"
                out.append(z)
            if not st.set_nn(args[1], True): return out
            _, t = lay.text(st)
            kinds = [("live", None), (None, None), ("foreign", None), ("foreign higher", None)] + ([("freed", None)] + [("live", (w, k, d)) for w in (0, 1) for k in range(len(t)) for d in (-1, 1)] if check else []) if on else [(None, None)]
            for kind, ch in kinds:
                s = st.copy()
                p = s.canon(args[1])
                n = sym(fsym("size of the block", 1, BIG))
                s.ts["address"], s.ts["size"] = p, n
                lay.record(s, kind, p, n, s.red(eng.as_int(s, args[0], 8)))
                if on and kind: canaries(eng, s, p[1], p[2], n, ch)
                if on and (kind != "live" or ch): s.ts["misuse"] = True
                s.ts["case"] = (on, kind, ch)
                out.append(s)
            return out
        return pre

    @S_.fn("allocation_tracker_notify_free", trackers(pre_known(True)))
    def _(c):
        st = c.st
        if st.ts["case"] == "null":
            c.holds(st.is_null(c.r) is True and not st.ts.get("log"), "NULL does not stay NULL", "null")
            return
        p = st.canon(c.args[1])
        if not st.ts["trk"]:
            c.holds(at(st, c.r, p[1], p[2]), "without the tracker the block is not passed on as it is", "off")
            return
        if st.ts.get("misuse"):
            on, kind, ch = st.ts["case"]
            c.fail("a block whose mark was overwritten is released as if nothing had happened" if ch else "a block of another allocator is accepted" if str(kind).startswith("foreign") else "a block that is not in use is accepted", "misuse"); return
        t = len(Lay(c.eng).text(st)[1])
        c.holds(at(st, c.r, p[1], addc(p[2], -t)), "not the beginning of the block with its mark", "address")
        c.holds(len(logged(st, "remove")) == 1, "the record of a released block stays behind", "record")

    @S_.fn("allocation_tracker_ptr_size", trackers(pre_known(False)))
    def _(c):
        st = c.st
        r = st.red(c.eng.as_int(st, c.r, 64))
        if st.ts["case"] == "null" or not st.ts["trk"]:
            c.holds(st.cons.entails_eq(r), "a size nobody can know", "size")
            return
        if st.ts.get("misuse"): c.fail("an unknown block is accepted", "misuse"); return
        c.holds(st.cons.entails_eq(st.red(sub(r, st.ts["size"]))), "not the size that was asked for", "size")

    def pre_leaks(eng, st, f, args, lay, on):
        out = []
        for shape in ((), ("live",), ("freed",), ("live", "live"), ("freed", "live"), ("live", "freed")) if on else ((),):
            for rep in (True, False):
                s = st.copy()
                if not s.set_nn(args[0], rep): raise ir.AnalysisBroken("no report function")
                s.ts["report"] = s.canon(args[0])[1] if rep else None
                es, live = [], []
                for i, kind in enumerate(shape):
                    b, m = ("h", ("shape", "record%d" % i), 0), ("h", ("shape", "block%d" % i), 0)
                    s.setobj(b, kind="heap", state="live", fam="libc", size=const(lay.size))
                    s.setobj(m, kind="heap", state="live", fam="libc")
                    n = sym(fsym("size %d" % i, 0, BIG))
                    ptr = ("p", m, const(64))
                    for nm, v in (("ptr", ptr), ("size", ("i", n)), ("freed", 1 if kind == "freed" else 0), ("file_line", ("i", sym(fsym("line %d" % i, 0, 1 << 20)))), ("allocator_id", ("i", sym(fsym("allocator %d" % i, 0, 255))))): lay.put(s, nm, v, b)
                    if kind == "live":
                        canaries(eng, s, m, const(64), n)
                        live.append((ptr, n, b))
                    es.append((ptr, ("p", b, ZERO)))
                s.ts["entries"], s.ts["live"] = tuple(es), tuple(live)
                s.ts["case"] = (on, shape, rep)
                out.append(s)
        return out

    @S_.fn("allocation_tracker_expect_no_allocations", trackers(pre_leaks))
    def _(c):
        st, eng, lay = c.st, c.eng, Lay(c.eng)
        total = ZERO
        for p, n, b in st.ts["live"]: total = add(total, n)
        c.holds(not st.ts.get("moved"), "not every record is examined", "all")
        c.holds(st.cons.entails_eq(st.red(sub(eng.as_int(st, c.r, 64), total))), "not the number of bytes in use", "total")
        rp = [e[1] for e in logged(st, "report")]
        if st.ts["report"] is None: return
        if not c.holds(len(rp) == len(st.ts["live"]), "not each block in use is reported, once", "reports"): return
        user = st.canon(c.args[1])
        for (p, n, b), a in zip(st.ts["live"], rp):
            ok = len(a) == 6 and at(st, a[0], p[1], p[2]) and st.cons.entails_eq(st.red(sub(eng.as_int(st, a[1], 64), n)))
            ok = ok and at(st, a[2], b, const(lay.f["file_path"][0])) and at(st, a[3], b, const(lay.f["func_name"][0]))
            ok = ok and st.cons.entails_eq(st.red(sub(eng.as_int(st, a[4], 32), lay.get(st, "file_line", b))))
            c.holds(ok, "the report is not about the block", "report")
            c.holds(len(a) == 6 and (a[5] == user or at(st, a[5], user[1], user[2]) if user[0] == "p" else True), "the report does not get the user's data", "user")

    @S_.fn("allocation_tracker_init", trackers(lambda eng, s, f, args, lay, on: [s]))
    def _(c):
        st, lay = c.st, Lay(c.eng)
        cr = logged(st, "create")
        m = st.canon(c.eng.load_mem(st, None, lay.map, ZERO, 8, ir.PTR))
        if st.ts["trk"]:
            c.holds(not st.ts.get("log") and m[1] == MAP, "a second start throws the records away", "again")
            return
        if not cr:
            c.holds(st.is_null(m) is True, "the tracker is on without a map", "map")
            return
        c.holds(len(cr) == 1 and m[1] == MAP, "the records' map is not kept", "map")
        c.holds(all(st.is_null(x) is not True for x in cr[0][2][1:]), "the records' map has no lock", "lock")
        v = c.eng.load_mem(st, None, lay.csize, ZERO, 8, ir.int_t(64), False)
        c.holds(st.cons.entails_eq(st.red(addc(c.eng.as_int(st, v, 64), -len(lay.text(st)[1])))), "the marks' size is not that of their text", "mark")

    @S_.fn("allocation_tracker_uninit", trackers(lambda eng, s, f, args, lay, on: [s]))
    def _(c):
        st, lay = c.st, Lay(c.eng)
        m = st.canon(c.eng.load_mem(st, None, lay.map, ZERO, 8, ir.PTR))
        c.holds(st.is_null(m) is True, "the tracker is still on", "off")
        c.holds(len(logged(st, "free map")) == int(st.ts["trk"]), "the records are not released, once", "release")

    @S_.fn("allocation_tracker_reset", trackers(lambda eng, s, f, args, lay, on: [s]))
    def _(c): c.holds(len(logged(c.st, "clear")) == int(c.st.ts["trk"]), "the records are not forgotten", "clear")

    # ---- the allocation functions on top of it
    def result(c, st, n, old=0):
        """the block handed out: room for n bytes, marked and recorded if the tracker is on; its base or None"""
        r = st.canon(c.r)
        if r[0] != "p" or r[1][0] != "h" or freed(st, r[1]): c.fail("no block of its own is handed out", "block"); return None
        t = len(Lay(c.eng).text(st)[1]) if st.ts["trk"] else 0
        if not st.cons.entails_eq(st.red(addc(r[2], -t))): c.fail("the block does not begin behind the mark", "address"); return None
        z = st.osize(r[1])
        rec = logged(st, "put")
        size = n
        if st.ts["trk"]:
            if len(rec) != 1: c.fail("the block is not recorded, once", "record"); return None
            q = rec[0][2]
            size = Lay(c.eng).get(st, "size", q[1], q[2])
            if not st.cons.entails_ge0(st.red(sub(size, n))): c.fail("fewer bytes are recorded than were asked for", "size"); return None
            recorded(c, st, c.r, size, const(99), None)
            marked(c, st, r[1], st.red(r[2]), size)
        if z is None or not st.cons.entails_ge0(st.red(sub(z, addc(size, 2 * t)))): c.fail("the block is smaller than what was asked for", "size"); return None
        return r

    def refused(c, st):
        if st.is_null(c.r) is not True: return False
        c.holds(not logged(st, "put"), "a block that could not be handed out is recorded", "record")
        return True

    def sized(k):
        def pre(eng, st, f, args, lay, on):
            s, n = number(eng, st, args[k], 64)
            s.assume_le(addc(n, -BIG))
            s.ts["n"] = n
            return [s]
        return trackers(pre)

    def post_malloc(c):
        st = c.st
        if refused(c, st):
            c.holds(st.ts.get("allocfail"), "nothing is handed out although there is memory", "refused")
            return
        result(c, st, st.ts["n"])

    S_.fn("lcu_malloc_trace", sized(0))(post_malloc)
    S_.fn("lcu_malloc", sized(0))(post_malloc)

    def pre_calloc(eng, st, f, args, lay, on):
        out = []
        for k in (0, 1, 8, None):
            s = st.copy()
            s, n = number(eng, s, args[0], 64)
            if k is None:
                s, m = number(eng, s, args[1], 64)
                # a product that no size can hold
                if not (s.assume_ge0(addc(n, -(1 << 32))) and s.assume_eq(addc(m, -(1 << 33)))): continue
                s.ts["n"] = None
            else:
                s.assume_le(addc(n, -BIG))
                if not s.assume_eq(s.red(addc(eng.as_int(s, args[1], 64), -k))): raise ir.AnalysisBroken("no item size")
                s.ts["n"] = s.red(tuple_scale(n, k))
            s.ts["case"] = (on, k)
            out.append(s)
        return out

    def tuple_scale(n, k):
        from .lin import scale
        return scale(n, k)

    def post_calloc(c):
        st = c.st
        if refused(c, st): return
        if st.ts["n"] is None: c.fail("a block is handed out for a size that cannot be represented", "overflow"); return
        r = result(c, st, st.ts["n"])
        if r is None or st.cons.entails_le(st.ts["n"]): return
        x = st.copy()
        k = sym(fsym("any byte", 0, 1 << 44))
        if not x.assume_ge0(addc(sub(st.ts["n"], k), -1)): return
        v = c.eng.load_mem(x, None, r[1], x.red(add(r[2], k)), 1, ir.int_t(8), False)
        c.holds(x.cons.entails_eq(x.red(c.eng.as_int(x, v, 8))), "the block is not zeroed", "zero")

    S_.fn("lcu_calloc_trace", trackers(pre_calloc))(post_calloc)
    S_.fn("lcu_calloc", trackers(pre_calloc))(post_calloc)

    def pre_dup(limited):
        def pre(eng, st, f, args, lay, on):
            if not st.set_nn(args[0], True): raise ir.AnalysisBroken("no text")
            p = st.canon(args[0])
            n = models.slen_of(eng, st, None, p)
            st.assume_le(addc(n, -BIG))
            out = []
            if not limited:
                st.ts["n"] = n
                return [st]
            s, m = number(eng, st, args[1], 64)
            for cut in (False, True):
                x = s.copy()
                if not (x.assume_ge0(addc(sub(n, m), -1)) if cut else x.assume_ge0(sub(m, n))): continue
                x.ts["n"] = x.red(m if cut else n)
                x.ts["case"] = (on, cut)
                out.append(x)
            return out
        return trackers(pre)

    def post_dup(c):
        st = c.st
        n = st.ts["n"]
        if refused(c, st):
            c.holds(st.ts.get("allocfail"), "nothing is handed out although there is memory", "refused")
            return
        r = result(c, st, addc(n, 1))
        if r is None: return
        p = st.canon(c.args[0])
        c.holds(comes_from(st, r[1], st.red(r[2]), n, p[1], p[2]), "the text is not copied", "text")
        v = c.eng.load_mem(st, None, r[1], st.red(add(r[2], n)), 1, ir.int_t(8), False)
        if not st.cons.entails_eq(st.red(c.eng.as_int(st, v, 8))) and not comes_from(st, r[1], st.red(add(r[2], n)), const(1), p[1], add(p[2], n)): c.fail("the text is not terminated", "end")

    for n, lim in (("lcu_strdup_trace", False), ("lcu_strdup", False), ("lcu_strndup_trace", True), ("lcu_strndup", True)): S_.fn(n, pre_dup(lim))(post_dup)

    def used(eng, st, v, lay, on):
        """v is a block that was handed out earlier and is in use"""
        if not st.set_nn(v, True): raise ir.AnalysisBroken("no block")
        v = st.canon(v)
        n = sym(fsym("size of the block", 1, BIG))
        st.setobj(v[1], kind="heap", state="live", fam="libc")
        st.ts["address"], st.ts["size"], st.ts["block"] = v, n, v[1]
        if on:
            lay.record(st, "live", v, n, const(99))
            canaries(eng, st, v[1], v[2], n)
        return n

    def let_go(c, st):
        """the block in use was released, once, from its very beginning, and its record with it"""
        v = st.ts["address"]
        t = len(Lay(c.eng).text(st)[1]) if st.ts["trk"] else 0
        rel = logged(st, "release")
        if not c.holds(len(rel) == 1, "the block is not released, once", "release"): return
        c.holds(at(st, rel[0][1], v[1], addc(v[2], -t)), "what is released is not the beginning of the block", "release")
        c.holds(len(logged(st, "remove")) == int(st.ts["trk"]), "the record of a released block stays behind", "record")

    def kept(c, st):
        c.holds(not logged(st, "release") and not logged(st, "remove") and not st.ts.get("moved"), "the block is released although it stays in use", "release")

    def pre_free(inner):
        def pre(eng, st, f, args, lay, on):
            out = []
            if inner:
                z = st.copy()
                if z.set_nn(args[0], False):
                    z.ts["case"] = "null"
                    out.append(z)
                if not st.set_nn(args[0], True): return out
                p = st.canon(args[0])
                e = st.copy()
                eng.store_mem(e, None, p[1], p[2], NULL, 8)
                v = newsym(st, "block")
                eng.store_mem(st, None, p[1], p[2], v, 8)
                e.ts["case"] = "null"
                out.append(e)
            else:
                v = args[0]
                z = st.copy()
                if z.set_nn(v, False):
                    z.ts["case"] = "null"
                    out.append(z)
            used(eng, st, v, lay, on)
            st.ts["case"] = (on, "used")
            return out + [st]
        return trackers(pre)

    def post_free(c):
        if c.st.ts["case"] == "null": c.holds(not c.st.ts.get("log"), "something is released that was never handed out", "null"); return
        let_go(c, c.st)

    S_.fn("lcu_free", pre_free(False))(post_free)

    @S_.fn("lcu_free_and_reset", pre_free(True))
    def _(c):
        post_free(c)
        p = c.st.canon(c.args[0])
        if c.st.is_null(p) is not True: c.holds(c.st.is_null(c.st.canon(c.eng.load_mem(c.st, None, p[1], p[2], 8, ir.PTR))) is True, "the pointer is not reset", "reset")

    def pre_realloc(eng, st, f, args, lay, on):
        out = []
        for has in (False, True):
            for k in ("none", "less", "more"):
                s = st.copy()
                if not has and not s.set_nn(args[0], False): continue
                n = used(eng, s, args[0], lay, on) if has else None
                s, w = number(eng, s, args[1], 64)
                if k == "none":
                    if not s.assume_eq(w): continue
                else:
                    if not (s.assume_ge0(addc(w, -1)) and s.assume_le(addc(w, -BIG))): continue
                    if has and not (s.assume_ge0(sub(n, w)) if k == "less" else s.assume_ge0(addc(sub(w, n), -1))): continue
                    if not has and k == "less": continue
                s.ts["n"], s.ts["case"] = s.red(w), (on, has, k)
                out.append(s)
        return out

    def post_realloc(c):
        st = c.st
        on, has, k = st.ts["case"]
        n = st.ts["n"]
        if k == "none":
            c.holds(st.is_null(c.r) is True, "a block of no bytes", "zero")
            return let_go(c, st) if has else None
        if st.is_null(c.r) is True:
            c.holds(st.ts.get("allocfail"), "nothing is handed out although there is memory", "refused")
            if has: kept(c, st)
            return
        if not has:
            result(c, st, n)
            return
        v, old = st.ts["address"], st.ts["size"]
        r = st.canon(c.r)
        if at(st, r, v[1], v[2]):
            kept(c, st)
            if not on or k != "less": c.fail("the block stays as it is although it may be too small", "size")
            return
        if not on:
            mv = st.ts.get("moved")
            z = st.osize(r[1])
            c.holds(mv is not None and mv[0] == v[1] and mv[1] == r[1] and st.cons.entails_eq(r[2]), "the contents are lost", "contents")
            c.holds(z is not None and st.cons.entails_ge0(st.red(sub(z, n))), "the block is smaller than what was asked for", "size")
            return
        if result(c, st, n) is None: return
        c.holds(comes_from(st, r[1], st.red(r[2]), n if k == "less" else old, v[1], v[2]), "the contents are lost", "contents")
        let_go(c, st)

    for n in ("lcu_realloc_trace", "lcu_realloc"): S_.fn(n, trackers(pre_realloc))(post_realloc)
    return S_
