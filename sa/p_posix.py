"""P25: the portable threads, locks and semaphores are the POSIX ones, one to one."""
from . import ir
from .lin import S, const, sym, sub, addc, is_const, ZERO, show
from .engine import NULL, I, Client, fsym, bname
from .spec import Specs
from .p_cont import freed, newsym

SRC = "src/thread/portable_thread_posix.c"
KINDS = {"mutex": "pthread_mutex_", "rwlock": "pthread_rwlock_", "sem": "sem_"}


class Posix(Client):
    """the calls to the system made on the current path, and what it answered"""
    name = "posix"

    def key(self, ts):
        c = ts.get("sys")
        return repr([(n, r) for n, a, r in c]) if c else None

    def on_call(self, eng, st, ins, name, args):
        if "sys" not in st.ts or not name.startswith(("pthread_", "sem_")): return None
        e = sym(fsym(name + " answers", -(1 << 31), (1 << 31) - 1))
        if name == "pthread_setname_np": e = sym(fsym("name set", 0, 1 << 16))
        if len(st.ts["sys"]) < 4: st.ts["sys"] = st.ts["sys"] + ((name, tuple(st.canon(a) for a in args), e),)
        if name in RESULT and st.is_null(args[1]) is not True:
            # the result goes where the system is told to put it
            out = []
            p = st.canon(args[1])
            v = newsym(st, "result", null=True) if name == "pthread_join" else ("i", sym(fsym("value", 0, (1 << 31) - 1)))
            good, bad = st.copy(), st
            if good.assume_eq(e) and not good.cons.bot:
                eng.put_cell(good, p[1], p[2], v, RESULT[name])
                good.ts["result"] = v
                out.append((good, I(0)))
            for up in (True, False):
                b = bad.copy()
                if (b.assume_ge0(addc(e, -1)) if up else b.assume_le(addc(e, 1))) and not b.cons.bot: out.append((b, ("i", e)))
            return out
        return [(st, ("i", e))]


RESULT = {"pthread_join": 8, "sem_getvalue": 4}      # calls that store a result at their second argument, and its size
CLIENTS = [Posix]


def begin(eng, st, f, args):
    st.ts["sys"] = ()
    return st


def handle_states(eng, st, f, args):
    """no place for a handle / a place without an object / a place with one"""
    out = []
    n = begin(eng, st.copy(), f, args)
    if n.set_nn(args[0], False):
        n.ts["case"] = "nowhere"
        out.append(n)
    if not st.set_nn(args[0], True): raise ir.AnalysisBroken("no place for a handle")
    p = st.canon(args[0])
    e = begin(eng, st.copy(), f, args)
    eng.store_mem(e, None, p[1], p[2], NULL, 8)
    e.ts["case"] = "empty"
    out.append(e)
    l = begin(eng, st.copy(), f, args)
    o = ("h", ("shape", "object"), 0)
    l.setobj(o, kind="heap", state="live", fam=None)
    eng.store_mem(l, None, p[1], p[2], ("p", o, ZERO), 8)
    l.ts["case"] = "live"
    out.append(l)
    return out


def place_states(eng, st, f, args):
    """no place for the handle / a place with anything in it"""
    out = []
    n = begin(eng, st.copy(), f, args)
    if n.set_nn(args[0], False):
        n.ts["case"] = "nowhere"
        out.append(n)
    if not st.set_nn(args[0], True): raise ir.AnalysisBroken("no place for a handle")
    begin(eng, st, f, args)
    st.ts["case"] = "place"
    out.append(st)
    return out


def inner(f, kind):
    """where the POSIX object lies in the library's"""
    t = "%%struct.portable_%s_posix_t" % kind
    if t not in f.module.structs: return 0
    o = [(sz, o) for o, (n, sz, ty) in ir.struct_fields(f.module, t).items()]
    return max(o)[1] if o else 0


def calls(c, *names): return [x for x in c.st.ts["sys"] if x[0] in names]


def answered(c, n):
    r = c.st.red(c.eng.as_int(c.st, c.r, 32))
    d = c.st.red(sub(r, n if isinstance(n, tuple) else const(n)))
    if not c.st.cons.entails_eq(d) and not (is_const(d) and d[0] % (1 << 32) == 0):
        for s, e in c.eng.scanon(c.st.copy(), r, 32):
            m = n if isinstance(n, tuple) else const(n)
            if not s.cons.bot and not s.cons.entails_eq(s.red(sub(e, m))): return False
    return True


def equal(c, st, a, b):
    a, b = st.canon(a), st.canon(b)
    if a[0] == "p" and b[0] == "p" and a[1] == b[1]: return st.cons.entails_eq(st.red(sub(a[2], b[2])))
    if a[0] == "i" or b[0] == "i": return st.cons.entails_eq(st.red(sub(c.eng.as_int(st, a, 32), c.eng.as_int(st, b, 32))))
    return st.is_null(a) is True and st.is_null(b) is True


def stored(c):
    p = c.st.canon(c.args[0])
    return c.st.canon(c.eng.load_mem(c.st, None, p[1], p[2], 8, ir.PTR))


def allocations(st):
    """what was allocated on this path and is still there"""
    return [b for b, o in st.objs.items() if b[0] == "h" and o.get("state") == "live" and o.get("fam") is not None]


def refused(c):
    c.holds(answered(c, -1), "without an object the answer is not -1", "answer")
    c.holds(not c.st.ts["sys"], "the system is called without an object", "call without object")


def result(c, k, size):
    """what the system stored as its result stands in the caller's variable"""
    v, w = c.st.ts.get("result"), c.args[k]
    ok = c.st.copy()
    if not ok.assume_eq(c.st.ts["sys"][0][2]) or ok.cons.bot or ok.is_null(w) is True: return
    p = ok.canon(w)
    x = c.eng.load_mem(ok, None, p[1], p[2], size, ir.PTR if size == 8 else ir.int_t(size * 8))
    c.holds(v is not None and equal(c, ok, x, v), "the result is not passed on", "result")


def use(S_, name, kind, call, extra=0):
    @S_.fn(name, handle_states)
    def post(c):
        if c.st.ts["case"] != "live": return refused(c)
        q = c.st.ts["sys"]
        if not c.holds([x[0] for x in q] == [call], "%s is not what is called, once" % call, "call"): return
        n, a, r = q[0]
        o = ("p", ("h", ("shape", "object"), 0), const(inner(c.f, kind)))
        c.holds(equal(c, c.st, a[0], o), "%s is not called for the object of the handle" % call, "object")
        if extra: result(c, 1, 4)
        c.holds(answered(c, r), "the answer of %s is not passed on" % call, "answer")
        h = stored(c)
        c.holds(equal(c, c.st, h, ("p", o[1], ZERO)) and not freed(c.st, o[1]), "the handle does not stay valid", "handle")


def destroy(S_, name, kind, call):
    @S_.fn(name, handle_states)
    def post(c):
        if c.st.ts["case"] != "live": return refused(c)
        q = c.st.ts["sys"]
        if not c.holds([x[0] for x in q] == [call], "%s is not what is called, once" % call, "call"): return
        n, a, r = q[0]
        b = ("h", ("shape", "object"), 0)
        c.holds(equal(c, c.st, a[0], ("p", b, const(inner(c.f, kind)))), "%s is not called for the object of the handle" % call, "object")
        c.holds(answered(c, r), "the answer of %s is not passed on" % call, "answer")
        c.holds(freed(c.st, b), "the object's memory stays behind", "memory")
        c.holds(c.st.is_null(stored(c)) is True, "the handle still leads to what was destroyed", "handle")


def create(S_, name, kind, call, given, named=None):
    """given: (index of the system call's argument, how it follows from the caller's)"""
    @S_.fn(name, place_states)
    def post(c):
        st = c.st
        if st.ts["case"] == "nowhere": return refused(c)
        if name == "portable_thread_create" and st.is_null(c.args[2]) is True: return refused(c)
        q = [x for x in st.ts["sys"] if x[0] == call]
        rest = [x for x in st.ts["sys"] if x[0] not in (call, "pthread_setname_np" if named else call)]
        c.holds(not rest, "%s is called" % (rest[0][0] if rest else ""), "other call")
        live = allocations(st)
        if not q:
            c.holds(answered(c, -2), "without memory the answer is not -2", "answer")
            c.holds(st.is_null(stored(c)) is True, "the handle is set although nothing was created", "handle")
            c.holds(not live, "memory stays behind", "memory")
            c.holds(not st.ts["sys"], "the system is called although there is no memory", "call")
            return
        if not c.holds(len(q) == 1, "%s is called more than once" % call, "call"): return
        n, a, r = q[0]
        for i, g in given:
            if not g(c, st, a[i]): c.fail("%s does not get the caller's argument %d" % (call, i), "argument %d" % i)
        c.holds(answered(c, r), "the answer of %s is not passed on" % call, "answer")
        ok = st.copy()
        if ok.assume_eq(r) and not ok.cons.bot and not (st.cons.entails_ge0(addc(r, -1))):
            h = ok.canon(c.eng.load_mem(ok, None, st.canon(c.args[0])[1], st.canon(c.args[0])[2], 8, ir.PTR))
            o = a[0]
            c.holds(o[0] == "p" and h[0] == "p" and h[1] == o[1] and ok.cons.entails_eq(addc(sub(o[2], h[2]), -inner(c.f, kind))) and o[1][0] == "h", "the handle is not the object that was created", "handle")
            c.holds(o[0] == "p" and not freed(ok, o[1]), "the object that was created is released", "memory")
            c.holds(live == [o[1]], "other memory stays behind", "memory")
            if named: named(c, ok)
        if not st.cons.entails_eq(r):
            bad = [x for x in (st.copy(), st.copy())]
            bad = [x for x, up in zip(bad, (True, False)) if (x.assume_ge0(addc(r, -1)) if up else x.assume_le(addc(r, 1))) and not x.cons.bot]
            for x in bad:
                h = x.canon(c.eng.load_mem(x, None, st.canon(c.args[0])[1], st.canon(c.args[0])[2], 8, ir.PTR))
                c.holds(x.is_null(h) is True, "the handle is set although nothing was created", "handle")
                c.holds(not live, "the memory of an object that could not be created stays behind", "memory")


def arg(k): return lambda c, st, v: equal(c, st, v, c.args[k])


def attribute(c, st, v):
    t = c.args[1]
    if st.is_null(t) is True: return st.is_null(v) is True
    p = st.canon(t)
    fs = {x[0]: o for o, x in ir.struct_fields(c.f.module, "%struct.portable_thread_attr_t").items()}
    w = st.canon(c.eng.load_mem(st, None, p[1], addc(p[2], fs["platform_attr"]), 8, ir.PTR))
    return equal(c, st, v, w)


def name_set(c, st):
    """the thread carries the name of its attributes exactly if there is one"""
    q = [x for x in st.ts["sys"] if x[0] == "pthread_setname_np"]
    t = c.args[1]
    if st.is_null(t) is True:
        c.holds(not q, "a name is set that nobody gave", "name")
        return
    p = st.canon(t)
    first = c.eng.load_mem(st, None, p[1], p[2], 1, ir.int_t(8), False)
    for has in (True, False):
        for x in c.eng.assume(st.copy(), ("cmp", "eq", first, I(0), 8), not has):
            if x.cons.bot: continue
            if has:
                c.holds(len(q) == 1 and equal(c, x, q[0][1][1], ("p", p[1], p[2])), "the name of the attributes is not given to the thread", "name")
            else: c.holds(not q, "an empty name is set", "name")


def join_states(eng, st, f, args):
    out = []
    n = begin(eng, st.copy(), f, args)
    if n.set_nn(args[0], False):
        n.ts["case"] = "nowhere"
        out.append(n)
    begin(eng, st, f, args)
    o = ("h", ("shape", "object"), 0)
    st.setobj(o, kind="heap", state="live", fam=None)
    p = st.canon(args[0])
    st.ts["case"] = "live"
    b = p[1]
    k = fsym("thread id", 0, (1 << 64) - 1)
    if not st.set_nn(args[0], True): raise ir.AnalysisBroken("no thread")
    eng.store_mem(st, None, b, addc(p[2], inner(f, "thread")), ("i", sym(k)), 8)
    st.setobj(b, state="live", fam=None, kind="heap")
    st.ts["tid"] = sym(k)
    out.append(st)
    return out


def p25():
    S_ = Specs("posix")
    for kind, ops in (("mutex", ("lock", "unlock")), ("rwlock", ("rdlock", "wrlock", "unlock")), ("sem", ("wait", "post"))):
        for op in ops: use(S_, "portable_%s_%s" % (kind, op), kind, KINDS[kind] + op)
        destroy(S_, "portable_%s_destroy" % kind, kind, KINDS[kind] + "destroy")
    use(S_, "portable_sem_getvalue", "sem", "sem_getvalue", extra=1)
    create(S_, "portable_mutex_init", "mutex", "pthread_mutex_init", [(1, arg(1))])
    create(S_, "portable_rwlock_init", "rwlock", "pthread_rwlock_init", [(1, arg(1))])
    create(S_, "portable_sem_init", "sem", "sem_init", [(1, arg(1)), (2, arg(2))])
    create(S_, "portable_thread_create", "thread", "pthread_create", [(1, attribute), (2, arg(2)), (3, arg(3))], named=name_set)

    @S_.fn("portable_thread_join", join_states)
    def post(c):
        if c.st.ts["case"] == "nowhere": return refused(c)
        q = c.st.ts["sys"]
        if not c.holds([x[0] for x in q] == ["pthread_join"], "pthread_join is not what is called, once", "call"): return
        n, a, r = q[0]
        c.holds(c.st.cons.entails_eq(c.st.red(sub(c.eng.as_int(c.st, a[0], 64), c.st.ts["tid"]))), "pthread_join is not called for the thread of the handle", "object")
        result(c, 1, 8)
        c.holds(answered(c, r), "the answer of pthread_join is not passed on", "answer")
        ok = c.st.copy()
        if ok.assume_eq(r) and not ok.cons.bot:
            c.holds(freed(ok, ok.canon(c.args[0])[1]), "the memory of a joined thread stays behind", "memory")
    return S_
