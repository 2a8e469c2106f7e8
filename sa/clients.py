"""Rule clients: memory life-cycle, bounds, ownership, initialisation, lock discipline.

Every client records what it looked at (obligations) and files reports through
Engine.report; a report names the construct, the call stack and the path."""
from . import lin
from .lin import S, const, sub, add, addc, is_const, ZERO, show
from .engine import Client, NULLB, NULL, bname, I
from .ir import loc_str


def root_name(b):
    return bname(b)


class Counted(Client):
    def __init__(self):
        self.sites = {}

    def count(self, rule, ins):
        self.sites.setdefault(rule, set()).add(id(ins) if ins is not None else 0)


class MemClient(Counted):
    """null dereference, use after release, bad release, bounds"""
    name = "mem"

    def __init__(self, bounds=True, null=True, uaf=True, fam=True, maybe=False):
        super().__init__()
        self.bounds, self.null, self.uaf, self.fam = bounds, null, uaf, fam

    # --- helpers
    def dead(self, eng, st, ins, b, what):
        o = st.objs.get(b)
        if o and o.get("state") == "freed" and self.uaf:
            eng.report("uaf", st, ins, "use-after-release",
                       "%s of %s which was released at %s" % (what, bname(b), o.get("freed_at", "?")), key=what)

    def bound(self, eng, st, ins, b, off, length, what):
        if not self.bounds: return
        size = eng.obj_size(st, b)
        if size is None: return
        self.count("bounds", ins)
        c = st.cons
        end = add(off, length)
        if not c.entails_le(sub(end, size)) or not c.entails_ge0(off):
            # zero-length accesses touch nothing
            if c.entails_le(length) and not is_const(length): return
            if is_const(length) and length[0] == 0: return
            k = c.strided()
            if k is not None and k.entails_le(sub(end, size)) and k.entails_ge0(off): return
            eng.report("bounds", st, ins, "out-of-bounds",
                       "%s %s [%s, %s) of an object of %s bytes is not shown to stay inside" %
                       (what, bname(b), show(st.red(off)), show(st.red(end)), show(size)), key=what)

    # --- events
    def on_access(self, eng, st, ins, b, off, size, write, val=None):
        self.count("access", ins)
        self.dead(eng, st, ins, b, "write" if write else "read")
        self.bound(eng, st, ins, b, off, const(size), "write to" if write else "read of")
        if write and b[0] == "g":
            g = eng.find_global(b)
            if g is not None and g.const:
                eng.report("bounds", st, ins, "write-to-constant", "write to constant %s" % b[1])

    def on_range(self, eng, st, ins, b, off, length, write, what):
        self.count("access", ins)
        self.dead(eng, st, ins, b, what)
        if length is not None:
            self.bound(eng, st, ins, b, off, length, what + (" into" if write else " from"))

    def on_use(self, eng, st, ins, p):
        self.count("use", ins)
        self.dead(eng, st, ins, p[1], "use")

    def on_strread(self, eng, st, ins, b, off, ln):
        pass

    def on_nullderef(self, eng, st, ins, p):
        if self.null:
            eng.report("null", st, ins, "null-dereference", "a NULL pointer is dereferenced here", key=None)

    def on_maybe_null(self, eng, st, ins, p):
        self.count("deref", ins)

    def on_free(self, eng, st, ins, p, fam):
        self.count("release", ins)
        b = p[1]
        o = st.objs.get(b) or {}
        if self.uaf:
            if o.get("state") == "freed":
                eng.report("uaf", st, ins, "double-release", "%s was already released at %s" % (bname(b), o.get("freed_at", "?")))
            if b[0] in ("a", "g", "fn"):
                eng.report("uaf", st, ins, "bad-release", "%s is not heap memory" % bname(b))
            elif not is_const(st.red(p[2])) or st.red(p[2])[0] != 0:
                if b[0] == "h" or o.get("base"):
                    eng.report("uaf", st, ins, "bad-release", "release of an interior pointer %s+%s" % (bname(b), show(st.red(p[2]))))
        if self.fam and o.get("fam") and fam and o["fam"] != fam:
            eng.report("family", st, ins, "mismatched-release",
                       "%s obtained from the %s allocator at %s is released through %s" % (bname(b), o["fam"], o.get("site"), fam))

    def on_icall(self, eng, st, ins, f, args):
        for a in args:
            if a[0] == "p":
                a = st.canon(a)
                self.dead(eng, st, ins, a[1], "pass to callback")
        return None


def reachable(eng, st, ret, extra=()):
    """bases reachable from the outside when the entry function returns"""
    seen = set()
    todo = []

    def add_v(v):
        if v is None: return
        if v[0] == "p":
            b = st.canon(v)[1]
            if b not in seen:
                seen.add(b); todo.append(b)
        elif v[0] == "i":
            for s, _ in st.red(v[1])[1]:
                k = S.keys[s]
                if isinstance(k, tuple) and k[0] == "addr" and k[1] not in seen:
                    seen.add(k[1]); todo.append(k[1])
        elif v[0] == "agg":
            for x in v[1].values(): add_v(x)
    add_v(ret)
    for v in extra: add_v(v)
    for b in list(st.mem):
        if b[0] == "g" or (b[0] == "s" and (st.objs.get(b) or {}).get("state") != "freed"):
            if b not in seen:
                seen.add(b); todo.append(b)
    while todo:
        b = todo.pop()
        if (st.objs.get(b) or {}).get("state") == "freed" and b[0] == "h": continue
        for o, (v, sz) in st.mem.get(b, {}).items(): add_v(v)
    return seen


class LeakClient(Counted):
    """ownership: when an entry function returns, every object it acquired is released,
    returned, or reachable from memory the caller can see"""
    name = "leak"

    def __init__(self):
        super().__init__()
        self.top = None

    def on_alloc(self, eng, st, ins, size, fam):
        self.count("acquire", ins)

    def at_exit(self, eng, st, fn, ret, roots=()):
        reach = reachable(eng, st, ret, roots)
        for b, o in st.objs.items():
            if b[0] != "h" or o.get("state") != "live" or b in reach: continue
            if o.get("kind") not in ("heap", "res") or o.get("esc"): continue
            last = None
            for bl in fn.blocks.values():
                for i in bl.ins:
                    if i.op == "ret": last = i
            eng.report("leak", st, last, "leak",
                       "%s acquired at %s is neither released nor reachable when %s returns" %
                       ({"heap": "memory", "res": "%s handle" % o.get("fam")}[o["kind"]], o.get("site"), fn.name), key=o.get("site"))

    def on_drop(self, eng, st, ins, b):
        o = st.objs.get(b) or {}
        if o.get("kind") in ("heap", "res") and o.get("state") == "live" and not o.get("esc"):
            eng.report("leak", st, ins, "leak", "object acquired at %s is lost when the loop repeats" % o.get("site"), key=o.get("site"))


class DangleClient(Counted):
    """at the return of an entry function no visible memory still points to a released object"""
    name = "dangle"

    def at_exit(self, eng, st, fn, ret, roots=()):
        reach = reachable(eng, st, ret, roots)
        last = None
        for bl in fn.blocks.values():
            for i in bl.ins:
                if i.op == "ret": last = i
        if ret is not None and ret[0] == "p":
            b = st.canon(ret)[1]
            o = st.objs.get(b) or {}
            if o.get("state") == "freed":
                eng.report("dangle", st, last, "returns-released", "%s returns an object released at %s" % (fn.name, o.get("freed_at")), key=o.get("freed_at"))
            if b[0] == "a":
                eng.report("dangle", st, last, "returns-local", "%s returns the address of a local" % fn.name)
        for b in reach:
            if (st.objs.get(b) or {}).get("state") == "freed": continue
            if b[0] == "a": continue
            for o, (v, sz) in st.mem.get(b, {}).items():
                if v[0] != "p": continue
                t = st.canon(v)[1]
                to = st.objs.get(t) or {}
                if to.get("state") == "freed":
                    eng.report("dangle", st, last, "dangling-pointer",
                               "%s[%s] still points to an object released at %s when %s returns" %
                               (bname(b), show(o), to.get("freed_at"), fn.name), key=(bname(b), to.get("freed_at")))
                if t[0] == "a":
                    eng.report("dangle", st, last, "escaping-local", "%s[%s] keeps the address of a local when %s returns" % (bname(b), show(o), fn.name), key=bname(b))


class UninitClient(Counted):
    name = "uninit"

    def on_uninit(self, eng, st, ins, b, off, size):
        self.count("uninit", ins)
        eng.report("uninit", st, ins, "uninitialised-read", "local memory is read before it is written")


LOCK_FNS = {
    "pthread_mutex_lock": ("L", "m"), "pthread_mutex_unlock": ("U", "m"),
    "pthread_rwlock_rdlock": ("L", "r"), "pthread_rwlock_wrlock": ("L", "w"), "pthread_rwlock_unlock": ("U", None),
}


class LockClient(Counted):
    """lock pairing and condition variable discipline"""
    name = "lock"

    def lid(self, st, p):
        p = st.canon(p)
        return (p[1], st.red(p[2]))

    def held(self, st):
        return st.ts.get("locks", ())

    def key(self, ts):
        return ("locks", tuple((repr(l[0]), l[1]) for l in ts.get("locks", ())))

    def acquire(self, eng, st, ins, lid, kind):
        self.count("lock", ins)
        h = self.held(st)
        for l, k, w in h:
            if l == lid:
                eng.report("lock", st, ins, "double-lock", "%s is already held since %s" % (self.lname(lid), w))
        st.ts["locks"] = h + ((lid, kind, loc_str(ins)),)

    def release(self, eng, st, ins, lid):
        self.count("unlock", ins)
        h = self.held(st)
        for n, (l, k, w) in enumerate(h):
            if l == lid:
                st.ts["locks"] = h[:n] + h[n + 1:]
                return
        eng.report("lock", st, ins, "unlock-not-held", "%s is released but not held here" % self.lname(lid))

    def lname(self, lid):
        if lid[1] == ("cb",): return "%s (lock callbacks)" % bname(lid[0])
        return "%s+%s" % (bname(lid[0]), show(lid[1]))

    def on_call(self, eng, st, ins, name, args):
        f = LOCK_FNS.get(name)
        if f:
            lid = self.lid(st, args[0])
            if f[0] == "L": self.acquire(eng, st, ins, lid, f[1])
            else: self.release(eng, st, ins, lid)
            return [(st, I(0))]
        if name in ("pthread_cond_wait", "pthread_cond_timedwait"):
            self.count("wait", ins)
            lid = self.lid(st, args[1])
            if not any(l == lid for l, k, w in self.held(st)):
                eng.report("lock", st, ins, "wait-without-lock", "condition wait without holding its mutex")
        if name in ("pthread_mutex_destroy", "pthread_rwlock_destroy"):
            lid = self.lid(st, args[0])
            if any(l == lid for l, k, w in self.held(st)):
                eng.report("lock", st, ins, "destroy-held", "%s is destroyed while held" % self.lname(lid))
        return None

    def fn_field(self, f):
        """(base, off, field name) of the memory cell a called function pointer came from"""
        if f[0] == "p" and f[1][0] == "s":
            k = S.keys[f[1][1]]
            if isinstance(k, tuple) and k[0] == "pinit":
                return k[1], k[2], S.name(f[1][1]).split("->")[-1]
        return None

    def on_icall(self, eng, st, ins, f, args):
        ff = self.fn_field(f)
        if not ff: return None
        b, off, nm = ff
        if nm in ("acquire", "lock"):
            # the pair of callbacks is configured together
            rel = eng.load_mem(st, None, b, addc(off, 8), 8, _ptr())
            if rel[0] == "p" and rel[1][0] == "s":
                i = S.info[rel[1][1]]
                S.info[rel[1][1]] = (bname(b) + "->" + {"acquire": "release", "lock": "unlock"}[nm],) + tuple(i[1:])
                if st.is_null(rel) is None: st.set_nn(rel, True)
            self.acquire(eng, st, ins, (b, ("cb",)), "m")
            return [(st, eng.unknown(st, ins.ty, "rc") if ins.res else None)]
        if nm in ("release", "unlock"):
            acq = eng.load_mem(st, None, b, addc(off, -8), 8, _ptr())
            if st.is_null(acq) is True:
                return [(st, eng.unknown(st, ins.ty, "rc") if ins.res else None)]
            self.release(eng, st, ins, (b, ("cb",)))
            return [(st, eng.unknown(st, ins.ty, "rc") if ins.res else None)]
        return None

    def at_exit(self, eng, st, fn, ret, roots=()):
        for l, k, w in self.held(st):
            last = None
            for bl in fn.blocks.values():
                for i in bl.ins:
                    if i.op == "ret": last = i
            eng.report("lock", st, last, "lock-held-at-return", "%s taken at %s is still held when %s returns" % (self.lname(l), w, fn.name), key=w)


def _ptr():
    from . import ir
    return ir.PTR
