"""P11: amounts and placement of the ring buffers.  P12: message queues."""
from . import ir
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, dsym, fsym, Client
from .spec import Specs, Ob, Case, M32, M64, split, need, last_ret
from .models import rng

RB = "__ring_buffer_t"


class AbortClient(Client):
    """no specified operation gives up the process"""
    name = "abort"

    def on_call(self, eng, st, ins, name, args):
        if name in ("abort", "__assert_fail", "exit", "_exit"):
            eng.report("spec", st, ins, self.rule, "the process is aborted here", key="abort")
        return None


def abort_client(rule):
    class A(AbortClient):
        pass
    A.rule = rule
    return A


# ---------------------------------------------------------------- ring_buffer (power of two, free running indexes)
def nonnull(st, v):
    return st.set_nn(v, True)


def sized_int(eng, st, v, w):
    """narrow an unconstrained integer argument to its unsigned range: [(state, Expr)]"""
    return eng.ucanon(st, eng.as_int(st, v, w), w)


class Ring:
    """P size, A readable bytes, as linear symbols over the fields"""

    def __init__(self, eng, st, mod, base, minsize=4):
        self.o = o = Ob(eng, st, mod, base, RB)
        self.base = base
        self.P, self.IN, self.OUT = o.i(st, "size"), o.i(st, "in"), o.i(st, "out")
        self.buf = o.p(st, "buf")

    @staticmethod
    def states(eng, st, mod, base, minsize=4):
        """the object invariant: size a power of two >= 4, in - out (mod 2^32) <= size, buf has size bytes"""
        r = Ring(eng, st, mod, base)
        if not st.assume_ge0(addc(r.P, -minsize)): return []
        eng.set_pow2(st, r.P, 32)
        st.set_nn(r.buf, True)
        if r.buf[1] not in st.objs or "size" not in st.objs[r.buf[1]]: st.setobj(r.buf[1], size=r.P, kind="ring memory")
        out = []
        for k in (0, M32):
            s = st.copy()
            a = addc(sub(r.IN, r.OUT), k)
            if s.assume_ge0(a) and s.assume_le(sub(a, r.P)): out.append((s, s.red(a)))
        return out


def ring_entry(eng, st, f, args, argn=0):
    """states with args[argn] a valid ring; st.ts['ring'] = (P, A, IN, OUT, buf)"""
    h = st.canon(args[argn])
    if not st.set_nn(h, True): return []
    out = []
    m = ring_mod(eng)
    for s, a in Ring.states(eng, st, m, h[1]):
        r = Ring(eng, s, m, h[1])
        s.ts["ring"] = (r.P, a, r.IN, r.OUT, r.buf)
        out.append(s)
    return out


def ring_mod(eng):
    for m in eng.prog.modules:
        if m.path.endswith("src/ring/ringbuffer.c"): return m
    raise ir.AnalysisBroken("ringbuffer.c is gone")


def ringbuf_mod(eng):
    for m in eng.prog.modules:
        if m.path.endswith("src/ring/ring_buf.c"): return m
    raise ir.AnalysisBroken("ring_buf.c is gone")


def now(c, argn=0):
    return Ring(c.eng, c.st, ring_mod(c.eng), c.st.canon(c.args[argn])[1])


def same_indexes(c, which, argn=0, key=""):
    P, A, IN, OUT, buf = c.st.ts["ring"]
    r = now(c, argn)
    if "in" in which: c.eq(r.IN, IN, "the write position must not change", "in" + key, M32)
    if "out" in which: c.eq(r.OUT, OUT, "the read position must not change", "out" + key, M32)
    if "size" in which: c.eq(r.P, P, "the size must not change", "size")


def consistent(c, base, key=""):
    """invariant on return: size power of two, readable bytes within [0,size], memory behind buf large enough"""
    eng = c.eng
    r = Ring(eng, c.st, ring_mod(eng), base)
    ok = False
    for k in (-M32, 0, M32):
        a = addc(sub(r.IN, r.OUT), k)
        if c.st.cons.entails_ge0(a) and c.st.cons.entails_le(sub(a, r.P)): ok = True
    c.holds(ok, "readable bytes are not shown to stay within the size", "range" + key)
    c.holds(eng.is_pow2(c.st, r.P), "the size is not shown to be a power of two", "pow2" + key)
    sz = eng.obj_size(c.st, r.buf[1]) if r.buf[1] != NULLB else None
    if sz is not None:
        c.holds(c.st.cons.entails_le(sub(add(r.buf[2], r.P), sz)), "the memory behind buf is smaller than the size", "bufsize" + key)


def minimum(st, a, b):
    """[(state, min(a,b))]"""
    out = []
    s = st.copy()
    if s.assume_le(sub(a, b)): out.append((s, s.red(a)))
    s = st.copy()
    if s.assume_ge0(addc(sub(a, b), -1)): out.append((s, s.red(b)))
    return out


def check_copies(c, st, copies, ring_side, buf, P, start, other, obase, n, what):
    """copies (dst,doff,src,soff,len) move other[0,n) <-> ring positions start.. (mod P) in order without gap"""
    cs = st.cons
    pos = ZERO
    left = [x for x in copies if not cs.entails_le(x[4])]
    while left:
        # the pieces may be moved in any order
        i = next((i for i, x in enumerate(left) if cs.entails_eq(sub(x[3] if ring_side == "dst" else x[1], add(obase, pos)))), 0)
        db, do, sb, so, ln = left.pop(i)
        if ring_side == "dst": rb, ro, ob_, oo = db, do, sb, so
        else: rb, ro, ob_, oo = sb, so, db, do
        good = (rb == buf[1] and ob_ == other)
        if good:
            good = cs.entails_eq(sub(oo, add(obase, pos)))
            d = sub(sub(ro, buf[2]), add(start, pos))
            good = good and (cs.entails_eq(d) or cs.entails_eq(add(d, P)))
            good = good and cs.entails_le(sub(add(sub(ro, buf[2]), ln), P))
        if not good:
            c.fail("%s: bytes are not placed at consecutive positions of the ring" % what, what + " placement")
            return
        pos = st.red(add(pos, ln))
    if not cs.entails_eq(sub(pos, n)):
        c.fail("%s: %s bytes are moved but %s are accounted for" % (what, show(pos), show(st.red(n))), what + " amount")


def start_of(c, st, pos, P):
    """[(state, pos mod P)]"""
    return c.eng.umod(st.copy(), 32, pos, P)


def p11():
    S_ = Specs("ring-buffer")

    def e0(eng, st, f, args): return ring_entry(eng, st, f, args, 0)

    def rw(eng, st, f, args):
        out = []
        for s in ring_entry(eng, st, f, args, 0):
            if len(args) == 3:
                b = s.copy()
                if b.set_nn(s.canon(args[1]), True): out.append(b)
            else: out.append(s)
        return out

    @S_.fn("RingBuffer_write", rw)
    def _(c):
        P, A, IN, OUT, buf = c.st.ts["ring"]
        base = c.st
        for s0, n in sized_int(c.eng, base, c.args[2], 32):
            for s1, want in minimum(s0, n, sub(P, A)):
                c.st = s1
                for s, r in c.ret():
                    c.st = s
                    c.eq(r, want, "write must accept min(requested, free) bytes", "amount")
                    x = now(c)
                    c.eq(x.IN, add(IN, want), "write position must advance by the bytes accepted", "in", M32)
                    same_indexes(c, ("out", "size"))
                    for s2, st0 in start_of(c, s, IN, P):
                        c.st = s2
                        check_copies(c, s2, s2.ts.get("copies", ()), "dst", buf, P, st0, s2.canon(c.args[1])[1], ZERO, want, "write")
                    c.st = s
                    consistent(c, c.st.canon(c.args[0])[1])

    def reader(take, hastarget):
        def post(c):
            P, A, IN, OUT, buf = c.st.ts["ring"]
            base = c.st
            for s0, n in sized_int(c.eng, base, c.args[-1], 32):
                for s1, want in minimum(s0, n, A):
                    c.st = s1
                    for s, r in c.ret():
                        c.st = s
                        c.eq(r, want, "must deliver min(requested, readable) bytes", "amount")
                        x = now(c)
                        c.eq(x.OUT, add(OUT, want) if take else OUT, "read position must advance by the bytes delivered" if take else "peek must not consume", "out", M32)
                        same_indexes(c, ("in", "size"))
                        if hastarget:
                            for s2, st0 in start_of(c, s, OUT, P):
                                c.st = s2
                                check_copies(c, s2, s2.ts.get("copies", ()), "src", buf, P, st0, s2.canon(c.args[1])[1], ZERO, want, "read")
                            c.st = s
                        consistent(c, c.st.canon(c.args[0])[1])
        return post
    S_.add("RingBuffer_read", rw, reader(True, True))
    S_.add("RingBuffer_peek", rw, reader(False, True))
    S_.add("RingBuffer_discard", rw, reader(True, False))

    def query(w, want, what):
        def post(c):
            P, A, IN, OUT, buf = c.st.ts["ring"]
            for s, r in c.ret(w):
                c.st = s
                c.eq(r, want(P, A, IN, OUT), what, "value", 1 << w if w == 32 else None)
                same_indexes(c, ("in", "out", "size"))
        return post
    S_.add("RingBuffer_available_read", e0, query(32, lambda P, A, i, o: A, "must return the bytes written and not yet read"))
    S_.add("RingBuffer_available_write", e0, query(32, lambda P, A, i, o: sub(P, A), "must return the free bytes"))
    S_.add("RingBuffer_real_capacity", e0, query(32, lambda P, A, i, o: P, "must return the size"))
    S_.add("RingBuffer_current_read_position", e0, query(32, lambda P, A, i, o: o, "must return the read position"))
    S_.add("RingBuffer_current_write_position", e0, query(32, lambda P, A, i, o: i, "must return the write position"))

    def boolean(cond, what):
        def post(c):
            P, A, IN, OUT, buf = c.st.ts["ring"]
            e = cond(P, A)
            base = c.st
            for s, r in bool_ret(c):
                c.st = s
                if r: c.holds(s.cons.entails_eq(e), what + " answered yes although it is not so", "yes")
                else: c.holds(s.cons.entails_ne(s.red(e)), what + " answered no although it is so", "no")
                same_indexes(c, ("in", "out", "size"))
        return post
    S_.add("RingBuffer_is_empty", e0, boolean(lambda P, A: A, "is_empty"))
    S_.add("RingBuffer_is_full", e0, boolean(lambda P, A: sub(P, A), "is_full"))

    @S_.fn("RingBuffer_clear", e0)
    def _(c):
        x = now(c)
        c.eq(x.IN, x.OUT, "a cleared ring must be empty", "empty", M32)
        same_indexes(c, ("size",))

    def created(c, size_of, exact_min):
        eng, st = c.eng, c.st
        r = st.canon(c.r)
        n = st.is_null(r)
        if n is True: return
        if n is None and not st.set_nn(r, True): return
        x = Ring(eng, st, ring_mod(eng), r[1])
        c.eq(x.IN, x.OUT, "a new ring must be empty", "empty", M32)
        consistent(c, r[1])
        for s, req in size_of(st):
            c.st = s
            if exact_min: c.holds(s.cons.entails_ge0(sub(x.P, req)), "the ring is smaller than requested", "capacity")
            else: c.holds(s.cons.entails_le(sub(x.P, req)), "the ring is larger than the memory given", "capacity")

    def by_length(st, e, w=32):
        """one state per power of two and per range between two of them (and 0)"""
        out = []
        for k in range(-1, w):
            lo = 0 if k < 0 else 1 << k
            for a, b in ((lo, lo), (lo + 1, 2 * lo - 1)):
                if a > b: continue
                s = st.copy()
                if s.assume_ge0(addc(e, -a)) and s.assume_le(addc(e, -b)): out.append(s)
        return out

    def mem_entry(eng, st, f, args):
        out = []
        h = st.canon(args[0])
        if not st.set_nn(h, True): return []
        hdr = max(o + sz for o, (n, sz, t) in ir.struct_fields(ring_mod(eng), "%struct." + RB).items())
        for s0, n in sized_int(eng, st, args[1], 32):
            small = s0.copy()
            parts = [small] if small.assume_le(addc(n, 1 - hdr)) else []
            if s0.assume_ge0(addc(n, -hdr)): parts += by_length(s0, addc(n, -hdr))
            for s in parts:
                s.setobj(h[1], size=n, kind="caller memory")
                s.ts["spec"] = (len(out),)
                out.append(s)
        return out

    def cr_entry(eng, st, f, args):
        out = []
        for s0, n in sized_int(eng, st, args[0], 32):
            for s in by_length(s0, n):
                s.ts["spec"] = (len(out),)
                out.append(s)
        return out
    S_.add("RingBuffer_create_with_mem", mem_entry, lambda c: created(c, lambda st: sized_int(c.eng, st, c.args[1], 32), False))
    S_.add("RingBuffer_create", cr_entry, lambda c: created(c, lambda st: sized_int(c.eng, st, c.args[0], 32), True))

    def destroy_entry(eng, st, f, args):
        pp = st.canon(args[0])
        st.set_nn(pp, True)
        h = eng.load_mem(st, None, pp[1], pp[2], 8, ir.PTR)
        return [st] if st.set_nn(h, True) else []

    @S_.fn(("RingBuffer_destroy", "ring_buf_destroy"), destroy_entry)
    def _(c):
        pp = c.st.canon(c.args[0])
        c.holds(c.st.is_null(c.eng.load_mem(c.st, None, pp[1], pp[2], 8, ir.PTR)) is True, "the caller's handle must be reset", "reset")

    # ------------------------------------------------ ring_buf (any size, one byte kept free, all or nothing)
    def b_entry(eng, st, f, args):
        h = st.canon(args[0])
        if not st.set_nn(h, True): return []
        o = Ob(eng, st, ringbuf_mod(eng), h[1], "__ring_buf_t")
        P, R, W, buf = o.i(st, "size"), o.i(st, "offset_read"), o.i(st, "offset_write"), o.p(st, "pbuf")
        if need(st, addc(scale(P, -1), 3), addc(sub(R, P), 1), addc(sub(W, P), 1), addc(P, -(1 << 62))) is None: return []
        st.set_nn(buf, True)
        st.setobj(buf[1], size=P, kind="ring memory")
        out = []
        for k in (0, 1):
            s = st.copy()
            a = add(sub(W, R), scale(P, k))
            if s.assume_ge0(a) and s.assume_le(addc(sub(a, P), 1)):
                s.ts["rb"] = (P, s.red(a), R, W, buf)
                out.append(s)
        return out

    def bnow(c):
        o = Ob(c.eng, c.st, ringbuf_mod(c.eng), c.st.canon(c.args[0])[1], "__ring_buf_t")
        return o.i(c.st, "size"), o.i(c.st, "offset_read"), o.i(c.st, "offset_write")

    def bstate(c, dW, dR):
        """offsets advance by dW / dR modulo the size and stay below it"""
        P, A, R, W, buf = c.st.ts["rb"]
        p, r, w = bnow(c)
        cs = c.st.cons
        c.eq(p, P, "the size must not change", "size")
        for nm, old, new, d in (("write", W, w, dW), ("read", R, r, dR)):
            e = sub(new, add(old, d))
            c.holds(cs.entails_eq(e) or cs.entails_eq(add(e, P)), "the %s offset must advance by the bytes moved" % nm, nm)
            c.holds(cs.entails_ge0(new) and cs.entails_le(addc(sub(new, P), 1)), "the %s offset must stay inside the ring" % nm, nm + " range")

    def brw(kind):
        def post(c):
            P, A, R, W, buf = c.st.ts["rb"]
            free = addc(sub(sub(P, A), const(1)), 0)
            limit = free if kind == "write" else A
            base = c.st
            for s0, n in sized_int(c.eng, base, c.args[-1], 64):
                for s1, fits in split(s0, sub(n, limit)):
                    c.st = s1
                    want = n if fits else ZERO
                    for s, r in c.ret(64):
                        c.st = s
                        c.eq(r, want, "must move all the requested bytes or none", "amount")
                        bstate(c, want if kind == "write" else ZERO, want if kind in ("read", "discard") else ZERO)
                        if kind == "write": check_copies(c, s, s.ts.get("copies", ()), "dst", buf, P, W, s.canon(c.args[1])[1], ZERO, want, kind)
                        elif kind != "discard": check_copies(c, s, s.ts.get("copies", ()), "src", buf, P, R, s.canon(c.args[1])[1], ZERO, want, kind)
        return post

    def b_rw(eng, st, f, args):
        out = []
        for s in b_entry(eng, st, f, args):
            if len(args) == 3 and not s.set_nn(s.canon(args[1]), True): continue
            out.append(s)
        return out
    for k in ("write", "read", "peek", "discard"): S_.add("ring_buf_" + k, b_rw, brw(k))

    def bquery(want, what):
        def post(c):
            P, A, R, W, buf = c.st.ts["rb"]
            for s, r in c.ret(64):
                c.st = s
                c.eq(r, want(P, A), what, "value")
                bstate(c, ZERO, ZERO)
        return post
    S_.add("ring_buf_available_read", b_entry, bquery(lambda P, A: A, "must return the bytes written and not yet read"))
    S_.add("ring_buf_available_write", b_entry, bquery(lambda P, A: addc(sub(P, A), -1), "must return the free bytes"))

    @S_.fn("ring_buf_clear", b_entry)
    def _(c):
        p, r, w = bnow(c)
        c.eq(r, w, "a cleared ring must be empty", "empty")
        c.holds(c.st.cons.entails_le(addc(sub(r, p), 1)), "offsets must stay inside the ring", "range")

    def bcreated(c, req, exact):
        st = c.st
        r = st.canon(c.r)
        if st.is_null(r) is True: return
        st.set_nn(r, True)
        o = Ob(c.eng, st, ringbuf_mod(c.eng), r[1], "__ring_buf_t")
        p, rr, w, buf = o.i(st, "size"), o.i(st, "offset_read"), o.i(st, "offset_write"), o.p(st, "pbuf")
        c.eq(rr, w, "a new ring must be empty", "empty")
        for s, n in sized_int(c.eng, st, req, 64):
            c.st = s
            if exact: c.eq(p, n, "the ring must have the requested size", "capacity")
            c.holds(s.cons.entails_ge0(addc(p, -3)) and s.cons.entails_le(addc(sub(rr, p), 1)), "size and offsets out of range", "range")
            sz = c.eng.obj_size(s, buf[1])
            if sz is not None: c.holds(s.cons.entails_le(sub(add(buf[2], p), sz)), "the memory behind pbuf is smaller than the size", "bufsize")

    def bmem(eng, st, f, args):
        out = []
        h = st.canon(args[0])
        if not st.set_nn(h, True): return []
        for s, n in sized_int(eng, st, args[1], 64):
            if s.assume_le(addc(n, -(1 << 62))):
                s.setobj(h[1], size=n, kind="caller memory")
                out.append(s)
        return out

    def bcr(eng, st, f, args):
        return [s for s, n in sized_int(eng, st, args[0], 64) if s.assume_le(addc(n, -(1 << 62)))]
    S_.add("ring_buf_create_with_mem", bmem, lambda c: bcreated(c, c.args[1], False))
    S_.add("ring_buf_create", bcr, lambda c: bcreated(c, c.args[0], True))
    return S_


OPTS = {"unroll": 70}


def bool_ret(c):
    """[(state, True/False)] of a returned bool"""
    out = []
    v = c.r
    st = c.st
    for s, e in c.eng.ucanon(st.copy(), st.red(c.eng.as_int(st, v, 8)), 8):
        for s2, zero in split(s, e): out.append((s2, not zero))
    return out


def ring_in_mem(eng, st, ins, args):
    """what p11 shows of RingBuffer_create_with_mem: NULL, or an empty ring inside the memory given"""
    from .models import rng
    h = st.canon(args[0])
    if st.is_null(h) is True: return [(st, NULL)]
    m = ring_mod(eng)
    fields = {n: (o, sz) for o, (n, sz, t) in ir.struct_fields(m, "%struct." + RB).items()}
    hdr = max(o + sz for o, sz in fields.values())
    out = [(st.copy(), NULL)]
    for s, n in sized_int(eng, st.copy(), args[1], 32):
        if rng(eng, s, ins, h, n, True, "ring memory") is None: continue
        P = sym(fsym("ringsize", 4, 1 << 31))
        if not s.assume_le(addc(sub(P, n), hdr)): continue
        eng.invalidate(s, h[1], h[2], n)
        eng.set_pow2(s, P, 32)
        for k, v in (("in", I(0)), ("out", I(0)), ("size", ("i", P)), ("buf", ("p", h[1], addc(h[2], hdr))), ("need_free_myself", I(0))):
            eng.store_mem(s, ins, h[1], addc(h[2], fields[k][0]), v, fields[k][1])
        out.append((s, h))
    return out
