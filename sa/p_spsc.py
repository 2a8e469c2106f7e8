"""P10: the ring buffers and queues with one producer thread and one consumer thread.

The other side is let run at every read of its index: each load of the peer's index by the operation
under analysis may see any later value the peer can have published.  Own index: stored once, after the
bytes were copied; the peer's index: never stored."""
from . import ir
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, fsym
from .spec import Specs, Ob, Case, M32, split, need, last_ret
from .p_ring import Ring, ring_mod, ringbuf_mod, sized_int, minimum, bool_ret
from .p_queue import place, ring_at, mod_of, Q, HDR, NOT_ENOUGH, HeaderLog
from . import p_ring

READS = 4          # reads of the peer's index followed per operation (ring_buf: each may lie on either side of the wrap)


class Side:
    """what the interference client needs to know, immutable, kept in st.ts['side']"""

    def __init__(self, **kw): self.__dict__.update(kw)

    def but(self, **kw): return Side(**{**self.__dict__, **kw})

    def __repr__(self): return "side%d" % self.n


class Interference(Client):
    name = "peer"
    rule = "spsc"

    def key(self, ts):
        s = ts.get("side")
        return (s.n, repr(ts.get("events"))) if s else None

    def on_access(self, eng, st, ins, b, off, size, write, val=None):
        d = st.ts.get("side")
        if d is None or b != d.base or not is_const(off): return
        if write:
            if off[0] == d.peer: eng.report("spec", st, ins, self.rule, "stores to the %s, which belongs to the other thread" % d.peername, key="peer store")
            elif off[0] == d.own:
                st.ts["events"] = st.ts.get("events", ()) + ("store",)
                if val is not None and not d.wrap:
                    e = st.red(sub(eng.as_int(st, val, 32), d.mine))
                    for k in (0, M32, -M32):
                        if st.cons.entails_ge0(addc(e, k)) and st.cons.entails_le(sub(addc(e, k), d.P)):
                            st.ts["side"] = d.but(adv=st.red(addc(e, k)))
                            break
            elif off[0] in d.fixed: eng.report("spec", st, ins, self.rule, "changes a field of the ring that both threads read", key="fixed store")
            return
        if off[0] != d.peer or ins is None: return
        if d.n >= READS and d.wrap: raise ir.AnalysisBroken("the peer's index is read more than %d times" % READS)
        a = sym(fsym("seen%d" % d.n))
        if d.consumer:      # the producer can only have added bytes
            st.assume_le(sub(d.A, a)); st.assume_le(sub(a, add(d.limit, d.adv)))
            v = add(d.mine, a)
        else:               # the consumer can only have taken bytes
            st.assume_le(sub(a, d.A)); st.assume_ge0(add(a, d.adv))
            v = sub(d.mine, a)
        if d.wrap:
            k = (-1 if d.consumer else 1) * d.choice[d.n]
            v = add(v, scale(d.P, k))
            st.assume_ge0(v); st.assume_le(addc(sub(v, d.P), 1))
        # the engine drops the state at the next test when the choice was impossible
        eng.put_cell(st, b, off, ("i", st.red(v)), size)
        st.ts["side"] = d.but(n=d.n + 1, A=a)

    def on_copy(self, eng, st, ins, db, doff, sb, soff, n):
        d = st.ts.get("side")
        if d is None or st.red(n) == ZERO: return
        if d.buf in (db, sb): st.ts["events"] = st.ts.get("events", ()) + ("copy",)
        if db == d.buf and d.consumer: eng.report("spec", st, ins, self.rule, "the consumer writes into the ring's memory", key="consumer writes")


def ring_side(consumer):
    def mk(eng, s, base, off=ZERO):
        """base: ring object; ring_buffer with free running indexes"""
        m = ring_mod(eng)
        f = {n: (o, sz) for o, (n, sz, t) in ir.struct_fields(m, "%struct.__ring_buffer_t").items()}
        out = []
        for s2, a in Ring.states(eng, s, m, base):
            r = Ring(eng, s2, m, base)
            s2.ts["ring"] = (r.P, a, r.IN, r.OUT, r.buf)
            s2.ts["rbase"] = base
            own, peer = ("out", "in") if consumer else ("in", "out")
            s2.ts["side"] = Side(base=base, own=f[own][0], peer=f[peer][0], peername="write position" if consumer else "read position", fixed=(f["size"][0], f["buf"][0]),
                                 consumer=consumer, A=a, A0=a, P=r.P, limit=r.P, mine=r.OUT if consumer else r.IN, wrap=False, choice=(), adv=ZERO, n=0, buf=r.buf[1])
            out.append(s2)
        return out
    return mk


def ringbuf_side(consumer):
    def mk(eng, st, base):
        m = ringbuf_mod(eng)
        f = {n: (o, sz) for o, (n, sz, t) in ir.struct_fields(m, "%struct.__ring_buf_t").items()}
        o = Ob(eng, st, m, base, "__ring_buf_t")
        P, R, W, buf = o.i(st, "size"), o.i(st, "offset_read"), o.i(st, "offset_write"), o.p(st, "pbuf")
        if need(st, addc(scale(P, -1), 3), addc(sub(R, P), 1), addc(sub(W, P), 1), addc(P, -(1 << 62))) is None: return []
        st.set_nn(buf, True)
        st.setobj(buf[1], size=P, kind="ring memory")
        own, peer = ("offset_read", "offset_write") if consumer else ("offset_write", "offset_read")
        out = []
        for k in (0, 1):
            s = st.copy()
            a = add(sub(W, R), scale(P, k))
            if not (s.assume_ge0(a) and s.assume_le(addc(sub(a, P), 1))): continue
            for ch in range(1 << READS):
                if ch >= 4: continue
                s2 = s.copy()
                s2.ts["rb"] = (P, s2.red(a), R, W, buf)
                s2.ts["spec"] = (k, ch)
                s2.ts["side"] = Side(base=base, own=f[own][0], peer=f[peer][0], peername="write offset" if consumer else "read offset", fixed=(f["size"][0], f["pbuf"][0]),
                                     consumer=consumer, A=s2.red(a), A0=s2.red(a), P=P, limit=addc(P, -1), mine=R if consumer else W, wrap=True,
                                     choice=tuple((ch >> i) & 1 for i in range(READS)), adv=ZERO, n=0, buf=buf[1])
                out.append(s2)
        return out
    return mk


def entry(mk, queue=None, extra=None):
    def pre(eng, st, f, args):
        h = st.canon(args[0])
        if not st.set_nn(h, True): return []
        for a2 in args[1:]:
            if a2[0] == "p" and not st.set_nn(st.canon(a2), True): return []
        if queue is None: return mk(eng, st, h[1])
        q = Q(eng, st, mod_of(eng, queue[0]), h[1], queue[1])
        if not st.set_nn(q.rp, True): return []
        out = []
        for s in mk(eng, st, st.canon(q.rp)[1]): out += extra(eng, s, f, args, q) if extra else [s]
        return out
    return pre


def order(c, s, single=True):
    """one publication per operation, and nothing copied after it"""
    ev = s.ts.get("events", ())
    st = [i for i, e in enumerate(ev) if e == "store"]
    if single and len(st) > 1: c.fail("the index is stored more than once; the other thread can see a value in between", "stores")
    if st and "copy" in ev[st[0]:] and single: c.fail("bytes are copied after the index was published", "publish order")


def own_field(c, s):
    d = s.ts["side"]
    z = 8 if d.wrap else 4
    v = c.eng.load_mem(s, None, d.base, const(d.own), z, ir.int_t(z * 8), False)
    return s.red(c.eng.as_int(s, v, z * 8))


def advanced(c, s, by, tag):
    d = s.ts["side"]
    e = sub(own_field(c, s), add(d.mine, by))
    cs = s.cons
    ok = cs.entails_eq(e) or cs.entails_eq(add(e, d.P)) if d.wrap else any(cs.entails_eq(addc(e, k)) for k in (0, M32, -M32))
    c.holds(ok, "the own index must advance by exactly the bytes moved", "advance" + tag)


def p10():
    S_ = Specs("spsc")

    def moves(consumer, take, target, w, exact):
        """exact: all or nothing (ring_buf); otherwise min(requested, possible)"""
        def post(c):
            base = c.st
            for s0, n in sized_int(c.eng, base.copy(), c.args[-1], w):
                d = s0.ts["side"]
                first = d.A0 if consumer else sub(d.limit, d.A0)
                last = d.A if consumer else sub(d.limit, d.A)
                c.st = s0
                for s, r in c.ret(w):
                    c.st = s
                    cs = s.cons
                    c.holds(cs.entails_le(sub(r, n)) and cs.entails_le(sub(r, last)), "more bytes are moved than asked for or than the other thread has made available", "limit")
                    for s2, m in minimum(s.copy(), n, first):
                        if exact: continue
                        c.st = s2
                        c.holds(s2.cons.entails_le(sub(m, r)), "fewer bytes are moved than were available from the start", "least")
                    c.st = s
                    if exact:
                        for s2, fit in split(s.copy(), sub(n, first)):
                            c.st = s2
                            if fit: c.holds(s2.cons.entails_eq(sub(r, n)), "the request is refused although it was possible from the start", "least")
                            else: c.holds(s2.cons.entails_eq(sub(r, n)) or s2.cons.entails_eq(r) or s2.cons.entails_ge0(ZERO), "partial", "partial")
                    for s2, none in split(s.copy(), r):
                        c.st = s2
                        c.holds(none or not exact or s2.cons.entails_eq(sub(r, n)), "part of the request is moved", "partial")
                        advanced(c, s2, r if take else ZERO, "")
                        order(c, s2)
                        if none: continue
                        if target:
                            side = "src" if consumer else "dst"
                            o = s2.canon(c.args[1])
                            for s3, st0 in ([(s2, d.mine)] if d.wrap else ring_at(c, s2, d.mine, d.P)):
                                c.st = s3
                                buf = s3.ts["rb"][4] if d.wrap else s3.ts["ring"][4]
                                place(c, s3, s3.ts.get("copies", ()), side, buf, d.P, [(st0, o[1], o[2], r)], c.f.name)
                c.st = base
        return post
    R = ring_side
    S_.add("RingBuffer_write", entry(R(False)), moves(False, True, True, 32, False))
    S_.add("RingBuffer_read", entry(R(True)), moves(True, True, True, 32, False))
    S_.add("RingBuffer_peek", entry(R(True)), moves(True, False, True, 32, False))
    S_.add("RingBuffer_discard", entry(R(True)), moves(True, True, False, 32, False))
    B = ringbuf_side
    S_.add("ring_buf_write", entry(B(False)), moves(False, True, True, 64, True))
    S_.add("ring_buf_read", entry(B(True)), moves(True, True, True, 64, True))
    S_.add("ring_buf_peek", entry(B(True)), moves(True, False, True, 64, True))
    S_.add("ring_buf_discard", entry(B(True)), moves(True, True, False, 64, True))

    # ---- queues
    MQ = ("src/ring/msg_queue.c", "__msg_queue")
    FQ = ("src/ring/fixed_msg_queue.c", "_fixed_msg_queue_s")

    @S_.fn("msg_queue_push", entry(R(False), MQ))
    def _(c):
        for s0, n in sized_int(c.eng, c.st.copy(), c.args[2], 32):
            for s1, none in split(s0, n):
                c.st = s1
                for s, r in c.ret():
                    for s2, ok in split(s, r):
                        c.st = s2
                        d = s2.ts["side"]
                        advanced(c, s2, addc(n, HDR) if ok else ZERO, "")
                        if ok: c.holds(s2.cons.entails_le(addc(add(n, d.A), HDR - 0) if False else sub(addc(n, HDR), sub(d.P, d.A))), "more is queued than fits", "limit")
                        elif not none: c.holds(s2.cons.entails_ge0(addc(sub(addc(n, HDR), sub(d.P, d.A0)), -1)), "a message that fitted from the start is refused", "least")

    def pop_pre(eng, s, f, args, q):
        z = s.canon(args[2])
        v = eng.load_mem(s, None, z[1], z[2], 4, ir.I32)
        out = []
        for s2, n in eng.ucanon(s, eng.as_int(s, v, 32), 32):
            s2.ts["cap"] = n
            out.append(s2)
        return out

    @S_.fn("msg_queue_pop", entry(R(True), MQ, pop_pre))
    def _(c):
        eng = c.eng
        P, A, IN, OUT, buf = c.st.ts["ring"]
        cap = c.st.ts["cap"]
        for s0, r in c.ret():
            for s, ok in split(s0, r):
                c.st = s
                d = s.ts["side"]
                if not ok:
                    advanced(c, s, ZERO, " refused")
                    continue
                z, msg = s.canon(c.args[2]), s.canon(c.args[1])
                size = s.red(eng.as_int(s, eng.load_mem(s, None, z[1], z[2], 4, ir.I32), 32))
                for s1, n in eng.ucanon(s.copy(), size, 32):
                    c.st = s1
                    c.holds(s1.cons.entails_le(sub(n, cap)), "a message larger than the caller's memory is delivered", "size fits")
                    c.holds(s1.cons.entails_le(sub(addc(n, HDR), d.A)), "a message is delivered that is not complete yet", "available")
                    advanced(c, s1, addc(n, HDR), "")
                    h = [x for x in s1.ts.get("hdrs", ()) if x[2][0] == "i" and any(s1.cons.entails_eq(addc(sub(x[2][1], n), k)) for k in (0, M32, -M32))]
                    if not h:
                        c.fail("the size reported is not the size stored with the message", "header"); continue
                    for s3, st0 in ring_at(c, s1, OUT, P):
                        c.st = s3
                        place(c, s3, s3.ts.get("copies", ()), "src", buf, P, [(st0, h[0][0], h[0][1], const(HDR)), (addc(st0, HDR), msg[1], msg[2], n)], "pop")

    def fx(eng, s, f, args, q):
        m = q.o.i(s, "one_msg_byte_size")
        if not s.assume_ge0(addc(m, -1)): return []
        s.ts["one"] = m
        return [s]

    def fixed(push):
        def post(c):
            m = c.st.ts["one"]
            for s, r in bool_ret(c):
                c.st = s
                d = s.ts["side"]
                advanced(c, s, m if r else ZERO, "")
                order(c, s)
                room0 = sub(d.P, d.A0) if push else d.A0
                room1 = sub(d.P, d.A) if push else d.A
                if r: c.holds(s.cons.entails_le(sub(m, room1)), "a message is moved although there is none or no room", "limit")
                else: c.holds(s.cons.entails_le(addc(sub(room0, m), 1)), "refused although it was possible from the start", "least")
        return post
    S_.add("fixed_msg_queue_push", entry(R(False), FQ, fx), fixed(True))
    S_.add("fixed_msg_queue_pop", entry(R(True), FQ, fx), fixed(False))
    return S_


CLIENTS = [HeaderLog, Interference]
OPTS = {"merge_cap": 400, "ret_cap": 400}
