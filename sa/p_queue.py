"""P12: message queues; and the auto-cover buffer part of P11."""
from . import ir
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client
from .spec import Specs, Ob, Case, M32, M64, split, need, last_ret
from .p_ring import Ring, ring_mod, consistent, sized_int, minimum, bool_ret

SUCCESS, FULL, NOT_ENOUGH = 0, 5, 6
HDR = 4


def mod_of(eng, tail):
    for m in eng.prog.modules:
        if m.path.endswith(tail): return m
    raise ir.AnalysisBroken("%s is gone" % tail)


def enum_value(eng, mod, name):
    return None


class HeaderLog(Client):
    """the 4-byte values read from locals that were filled from somewhere by a block copy"""
    name = "hdr"

    def on_access(self, eng, st, ins, b, off, size, write, val=None):
        if write or b[0] != "a" or size != HDR or ins is None or ins.op != "load": return
        if not any(c[0] == b for c in st.ts.get("copies", ())): return
        if any(h[0] == b for h in st.ts.get("hdrs", ())): return
        v = eng.load_mem(st, ins, b, off, HDR, ir.I32)
        st.ts["hdrs"] = st.ts.get("hdrs", ()) + ((b, off, v),)

    def on_copy(self, eng, st, ins, db, doff, sb, soff, n):
        if sb[0] != "a" or any(h[0] == sb for h in st.ts.get("srcs", ())): return
        v = eng.load_mem(st, ins, sb, ZERO, HDR, ir.I32)
        st.ts["srcs"] = st.ts.get("srcs", ()) + ((sb, v),)


def place(c, s, copies, ring_side, buf, P, segs, what):
    """the block copies between ring and other memory are exactly the segments (ring position, other base, other offset, length),
    in any grouping, each inside the ring's memory and contiguous modulo the size"""
    cs = s.cons
    todo = [x for x in copies if not cs.entails_le(x[4])]
    for start, ob, oo, n in segs:
        if s.cons.entails_eq(n): continue
        pos = ZERO
        mine = []
        for x in todo:
            rb, ro, b2, o2, ln = (x[0], x[1], x[2], x[3], x[4]) if ring_side == "dst" else (x[2], x[3], x[0], x[1], x[4])
            if b2 == ob and rb == buf[1]: mine.append((ro, o2, ln))
        # the pieces, in order of their offset on the other side
        left = list(mine)
        while left:
            nxt = [p for p in left if cs.entails_eq(sub(p[1], add(oo, pos)))]
            if not nxt: break
            ro, o2, ln = p = nxt[0]
            left.remove(p)
            d = sub(sub(ro, buf[2]), add(start, pos))
            if not any(cs.entails_eq(add(d, scale(P, k))) for k in (0, 1, 2)):
                c.fail("%s: bytes are not placed at consecutive positions of the ring" % what, what + " placement"); return
            if not cs.entails_le(sub(add(sub(ro, buf[2]), ln), P)):
                c.fail("%s: bytes are placed outside the ring" % what, what + " placement"); return
            pos = s.red(add(pos, ln))
        if left: c.fail("%s: bytes are not taken from consecutive positions" % what, what + " order"); return
        if not cs.entails_eq(sub(pos, n)):
            c.fail("%s: %s bytes are moved but %s are due" % (what, show(pos), show(s.red(n))), what + " amount"); return
    known = {ob for _, ob, _, _ in segs}
    for x in todo:
        rb, b2 = (x[0], x[2]) if ring_side == "dst" else (x[2], x[0])
        other = (x[2], x[0]) if ring_side == "dst" else (x[0], x[2])
        if rb == buf[1] and b2 not in known: c.fail("%s: other bytes are moved as well" % what, what + " extra")
        if (x[0] if ring_side == "src" else None) == buf[1]: c.fail("%s: the ring's memory is written" % what, what + " written")


class Q:
    def __init__(self, eng, st, mod, base, sname):
        self.o = Ob(eng, st, mod, base, sname)
        self.rp = self.o.p(st, "ring_buf_p")


def q_entry(tail, sname, extra=None):
    def pre(eng, st, f, args):
        h = st.canon(args[0])
        if not st.set_nn(h, True): return []
        q = Q(eng, st, mod_of(eng, tail), h[1], sname)
        if not st.set_nn(q.rp, True): return []
        out = []
        m = ring_mod(eng)
        for s, a in Ring.states(eng, st, m, s_base(st, q.rp)):
            r = Ring(eng, s, m, s_base(s, q.rp))
            s.ts["ring"] = (r.P, a, r.IN, r.OUT, r.buf)
            s.ts["rbase"] = s_base(s, q.rp)
            for a2 in args[1:]:
                if a2[0] == "p" and not s.set_nn(s.canon(a2), True): s = None; break
            if s is None: continue
            out += extra(eng, s, f, args, q) if extra else [s]
        return out
    return pre


def s_base(st, v): return st.canon(v)[1]


class RS:
    """state of the ring behind the queue at return"""

    def __init__(self, c, st):
        self.P0, self.A0, self.IN0, self.OUT0, self.buf = st.ts["ring"]
        r = Ring(c.eng, st, ring_mod(c.eng), st.ts["rbase"])
        self.P, self.IN, self.OUT = r.P, r.IN, r.OUT


def moved(c, s, d_in, d_out, tag=""):
    old = c.st
    c.st = s
    r = RS(c, s)
    c.eq(r.IN, add(r.IN0, d_in), "the write position must advance by the bytes accepted", "in" + tag, M32)
    c.eq(r.OUT, add(r.OUT0, d_out), "the read position must advance by the bytes delivered", "out" + tag, M32)
    c.eq(r.P, r.P0, "the size must not change", "size")
    consistent(c, s.ts["rbase"])
    c.st = old


def ring_at(c, s, pos, P):
    """[(state, pos mod P)]"""
    return c.eng.umod(s.copy(), 32, s.red(pos), s.red(P))


def p12():
    S_ = Specs("queue")
    MQ = q_entry("src/ring/msg_queue.c", "__msg_queue")

    @S_.fn("msg_queue_push", MQ)
    def _(c):
        P, A, IN, OUT, buf = c.st.ts["ring"]
        for s0, n in sized_int(c.eng, c.st.copy(), c.args[2], 32):
            for s1, none in split(s0, n):
                for s2, fits in (split(s1, sub(addc(n, HDR), sub(P, A))) if not none else [(s1, False)]):
                    c.st = s2
                    for s, r in c.ret():
                        c.st = s
                        if not fits:
                            c.holds(s.cons.entails_ne(r), "a message that does not fit is reported as queued", "refuse")
                            moved(c, s, ZERO, ZERO, " unchanged")
                            if any(x[0] == buf[1] for x in s.ts.get("copies", ())):
                                c.fail("a refused message is written into the ring", "refused write")
                            continue
                        c.eq(r, ZERO, "a message that fits is not queued", "accept")
                        moved(c, s, addc(n, HDR), ZERO)
                        src = s.ts.get("srcs", ())
                        good = [b for b, v in src if v[0] == "i" and any(s.cons.entails_eq(addc(sub(v[1], n), k)) for k in (0, M32, -M32))]
                        if not good:
                            c.fail("the message is not preceded by its size", "header"); continue
                        msg = s.canon(c.args[1])
                        for s3, st0 in ring_at(c, s, IN, P):
                            c.st = s3
                            place(c, s3, s3.ts.get("copies", ()), "dst", buf, P,
                                  [(st0, good[0], ZERO, const(HDR)), (addc(st0, HDR), msg[1], msg[2], n)], "push")

    def pop_pre(eng, s, f, args, q):
        z = s.canon(args[2])
        v = eng.load_mem(s, None, z[1], z[2], 4, ir.I32)
        out = []
        for s2, n in eng.ucanon(s, eng.as_int(s, v, 32), 32):
            s2.ts["cap"] = n
            out.append(s2)
        return out

    @S_.fn("msg_queue_pop", q_entry("src/ring/msg_queue.c", "__msg_queue", pop_pre))
    def _(c):
        eng = c.eng
        P, A, IN, OUT, buf = c.st.ts["ring"]
        cap = c.st.ts["cap"]
        for s0, r in c.ret():
            for s, ok in split(s0, r):
                c.st = s
                z = s.canon(c.args[2])
                size = s.red(eng.as_int(s, eng.load_mem(s, None, z[1], z[2], 4, ir.I32), 32))
                msg = s.canon(c.args[1])
                if ok:
                    for s1, n in eng.ucanon(s.copy(), size, 32):
                        c.st = s1
                        c.holds(s1.cons.entails_le(sub(n, cap)), "a message larger than the caller's memory is delivered, or its size is not reported", "size fits")
                        c.holds(s1.cons.entails_le(sub(addc(n, HDR), A)), "more bytes are delivered than are in the queue", "available")
                        moved(c, s1, ZERO, addc(n, HDR))
                        h = [x for x in s1.ts.get("hdrs", ()) if x[2][0] == "i" and any(s1.cons.entails_eq(addc(sub(x[2][1], n), k)) for k in (0, M32, -M32))]
                        if not h:
                            c.fail("the size reported is not the size stored with the message", "header"); continue
                        for s3, st0 in ring_at(c, s1, OUT, P):
                            c.st = s3
                            place(c, s3, s3.ts.get("copies", ()), "src", buf, P,
                                  [(st0, h[0][0], h[0][1], const(HDR)), (addc(st0, HDR), msg[1], msg[2], n)], "pop")
                    continue
                moved(c, s, ZERO, ZERO, " unchanged")
                hs = s.ts.get("hdrs", ())
                if s.cons.constval(r) == NOT_ENOUGH or (s.copy().assume_eq(addc(r, -NOT_ENOUGH)) and s.cons.constval(r) is None):
                    c.holds(bool(hs) and any(s.cons.entails_eq(addc(sub(x[2][1], size), k)) for x in hs for k in (0, M32, -M32)), "the size needed is not reported", "needed size")
                    c.holds(any(s.cons.entails_ge0(addc(sub(k, cap), -1)) for k in [size, addc(size, M32)]), "the caller's memory is refused although it is large enough", "needless refusal")
                    continue
                # refused for another reason: no complete message
                c.eq(size, cap, "the caller's size is changed without a message", "size kept", M32)
                if hs:
                    for s2, n in eng.ucanon(s.copy(), s.red(hs[0][2][1]), 32):
                        c.st = s2
                        c.holds(s2.cons.entails_ge0(addc(sub(addc(n, HDR), A), -1)), "a complete message is not delivered", "complete message")
                else:
                    c.holds(s.cons.entails_le(addc(A, -HDR)), "a message is not looked at", "message ignored")

    def query(want, what):
        def post(c):
            P, A, IN, OUT, buf = c.st.ts["ring"]
            for s, r in c.ret():
                c.st = s
                c.eq(r, want(P, A), what, "value", M32)
                moved(c, s, ZERO, ZERO)
        return post
    S_.add("msg_queue_available_pop_bytes", MQ, query(lambda P, A: A, "must return the bytes queued"))
    S_.add("msg_queue_available_push_bytes", MQ, query(lambda P, A: sub(P, A), "must return the free bytes"))

    @S_.fn("msg_queue_next_msg_size", MQ)
    def _(c):
        P, A, IN, OUT, buf = c.st.ts["ring"]
        for s, r in c.ret():
            c.st = s
            moved(c, s, ZERO, ZERO)
            for s2, less in split(s, addc(A, -HDR)):
                c.st = s2
                if less:
                    c.eq(r, ZERO, "no message is queued, yet a size is returned", "none")
                    continue
                h = [x for x in s2.ts.get("hdrs", ()) if any(s2.cons.entails_eq(addc(sub(x[2][1], r), k)) for k in (0, M32, -M32))]
                if not c.holds(bool(h), "the size returned is not the size stored with the message", "header"): continue
                for s3, st0 in ring_at(c, s2, OUT, P):
                    c.st = s3
                    place(c, s3, s3.ts.get("copies", ()), "src", buf, P, [(st0, h[0][0], h[0][1], const(HDR))], "peek")

    def cleared(c):
        r = RS(c, c.st)
        c.eq(r.IN, r.OUT, "a cleared queue must be empty", "empty", M32)
        c.eq(r.P, r.P0, "the size must not change", "size")
    S_.add("msg_queue_clear", MQ, cleared)

    # ---- fixed size messages
    def fx(eng, s, f, args, q):
        m = q.o.i(s, "one_msg_byte_size")
        if not s.assume_ge0(addc(m, -1)): return []
        s.ts["one"] = m
        return [s]
    FQ = q_entry("src/ring/fixed_msg_queue.c", "_fixed_msg_queue_s", fx)

    def fixed(push):
        def post(c):
            P, A, IN, OUT, buf = c.st.ts["ring"]
            m = c.st.ts["one"]
            room = sub(P, A) if push else A
            verb = "push" if push else "pop"
            for s, r in bool_ret(c):
                c.st = s
                if not r:
                    moved(c, s, ZERO, ZERO, " unchanged")
                    if not s.cons.entails_le(addc(sub(room, m), 1)): c.fail("%s refused although there is %s" % (verb, "room" if push else "a message"), "refuse")
                    continue
                c.holds(s.cons.entails_le(sub(m, room)), "%s reported done although there is %s" % (verb, "no room" if push else "no message"), "accept")
                moved(c, s, m if push else ZERO, ZERO if push else m)
                msg = s.canon(c.args[1])
                for s3, st0 in ring_at(c, s, IN if push else OUT, P):
                    c.st = s3
                    place(c, s3, s3.ts.get("copies", ()), "dst" if push else "src", buf, P, [(st0, msg[1], msg[2], m)], verb)
        return post
    S_.add("fixed_msg_queue_push", FQ, fixed(True))
    S_.add("fixed_msg_queue_pop", FQ, fixed(False))

    def amount(room, what):
        def post(c):
            P, A, IN, OUT, buf = c.st.ts["ring"]
            m = c.st.ts["one"]
            for s, q in c.ret():
                c.st = s
                p = c.eng.mulsym(s, q, m)
                x = room(P, A)
                c.holds(s.cons.entails_le(sub(p, x)) and s.cons.entails_le(addc(sub(x, add(p, m)), 1)), what, "amount")
                moved(c, s, ZERO, ZERO)
        return post
    S_.add("fixed_msg_queue_available_pop_amount", FQ, amount(lambda P, A: A, "must return the number of whole messages queued"))
    S_.add("fixed_msg_queue_available_push_amount", FQ, amount(lambda P, A: sub(P, A), "must return the number of messages that still fit"))

    def boolean(room, what):
        def post(c):
            P, A, IN, OUT, buf = c.st.ts["ring"]
            m = c.st.ts["one"]
            x = room(P, A)
            for s, r in bool_ret(c):
                c.st = s
                if r: c.holds(s.cons.entails_le(addc(sub(x, m), 1)), what + " answered yes although it is not so", "yes")
                else: c.holds(s.cons.entails_le(sub(m, x)), what + " answered no although it is so", "no")
                moved(c, s, ZERO, ZERO)
        return post
    S_.add("fixed_msg_queue_is_empty", FQ, boolean(lambda P, A: A, "is_empty"))
    S_.add("fixed_msg_queue_is_full", FQ, boolean(lambda P, A: sub(P, A), "is_full"))
    S_.add("fixed_msg_queue_clear", FQ, cleared)

    def made(tail, sname):
        def post(c):
            st = c.st
            r = st.canon(c.r)
            if st.is_null(r) is True: return
            if not st.set_nn(r, True): return
            q = Q(c.eng, st, mod_of(c.eng, tail), r[1], sname)
            rp = st.canon(q.rp)
            if st.is_null(rp) is not False:
                c.fail("a queue without ring is handed out", "no ring"); return
            x = Ring(c.eng, st, ring_mod(c.eng), rp[1], )
            R = Ob(c.eng, st, ring_mod(c.eng), rp[1], "__ring_buffer_t", rp[2])
            c.eq(R.i(st, "in"), R.i(st, "out"), "a new queue must be empty", "empty", M32)
            P, buf = R.i(st, "size"), R.p(st, "buf")
            sz = c.eng.obj_size(st, buf[1])
            if sz is not None: c.holds(st.cons.entails_le(sub(add(buf[2], P), sz)), "the memory behind the ring is smaller than its size", "bufsize")
            if "one_msg_byte_size" in q.o.f: c.eq(q.o.i(st, "one_msg_byte_size"), c.eng.as_int(st, c.args[0], 32), "the message size is not the one asked for", "one", M32)
        return post
    S_.add("msg_queue_create", None, made("src/ring/msg_queue.c", "__msg_queue"))
    S_.add("fixed_msg_queue_create", None, made("src/ring/fixed_msg_queue.c", "_fixed_msg_queue_s"))

    def destroy_entry(eng, st, f, args):
        pp = st.canon(args[0])
        st.set_nn(pp, True)
        h = eng.load_mem(st, None, pp[1], pp[2], 8, ir.PTR)
        if not st.set_nn(h, True): return []
        h = st.canon(h)
        t, n = ("src/ring/msg_queue.c", "__msg_queue") if f.name.startswith("msg") else ("src/ring/fixed_msg_queue.c", "_fixed_msg_queue_s")
        q = Q(eng, st, mod_of(eng, t), h[1], n)
        return [st] if st.set_nn(q.rp, True) else []

    @S_.fn(("msg_queue_destroy", "fixed_msg_queue_destroy"), destroy_entry)
    def _(c):
        pp = c.st.canon(c.args[0])
        c.holds(c.st.is_null(c.eng.load_mem(c.st, None, pp[1], pp[2], 8, ir.PTR)) is True, "the caller's handle must be reset", "reset")
    return S_


# ---------------------------------------------------------------- auto-cover buffer
ACB = "src/ring/autocover_buffer.c"


def autocover(S_):
    def entry(eng, st, f, args):
        h = st.canon(args[0])
        if not st.set_nn(h, True): return []
        o = Ob(eng, st, mod_of(eng, ACB), h[1], "_auto_cover_buf")
        rp = o.p(st, "ring")
        if not st.set_nn(rp, True): return []
        out = []
        m = ring_mod(eng)
        for s, a in Ring.states(eng, st, m, st.canon(rp)[1]):
            r = Ring(eng, s, m, s.canon(rp)[1])
            if not s.assume_le(addc(r.P, -(1 << 30))): continue
            if not s.assume_eq(sub(o.i(s, "ring_buffer_size"), r.P)): continue
            s.ts["ring"] = (r.P, a, r.IN, r.OUT, r.buf)
            s.ts["rbase"] = s.canon(rp)[1]
            for x in args[1:]:
                if x[0] == "p" and not s.set_nn(s.canon(x), True): s = None; break
            if s is None: continue
            if f.name == "auto_cover_buf_read":
                for s2, n in sized_int(eng, s, args[3], 32):
                    if s2.assume_ge0(addc(n, -1)): out.append(s2)
            else: out.append(s)
        return out

    def dist(c, st, pos):
        """[(state, k)]: k = how far pos lies behind the read position, modulo the size"""
        P, A, IN, OUT, buf = st.ts["ring"]
        out = []
        for s0, p in c.eng.ucanon(st.copy(), st.red(c.eng.as_int(st, pos, 32)), 32):
            for s1, o in c.eng.umod(s0, 32, s0.red(OUT), s0.red(P)):
                for s2, x in c.eng.umod(s1, 32, s1.red(p), s1.red(P)):
                    for k in (ZERO, P):
                        s = s2.copy()
                        e = add(sub(x, o), k)
                        if s.assume_ge0(e) and s.assume_le(addc(sub(e, P), 1)): out.append((s, s.red(e)))
        return out

    @S_.fn("auto_cover_buf_available_read", entry)
    def _(c):
        P, A, IN, OUT, buf = c.st.ts["ring"]
        for s0, k in dist(c, c.st, c.args[1]):
            for s1, r in [(x, y) for x, y in casesigned(c, s0)]:
                c.st = s1
                moved(c, s1, ZERO, ZERO)
                for s2, out_ in split(s1, sub(A, k)):
                    c.st = s2
                    if not out_: c.eq(r, sub(A, k), "must return the bytes from the position to the newest one", "amount")
                    else: c.holds(s2.cons.entails_le(r), "a position without data must not be reported readable", "covered")

    @S_.fn("auto_cover_buf_read", entry)
    def _(c):
        P, A, IN, OUT, buf = c.st.ts["ring"]
        tgt = c.st.canon(c.args[2])
        for sa, n in sized_int(c.eng, c.st.copy(), c.args[3], 32):
            for s0, k in dist(c, sa, c.args[1]):
                for s1, r in casesigned(c, s0):
                    for s2, ok in split(s1, sub(add(k, n), A)):
                        c.st = s2
                        if ok:
                            c.eq(r, n, "data that is there must be delivered", "amount")
                            moved(c, s2, ZERO, add(k, n))
                            for s3, st0 in ring_at(c, s2, add(OUT, k), P):
                                c.st = s3
                                place(c, s3, s3.ts.get("copies", ()), "src", buf, P, [(st0, tgt[1], tgt[2], n)], "read")
                        else:
                            c.holds(s2.cons.entails_le(addc(r, 1)), "data that is not there must be refused", "refuse")
                            moved(c, s2, ZERO, ZERO, " unchanged")

    @S_.fn("auto_cover_buf_write", entry)
    def _(c):
        P, A, IN, OUT, buf = c.st.ts["ring"]
        src = c.st.canon(c.args[1])
        for sa, n in sized_int(c.eng, c.st.copy(), c.args[2], 32):
            for s1, r in casesigned(c, sa):
                for s2, fits in split(s1, sub(n, P)):
                    c.st = s2
                    if not fits:
                        c.holds(s2.cons.entails_le(addc(r, 1)), "data longer than the buffer must be refused", "refuse")
                        moved(c, s2, ZERO, ZERO, " unchanged")
                        continue
                    c.eq(r, n, "must accept all of the data", "amount")
                    for s3, room in split(s2, sub(add(A, n), P)):
                        c.st = s3
                        moved(c, s3, n, ZERO if room else sub(add(A, n), P))
                        for s4, st0 in ring_at(c, s3, IN, P):
                            c.st = s4
                            place(c, s4, s4.ts.get("copies", ()), "dst", buf, P, [(st0, src[1], src[2], n)], "write")

    @S_.fn("auto_cover_buf_create", None)
    def _(c):
        st = c.st
        r = st.canon(c.r)
        if st.is_null(r) is True or not st.set_nn(r, True): return
        o = Ob(c.eng, st, mod_of(c.eng, ACB), r[1], "_auto_cover_buf")
        rp = st.canon(o.p(st, "ring"))
        if st.is_null(rp) is not False:
            c.fail("a buffer without ring is handed out", "no ring"); return
        R = Ob(c.eng, st, ring_mod(c.eng), rp[1], "__ring_buffer_t", rp[2])
        c.eq(o.i(st, "ring_buffer_size"), R.i(st, "size"), "the recorded size is not the size of the ring", "size")
        c.eq(R.i(st, "in"), R.i(st, "out"), "a new buffer must be empty", "empty")


def casesigned(c, st):
    e = st.red(c.eng.as_int(st, c.r, 32))
    return c.eng.scanon(st.copy(), e, 32)


CLIENTS = [HeaderLog]
from .p_ring import ring_in_mem
OPTS = {"merge_cap": 400, "ret_cap": 400, "models": {"RingBuffer_create_with_mem": ring_in_mem}}


def acb():
    S_ = Specs("autocover")
    autocover(S_)
    return S_
