"""P08/P09: message handlers and the thread pool: nothing pushed is left behind asleep, shutdown is orderly."""
from . import ir, models
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, dsym, fsym
from .spec import Specs, Ob, Case, last_ret, size_of, need, split
from .p_queue import mod_of
from .p_cont import same, newsym, heap, freed, truth

MSG, FIXED, POOL = "src/ring/msg_queue_handler.c", "src/ring/fixed_msg_queue_handler.c", "src/thread/thpool.c"
HS = {MSG: "_msg_queue_handler_s", FIXED: "_fixed_msg_queue_handler_s"}
PS = {MSG: "msg_queue_handler_init_param_t", FIXED: "fixed_msg_queue_handler_init_param_t"}
SUCCESS, AGAIN, EMPTY, FULL, SMALL = 0, 3, 4, 5, 6


class Sync(Client):
    """hands the events of interest to the mode of the specification"""
    name = "sync"
    rule = "wakeup"

    def mode(self, st):
        return MODES.get(st.ts.get("mode"))

    def on_call(self, eng, st, ins, name, args):
        m = self.mode(st)
        f = getattr(m, "call_" + name, None) if m else None
        return self.stop(f, self, eng, st, ins, args) if f else None

    def stop(self, f, *a):
        """a path that has broken the rule is not followed any further"""
        self.failed = False
        r = f(*a)
        return [] if self.failed else r

    def on_icall(self, eng, st, ins, f, args):
        m = self.mode(st)
        return self.stop(m.icall, self, eng, st, ins, st.canon(f), args) if m and hasattr(m, "icall") else None

    def on_access(self, eng, st, ins, base, off, size, write, val=None):
        m = self.mode(st)
        if m and hasattr(m, "access"): m.access(self, eng, st, ins, base, off, size, write, val)

    def on_free(self, eng, st, ins, val, fam):
        m = self.mode(st)
        if m and hasattr(m, "free"): m.free(self, eng, st, ins, val)

    def fail(self, eng, st, ins, what, key):
        self.failed = True
        eng.report("spec", st, ins, self.rule, what, key=key)

    def key(self, ts):
        return repr((ts.get("mode"), ts.get("sy"))) if ts.get("mode") else None


MODES = {}


def mode(name):
    def d(c):
        MODES[name] = c()
        return c
    return d


def put(st, **kw):
    d = dict(st.ts.get("sy", ()))
    d.update(kw)
    st.ts["sy"] = tuple(sorted(d.items()))


def get(st, k, default=None):
    return dict(st.ts.get("sy", ())).get(k, default)


# ------------------------------------------------------------------ message handlers
class Handler:
    def __init__(self, eng, path):
        self.eng, self.path, self.mod = eng, path, mod_of(eng, path)

    def at(self, st, base): return Ob(self.eng, st, self.mod, base, HS[self.path])

    def param(self, st, base):
        o, sz = self.at(st, base).where("param")
        return Ob(self.eng, st, self.mod, base, PS[self.path], o)

    def build(self, st, base, status=True, thread=True, queue=True):
        """a running handler"""
        h, p = self.at(st, base), self.param(st, base)
        user, fn = newsym(st, "user_data"), newsym(st, "fn_handle_msg")
        sf = newsym(st, "fn_on_status_changed") if status else NULL
        p.set(st, "user_data", user); p.set(st, "fn_handle_msg", fn); p.set(st, "fn_on_status_changed", sf)
        q = ("p", heap(self.eng, st, "queue", 64), ZERO) if queue else NULL
        sem = heap(self.eng, st, "semaphore", 32)
        th = ("p", heap(self.eng, st, "thread", 8), ZERO) if thread else NULL
        h.set(st, "msg_queue_p", q); h.set(st, "flag2exit", I(0))
        h.set(st, "semaphore", ("p", sem, ZERO)); h.set(st, "thread_handler", th)
        return dict(base=base, queue=q[1], sem=sem, thread=th[1], user=user[1], fn=fn[1], status=sf[1])

    def flag(self, st, base):
        v = self.eng.load_mem(st, None, base, *self.at(st, base).where("flag2exit"), ir.int_t(8), False)
        return st.cons.constval(st.red(self.eng.as_int(st, v, 8)))

    def setflag(self, st, base, v): self.eng.store_mem(st, None, base, self.at(st, base).where("flag2exit")[0], I(v), 1)


def handler_pre(path, **kw):
    def pre(eng, s, f, args):
        if s.set_nn(args[0], True) is False: return []
        h = Handler(eng, path)
        s.ts["h"] = h.build(s, s.canon(args[0])[1], **kw)
        s.ts["path"] = path
        return [s]
    return pre


# ---- push
@mode("push")
class Push:
    def call_sem_post(self, c, eng, st, ins, args):
        if st.canon(args[0])[1] != st.ts["h"]["sem"]: return None
        put(st, posts=min(3, get(st, "posts", 0) + 1))
        if get(st, "result") is None: c.fail(eng, st, ins, "the worker is woken before the message is in the queue", "early")
        return [(st, I(0))]

    def queue_push(self, c, eng, st, ins, args):
        a = tuple(st.canon(x) if x[0] == "p" else ("i", st.red(eng.as_int(st, x, 32))) for x in args)
        ok, no = st, st.copy()
        put(ok, result=True); put(no, result=False)
        for s in (ok, no): s.ts["pushed"] = s.ts.get("pushed", ()) + (a,)
        return ok, no

    def call_msg_queue_push(self, c, eng, st, ins, args):
        ok, no = self.queue_push(c, eng, st, ins, args)
        k = sym(fsym("refusal", 1, 6))
        return [(ok, I(SUCCESS)), (no, ("i", k))]

    def call_fixed_msg_queue_push(self, c, eng, st, ins, args):
        b = st.canon(args[1])
        st.ts["token"] = eng.load_mem(st, None, b[1], b[2], 8, ir.int_t(64), False)
        ok, no = self.queue_push(c, eng, st, ins, args)
        return [(ok, I(1)), (no, I(0))]


def pushes(S_):
    def pre(path):
        base = handler_pre(path)

        def p(eng, s, f, args):
            out = []
            s.set_nn(args[1], True)
            for x in base(eng, s, f, args):
                x.ts["mode"] = "push"; put(x, posts=0)
                h = Handler(eng, path)
                for flag in (0, 1):
                    y = x.copy()
                    h.setflag(y, x.ts["h"]["base"], flag)
                    y.ts["flag"] = flag
                    y.ts["spec"] = (flag,)
                    if path == FIXED: y.ts["tok"] = h.at(y, x.ts["h"]["base"]).i(y, "token_counter")
                    else:
                        m = Ob(eng, y, mod_of(eng, MSG), y.canon(args[1])[1], "queue_msg_t")
                        y.ts["len"] = m.i(y, "obj_len")
                        if not need(y, scale(y.ts["len"], -1), addc(y.ts["len"], -(1 << 31) + 1)): continue
                    out.append(y)
            return out
        return p

    def post(path):
        def p(c):
            st = c.st
            h = st.ts["h"]
            pushed = st.ts.get("pushed", ())
            posts = get(st, "posts")
            for s, r in c.ret():
                for s2, ok in split(s, r):
                    c.st = s2
                    if st.ts["flag"]:
                        c.holds(not pushed and not posts and not ok, "a handler whose worker has ended accepts a message", "ended")
                        continue
                    if len(pushed) != 1: c.fail("the message is pushed %d times" % len(pushed), "once"); continue
                    a = pushed[0]
                    c.holds(a[0][1] == h["queue"], "pushed into something other than the handler's queue", "queue")
                    done = get(st, "result")
                    c.holds(ok == done, "the result does not tell whether the message was queued", "result")
                    c.holds(posts == (1 if done else 0), "the worker is woken %s times for %s message" % (posts, "a queued" if done else "a refused"), "posts")
                    if path == MSG:
                        m = s2.canon(c.args[1])
                        c.holds(a[1][1] == m[1] and s2.red(sub(a[1][2], m[2])) == ZERO, "something other than the caller's message is pushed", "message")
                        c.eq(a[2][1], addc(s2.red(s2.ts["len"]), size_of(mod_of(c.eng, MSG), "queue_msg_t")), "size of the pushed message", "size", mod=1 << 32)
                    else:
                        m = s2.canon(c.args[1])
                        cps = [x for x in s2.ts.get("copies", ()) if x[0] == a[1][1]]
                        mm = mod_of(c.eng, FIXED)
                        want = size_of(mm, "fixed_msg_t")
                        c.holds(any(x[2] == m[1] and s2.red(x[3]) == s2.red(m[2]) and s2.red(x[4]) == const(want) and s2.red(sub(x[1], a[1][2])) == const(8) for x in cps), "the caller's message is not what is queued", "message")
                        c.eq(s2.red(c.eng.as_int(s2, s2.ts["token"], 64)), s2.ts["tok"], "token of the message", "token", mod=1 << 64)
                        now = Handler(c.eng, FIXED).at(s2, h["base"]).i(s2, "token_counter")
                        c.eq(now, addc(s2.ts["tok"], 1 if done else 0), "token counter after a push", "counter", mod=1 << 64)
        return p
    S_.add("msg_queue_handler_push", pre(MSG), post(MSG))
    S_.add("fixed_msg_queue_handler_push", pre(FIXED), post(FIXED))

    def pre_clear(eng, s, f, args):
        out = handler_pre(FIXED)(eng, s, f, args)
        for x in out: x.ts["tok"] = Handler(eng, FIXED).at(x, x.ts["h"]["base"]).i(x, "token_counter")
        return out

    @S_.fn("fixed_msg_queue_handler_clear", pre_clear)
    def _(c):
        o = Handler(c.eng, FIXED).at(c.st, c.st.ts["h"]["base"])
        c.eq(o.i(c.st, "min_valid_token"), c.st.ts["tok"], "after clear exactly the messages pushed later are valid", "clear")
        c.eq(o.i(c.st, "token_counter"), c.st.ts["tok"], "clear changes the token of the next message", "counter")


# ---- worker
@mode("worker")
class Worker:
    """sy: last = outcome of the last pop, woken, exit = the flag was raised, notified, quit = why it may end"""

    def handler(self, eng, st): return Handler(eng, st.ts["path"])

    def settled(self, c, eng, st, ins):
        """nothing popped may be forgotten"""
        l = get(st, "last")
        if l == "message": c.fail(eng, st, ins, "a message was taken from the queue and is not handed to the handler", "lost")
        if not get(st, "ready"): c.fail(eng, st, ins, "work starts before the handler was told that the worker is ready", "ready")

    def call_sem_wait(self, c, eng, st, ins, args):
        h = st.ts["h"]
        if st.canon(args[0])[1] != h["sem"]: return None
        self.settled(c, eng, st, ins)
        if get(st, "last") in ("again", "small"): c.fail(eng, st, ins, "the worker goes to sleep although the message it was woken for is still in the queue", "sleep")
        go, end = st, st.copy()
        H = self.handler(eng, st)
        H.setflag(go, h["base"], 0)
        H.setflag(end, h["base"], 1)
        put(go, last="woken")
        put(end, last="woken", exit=True)
        return [(go, I(0)), (end, I(0))]

    def pop(self, c, eng, st, ins, args):
        h = st.ts["h"]
        if get(st, "last") == "start": c.fail(eng, st, ins, "the queue is read before the worker was woken", "order")
        self.settled(c, eng, st, ins)
        if get(st, "exit"): c.fail(eng, st, ins, "a message is taken after the worker was told to end", "exit")
        if st.canon(args[0])[1] != h["queue"]: c.fail(eng, st, ins, "something other than the handler's queue is read", "queue")
        return st.canon(args[1])

    def call_msg_queue_pop(self, c, eng, st, ins, args):
        b = self.pop(c, eng, st, ins, args)
        z = st.canon(args[2])
        out = []
        for s, cap in eng.ucanon(st, eng.as_int(st, eng.load_mem(st, None, z[1], z[2], 4, ir.I32, False), 32), 32):
            out += self.popped(c, eng, s, ins, b, z, cap)
        return out

    def popped(self, c, eng, st, ins, b, z, cap):
        size = eng.obj_size(st, b[1])
        if size is None or not st.cons.entails_le(st.red(sub(add(cap, b[2]), size))): c.fail(eng, st, ins, "the queue is told a larger buffer than there is", "capacity")
        if get(st, "last") == "small":
            n = st.ts.get("asked")
            if n is not None and not st.cons.entails_ge0(st.red(sub(cap, n))): c.fail(eng, st, ins, "the buffer is still smaller than the message", "small")
        out = []
        for r, nm in ((SUCCESS, "message"), (EMPTY, "done"), (AGAIN, "again")):
            s = st.copy()
            put(s, last=nm)
            s.ts["asked"] = None
            s.ts["buf"] = b
            if nm == "message": eng.invalidate(s, b[1], b[2], cap)
            out.append((s, I(r)))
        n = sym(fsym("message size", 1, (1 << 31) - 1))      # P11: a ring holds at most 2^31 bytes
        probe = st.ts.get("probe")
        if probe:
            # the first message is too large: only the size of the next buffer is of interest
            if get(st, "last") != "woken": return []
            out = []
            if not (st.assume_ge0(addc(n, -probe[0])) and st.assume_le(addc(n, -probe[1]))): return []
        else: n = const((1 << 20) + 1)
        st.ts["asked"] = n
        if st.assume_ge0(addc(sub(n, cap), -1)):
            put(st, last="small")
            eng.store_mem(st, None, z[1], z[2], ("i", n), 4)
            out.append((st, I(SMALL)))
        return out

    def call_fixed_msg_queue_pop(self, c, eng, st, ins, args):
        b = self.pop(c, eng, st, ins, args)
        h = st.ts["h"]
        mm = mod_of(eng, FIXED)
        size = size_of(mm, "fixed_handler_msg_t")
        eng.invalidate(st, b[1], b[2], const(size))
        mn = self.handler(eng, st).at(st, h["base"]).i(st, "min_valid_token")
        none = st.copy()
        put(none, last="done")
        out = [(none, I(0))]
        t = sym(fsym("token", 0, (1 << 64) - 1))
        for nm, cond in (("message", lambda s: s.assume_ge0(sub(t, mn))), ("stale", lambda s: s.assume_le(addc(sub(t, mn), 1)))):
            s = st.copy()
            if not cond(s): continue
            eng.store_mem(s, None, b[1], b[2], ("i", t), 8)
            put(s, last=nm)
            s.ts["buf"] = b
            out.append((s, I(1)))
        return out

    def icall(self, c, eng, st, ins, f, args):
        h = st.ts["h"]
        a = [st.canon(x) if x[0] == "p" else x for x in args]
        if f[1] == h["status"] and h["status"] != NULLB:
            v = st.cons.constval(st.red(eng.as_int(st, a[0], 32)))
            if a[1][1] != h["user"]: c.fail(eng, st, ins, "the user's data is not passed on", "user")
            if v == 0:
                if get(st, "ready"): c.fail(eng, st, ins, "the worker reports being ready twice", "ready")
                if get(st, "gone"): c.fail(eng, st, ins, "the worker reports being ready after its end", "ready")
                put(st, ready=True)
            elif v == 1:
                if get(st, "gone"): c.fail(eng, st, ins, "the worker reports its end twice", "gone")
                if self.handler(eng, st).flag(st, h["base"]) != 1: c.fail(eng, st, ins, "the worker reports its end while messages are still accepted", "flag")
                put(st, gone=True)
            else: c.fail(eng, st, ins, "an unknown status is reported", "status")
            return [(st, None)]
        if f[1] == h["fn"]:
            l = get(st, "last")
            if l == "stale": c.fail(eng, st, ins, "a message pushed before the queue was cleared is handed to the handler", "stale")
            elif l != "message": c.fail(eng, st, ins, "the handler is called without a new message", "twice")
            else:
                b = st.ts["buf"]
                off = 0 if st.ts["path"] == MSG else 8
                if a[0][1] != b[1] or st.red(sub(a[0][2], b[2])) != const(off): c.fail(eng, st, ins, "the handler is given something other than the message", "message")
                if a[1][1] != h["user"]: c.fail(eng, st, ins, "the user's data is not passed on", "user")
            if get(st, "gone"): c.fail(eng, st, ins, "a message is handled after the worker reported its end", "gone")
            go, end = st, st.copy()
            put(go, last="done"); put(end, last="done", exit=True)
            out = [(go, I(0))]
            r = sym(fsym("handler result", -(1 << 31), (1 << 31) - 1))
            for s in eng.assume(end, ("cmp", "ne", ("i", r), I(0), 32), True):
                if not s.cons.bot: out.append((s, ("i", r)))
            return out
        return None


def workers(S_):
    def pre(path):
        def p(eng, s, f, args):
            out = []
            for status in (True, False):
                for x in handler_pre(path, status=status)(eng, s.copy(), f, args):
                    x.ts["mode"] = "worker"
                    x.ts["nounroll"] = f.name
                    put(x, last="start", ready=not status)
                    x.ts["spec"] = (status,)
                    out.append(x)
            if path == MSG:
                for bits in range(12, 31):
                    for x in handler_pre(path, status=False)(eng, s.copy(), f, args):
                        x.ts["mode"] = "worker"
                        x.ts["probe"] = (1 << bits, (1 << (bits + 1)) - 1)
                        put(x, last="start", ready=True)
                        x.ts["spec"] = ("size", bits)
                        out.append(x)
            return out
        return p

    def post(path):
        def p(c):
            st = c.st
            h = st.ts["h"]
            H = Handler(c.eng, path)
            if H.flag(st, h["base"]) != 1: c.fail("the worker ends and messages are still accepted", "flag")
            if h["status"] != NULLB and not get(st, "gone"): c.fail("the worker ends without reporting it", "gone")
            if get(st, "last") == "message": c.fail("the worker ends with a message taken and not handled", "lost")
            if not get(st, "exit") and not st.ts.get("allocfail"): c.fail("the worker ends although nobody asked for it", "ends")
        return p
    for path in (MSG, FIXED): S_.add("@thread:" + path, pre(path), post(path))


# ------------------------------------------------------------------ thread pool
class Pool:
    def __init__(self, eng):
        self.eng, self.mod = eng, mod_of(eng, POOL)

    def pool(self, st, base): return Ob(self.eng, st, self.mod, base, "thpool_")

    def queue(self, st, base):
        return Ob(self.eng, st, self.mod, base, "jobqueue", self.pool(st, base).where("jobqueue")[0])

    def bsem(self, st, b): return Ob(self.eng, st, self.mod, b, "bsem")

    def job(self, st, b): return Ob(self.eng, st, self.mod, b, "job")

    def build(self, st, base, jobs, keep=1, v=None):
        p, q = self.pool(st, base), self.queue(st, base)
        sem = heap(self.eng, st, "has_jobs", size_of(self.mod, "bsem"))
        js = []
        for i in range(jobs):
            jb = heap(self.eng, st, "job%d" % i, size_of(self.mod, "job"))
            fn, arg = newsym(st, "function%d" % i), newsym(st, "arg%d" % i, True)
            j = self.job(st, jb)
            j.set(st, "function", fn); j.set(st, "arg", arg); j.set(st, "prev", NULL)
            if js: self.job(st, js[-1][0]).set(st, "prev", ("p", jb, ZERO))
            js.append((jb, fn[1], arg))
        q.set(st, "front", ("p", js[0][0], ZERO) if js else NULL)
        q.set(st, "rear", ("p", js[-1][0], ZERO) if js else NULL)
        q.set(st, "len", I(jobs)); q.set(st, "has_jobs", ("p", sem, ZERO))
        self.bsem(st, sem).set(st, "v", I((1 if jobs else 0) if v is None else v))
        p.set(st, "threads_keepalive", I(keep))
        return dict(base=base, sem=sem, jobs=tuple(js))

    def chain(self, c, st, base):
        """[job base] of the queue from front to rear, checked"""
        q = self.queue(st, base)
        out, p = [], q.p(st, "front")
        n = st.cons.constval(q.i(st, "len"))
        if n is None or n > 8: c.fail("the number of queued jobs is wrong (%s)" % show(q.i(st, "len")), "len"); return None
        for i in range(n):
            if p[1][0] != "h" or freed(st, p[1]): c.fail("the queue of jobs is broken", "chain"); return None
            out.append(p[1])
            p = self.job(st, p[1]).p(st, "prev")
        if n and q.p(st, "rear")[1] != out[-1]: c.fail("rear is not the last job", "rear"); return None
        if n and st.is_null(p) is not True: c.fail("the last job has a successor", "chain"); return None
        if not n and st.is_null(q.p(st, "front")) is not True: c.fail("front of an empty queue", "front"); return None
        return out

    def mutexes(self, st, base):
        p, q = self.pool(st, base), self.queue(st, base)
        return {"count": (base, st.red(p.where("thcount_lock")[0])), "queue": (base, st.red(q.where("rwmutex")[0])),
                "idle": (base, st.red(p.where("threads_all_idle")[0]))}


def at(st, v):
    v = st.canon(v)
    return (v[1], st.red(v[2]))


@mode("add")
class Add:
    def call_pthread_cond_signal(self, c, eng, st, ins, args):
        P = Pool(eng)
        b = st.ts["pool"]["sem"]
        if at(st, args[0]) == (b, P.bsem(st, b).where("cond")[0]):
            if st.cons.constval(P.bsem(st, b).i(st, "v")) != 1: c.fail(eng, st, ins, "workers are woken before there is something to see", "v")
            put(st, woken=True)
        return None
    call_pthread_cond_broadcast = call_pthread_cond_signal

    def call_pthread_mutex_unlock(self, c, eng, st, ins, args):
        P, pl = Pool(eng), st.ts["pool"]
        if at(st, args[0]) != P.mutexes(st, pl["base"])["queue"]: return None
        last = P.queue(st, pl["base"]).p(st, "rear")
        if last[1] in [j[0] for j in pl["jobs"]] or last[1][0] != "h" or freed(st, last[1]): return None
        j = P.job(st, last[1])
        if st.canon(j.p(st, "function")) != st.canon(st.ts["want"][0]) or st.canon(j.p(st, "arg")) != st.canon(st.ts["want"][1]):
            c.fail(eng, st, ins, "the job can be taken by a worker before it is complete", "publish")
        return None


@mode("pool worker")
class PoolWorker:
    """sequential: the worker alone drains the queue; its wait on an empty queue ends the path"""

    def call_pthread_cond_wait(self, c, eng, st, ins, args):
        P = Pool(eng)
        pl = st.ts["pool"]
        b = pl["sem"]
        if at(st, args[0]) != (b, P.bsem(st, b).where("cond")[0]): return None
        case = Case(eng, st, st.ts["fn"], None, None, c.rule)
        self.idle(c, eng, st, ins)
        w = get(st, "waits", 0)
        if w == 0:
            # the pool is shut down while the worker sleeps
            s = st.copy()
            P.pool(s, pl["base"]).set(s, "threads_keepalive", I(0))
            P.bsem(s, b).set(s, "v", I(1))
            put(s, waits=1, down=True)
            return [(s, I(0))]
        return []

    def call_pthread_mutex_lock(self, c, eng, st, ins, args):
        P, pl = Pool(eng), st.ts["pool"]
        if at(st, args[0]) == P.mutexes(st, pl["base"])["queue"] and get(st, "ran", 0) == len(pl["jobs"]):
            put(st, polls=get(st, "polls", 0) + 1)
            if get(st, "polls") > 2: c.fail(eng, st, ins, "the worker keeps looking for jobs in an empty queue instead of sleeping", "polls")
        return None

    def idle(self, c, eng, st, ins):
        P = Pool(eng)
        pl = st.ts["pool"]
        if get(st, "down"): c.fail(eng, st, ins, "the worker goes to sleep although the pool is being shut down", "down")
        if get(st, "ran", 0) != len(pl["jobs"]): c.fail(eng, st, ins, "the worker goes to sleep although jobs are queued (%d of %d done)" % (get(st, "ran", 0), len(pl["jobs"])), "asleep")
        self.settled(c, eng, st, ins)

    def settled(self, c, eng, st, ins):
        P = Pool(eng)
        pl = st.ts["pool"]
        for j, fn, arg in pl["jobs"][:get(st, "ran", 0)]:
            if not freed(st, j): c.fail(eng, st, ins, "a finished job is not released", "job")
        w = P.pool(st, pl["base"]).i(st, "num_threads_working")
        if not st.cons.entails_eq(st.red(sub(w, st.ts["working"]))): c.fail(eng, st, ins, "an idle worker is counted as working", "working")
        if get(st, "ran", 0) and get(st, "told") != get(st, "ran") and st.cons.entails_eq(st.ts["working"]):
            c.fail(eng, st, ins, "the last worker becomes idle without waking those who wait for that", "idle")

    def call_pthread_cond_broadcast(self, c, eng, st, ins, args):
        P = Pool(eng)
        if at(st, args[0]) == P.mutexes(st, st.ts["pool"]["base"])["idle"]:
            w = P.pool(st, st.ts["pool"]["base"]).i(st, "num_threads_working")
            if st.cons.entails_eq(w): put(st, told=get(st, "ran", 0))
        return None

    def icall(self, c, eng, st, ins, f, args):
        pl = st.ts["pool"]
        n = get(st, "ran", 0)
        for i, (j, fn, arg) in enumerate(pl["jobs"]):
            if f[1] != fn: continue
            if i != n: c.fail(eng, st, ins, "jobs are not run exactly once in the order they were added", "order")
            if st.canon(args[0]) != st.canon(arg): c.fail(eng, st, ins, "a job is run with another argument", "arg")
            if get(st, "down"): c.fail(eng, st, ins, "a job is started after shutdown", "down")
            w = Pool(eng).pool(st, pl["base"]).i(st, "num_threads_working")
            if not st.cons.entails_eq(st.red(addc(sub(w, st.ts["working"]), -1))): c.fail(eng, st, ins, "a busy worker is not counted as working", "working")
            put(st, ran=n + 1)
            return [(st, None)]
        return None


@mode("pool wait")
class PoolWait:
    def call_pthread_cond_wait(self, c, eng, st, ins, args):
        P = Pool(eng)
        base = st.ts["pool"]["base"]
        if at(st, args[0]) != P.mutexes(st, base)["idle"]: return None
        P.queue(st, base).set(st, "len", ("i", sym(fsym("len", 0, (1 << 31) - 1))))
        P.pool(st, base).set(st, "num_threads_working", ("i", sym(fsym("working", 0, (1 << 31) - 1))))
        return [(st, I(0))]


def pools(S_):
    def base_of(eng, s, v):
        return s.canon(v)[1] if s.set_nn(v, True) else None

    def pre_add(eng, s, f, args):
        out = []
        base = base_of(eng, s, args[0])
        for n in (0, 1, 2):
            for fn in (True, False):
                x = s.copy()
                x.ts["pool"] = Pool(eng).build(x, base, n)
                x.ts["mode"] = "add"
                x.ts["spec"] = (n, fn)
                x.ts["want"] = args[1:3]
                if x.set_nn(args[1], fn) is not False: out.append(x)
        return out

    @S_.fn("thpool_add_work", pre_add)
    def _(c):
        st = c.st
        P, pl = Pool(c.eng), c.st.ts["pool"]
        got = P.chain(c, st, pl["base"])
        if got is None: return
        old = [j[0] for j in pl["jobs"]]
        for s, r in c.ret(signed=True):
            for s2, ok in ((s.copy(), True), (s, False)):
                if ok and not (s2.assume_eq(r)): continue
                if not ok:
                    zs = [y for y in c.eng.assume(s2, ("cmp", "ne", ("i", r), I(0), 32), True) if not y.cons.bot]
                    if not zs: continue
                    s2 = zs[0]
                c.st = s2
                if not ok:
                    c.holds(got == old, "a refused job is queued all the same", "refused")
                    c.holds(s2.ts.get("allocfail") or s2.is_null(c.args[1]) is True, "a job is refused without a reason", "reason")
                    continue
                c.holds(s2.is_null(c.args[1]) is not True, "a job without a function is accepted", "function")
                if not c.holds(got[:-1] == old and len(got) == len(old) + 1, "the job is not added behind the others", "added"): continue
                j = P.job(s2, got[-1])
                c.holds(same(c, s2, j.p(s2, "function"), c.args[1]) is True and same(c, s2, j.p(s2, "arg"), c.args[2]) is True, "the queued job is not the caller's", "job")
                c.holds(s2.cons.constval(P.bsem(s2, pl["sem"]).i(s2, "v")) == 1, "no worker will see the new job", "v")
                c.holds(get(s2, "woken"), "no worker is woken for the new job", "woken")

    def pre_do(eng, s, f, args):
        out = []
        tb = base_of(eng, s, args[0])
        P = Pool(eng)
        for n in (0, 1, 2, 3):
            for others in (0, 1):
                x = s.copy()
                pb = ("s", fsym("pool"))
                x.nn[pb] = True
                Ob(eng, x, P.mod, tb, "thread").set(x, "thpool_p", ("p", pb, ZERO))
                pl = P.build(x, pb, n)
                w = ZERO if not others else sym(eng.intsym(x, "working", 32, key=("argi", "pool", "working")))
                if others and not (x.assume_ge0(addc(w, -1)) and x.assume_le(addc(w, -1000))): continue
                a = sym(eng.intsym(x, "alive", 32, key=("argi", "pool", "alive")))
                if not (x.assume_ge0(a) and x.assume_le(addc(a, -1000))): continue
                P.pool(x, pb).set(x, "num_threads_working", ("i", w))
                P.pool(x, pb).set(x, "num_threads_alive", ("i", a))
                x.ts.update({"pool": pl, "mode": "pool worker", "working": w, "alive": a, "fn": f, "spec": (n, others)})
                put(x, ran=0, told=0)
                out.append(x)
        return out

    @S_.fn("@thread:" + POOL, pre_do)
    def _(c):
        st = c.st
        P, pl = Pool(c.eng), c.st.ts["pool"]
        c.holds(get(st, "down"), "the worker ends although the pool is in use", "ends")
        c.eq(P.pool(st, pl["base"]).i(st, "num_threads_alive"), st.ts["alive"], "an ended worker is still counted (or not counted down once)", "alive")
        c.eq(P.pool(st, pl["base"]).i(st, "num_threads_working"), st.ts["working"], "an ended worker is counted as working", "working")

    def pre_wait(eng, s, f, args):
        base = base_of(eng, s, args[0])
        s.ts["pool"] = {"base": base}
        s.ts["mode"] = "pool wait"
        return [s]

    @S_.fn("thpool_wait", pre_wait)
    def _(c):
        P, b = Pool(c.eng), c.st.ts["pool"]["base"]
        c.holds(c.st.cons.entails_eq(P.queue(c.st, b).i(c.st, "len")), "returns while jobs are queued", "len")
        c.holds(c.st.cons.entails_eq(P.pool(c.st, b).i(c.st, "num_threads_working")), "returns while a job is running", "working")


# ------------------------------------------------------------------ start and end of handlers
@mode("destroy")
class Destroy:
    """told to end -> woken -> joined -> released"""

    def told(self, eng, st): return Handler(eng, st.ts["path"]).flag(st, st.ts["h"]["base"]) == 1

    def call_sem_post(self, c, eng, st, ins, args):
        if st.canon(args[0])[1] != st.ts["h"]["sem"]: return None
        if self.told(eng, st): put(st, posted=True)
        return [(st, I(0))]

    def call_portable_thread_join(self, c, eng, st, ins, args):
        if st.canon(args[0])[1] != st.ts["h"]["thread"]: c.fail(eng, st, ins, "something other than the handler's thread is joined", "join")
        if not self.told(eng, st): c.fail(eng, st, ins, "the worker is waited for without having been told to end", "told")
        if not get(st, "posted"): c.fail(eng, st, ins, "the worker is waited for although it may be asleep", "posted")
        put(st, joined=True)
        return [(st, I(0))]

    def alone(self, c, eng, st, ins, what):
        if st.ts["h"]["thread"] != NULLB and not get(st, "joined"): c.fail(eng, st, ins, "%s released while the worker may still use it" % what, "early " + what)

    def call_sem_destroy(self, c, eng, st, ins, args):
        if st.canon(args[0])[1] != st.ts["h"]["sem"]: return None
        self.alone(c, eng, st, ins, "the semaphore is")
        put(st, sem=True)
        return [(st, I(0))]

    def queue_destroy(self, c, eng, st, ins, args):
        a = st.canon(args[0])
        q = st.canon(eng.load_mem(st, None, a[1], a[2], 8, ir.PTR))
        if q[1] != st.ts["h"]["queue"] or q[1] == NULLB: return [(st, None)]
        self.alone(c, eng, st, ins, "the queue is")
        put(st, queue=True)
        eng.store_mem(st, None, a[1], a[2], NULL, 8)
        return [(st, None)]
    call_msg_queue_destroy = call_fixed_msg_queue_destroy = queue_destroy

    def free(self, c, eng, st, ins, val):
        b = st.canon(val)[1]
        if b == st.ts["h"]["base"]: self.alone(c, eng, st, ins, "the handler is")
        if b == st.ts["h"]["sem"]: self.alone(c, eng, st, ins, "the semaphore is")


@mode("create")
class Create:
    """everything the worker uses is in place before it starts"""

    def queue_create(self, c, eng, st, ins, args):
        no = st.copy()
        put(no, failed=True)
        q = heap(eng, st, "queue", 64)
        return [(no, NULL), (st, ("p", q, ZERO))]
    call_msg_queue_create = call_fixed_msg_queue_create = queue_create

    def call_sem_init(self, c, eng, st, ins, args):
        no = st.copy()
        put(no, failed=True)
        if st.cons.constval(st.red(eng.as_int(st, args[2], 32))) != 0: c.fail(eng, st, ins, "the worker's semaphore does not start at zero", "sem")
        put(st, sem=True)
        return [(no, I(-1)), (st, I(0))]

    def call_portable_thread_create(self, c, eng, st, ins, args):
        path = st.ts["path"]
        H = Handler(eng, path)
        ctx = st.canon(args[3])
        h, p = H.at(st, ctx[1]), H.param(st, ctx[1])
        if get(st, "made"): c.fail(eng, st, ins, "a second worker is started", "twice")
        if st.is_null(h.p(st, "msg_queue_p")) is not False or h.p(st, "msg_queue_p")[1] != ("h", ("shape", "queue"), 0): c.fail(eng, st, ins, "the worker starts without a queue", "queue")
        if st.is_null(h.p(st, "semaphore")) is not False or not get(st, "sem"): c.fail(eng, st, ins, "the worker starts without its semaphore", "sem")
        if H.flag(st, ctx[1]) != 0: c.fail(eng, st, ins, "the worker starts while being told to end", "flag")
        for n, v in st.ts["params"]:
            if p.p(st, n) != st.canon(v): c.fail(eng, st, ins, "the worker starts without the caller's %s" % n, n)
        if path == FIXED:
            t, m = h.i(st, "token_counter"), h.i(st, "min_valid_token")
            if not st.cons.entails_ge0(st.red(sub(t, m))): c.fail(eng, st, ins, "messages are discarded from the start", "tokens")
        no = st.copy()
        put(no, failed=True)
        a = st.canon(args[0])
        if a[1] != ctx[1]: c.fail(eng, st, ins, "the thread is not kept with its handler", "thread")
        eng.store_mem(no, None, a[1], a[2], NULL, 8)
        eng.store_mem(st, None, a[1], a[2], ("p", heap(eng, st, "thread", 8), ZERO), 8)
        put(st, made=True)
        st.ts["ctx"] = ctx
        return [(no, I(11)), (st, I(0))]


def lifecycle(S_):
    def pre_destroy(path):
        def p(eng, s, f, args):
            out = []
            if s.set_nn(args[0], True) is False: return []
            a = s.canon(args[0])
            for thread, queue in ((True, True), (False, True), (False, False)):
                x = s.copy()
                base = heap(eng, x, "handler", size_of(mod_of(eng, path), HS[path]))
                x.ts["h"] = Handler(eng, path).build(x, base, thread=thread, queue=queue)
                x.ts["path"], x.ts["mode"] = path, "destroy"
                eng.store_mem(x, None, a[1], a[2], ("p", base, ZERO), 8)
                x.ts["spec"] = (thread, queue)
                out.append(x)
            return out
        return p

    def post_destroy(c):
        st, h = c.st, c.st.ts["h"]
        a = st.canon(c.args[0])
        if h["thread"] != NULLB: c.holds(get(st, "joined"), "returns without waiting for the worker", "joined")
        c.holds(freed(st, h["base"]), "the handler is not released", "handler")
        c.holds(get(st, "sem"), "the semaphore is not destroyed", "sem")
        if h["queue"] != NULLB: c.holds(get(st, "queue"), "the queue is not destroyed", "queue")
        c.holds(st.is_null(c.eng.load_mem(st, None, a[1], a[2], 8, ir.PTR)) is True, "the caller keeps a handle of what is gone", "handle")

    def pre_create(path):
        def p(eng, s, f, args):
            out = []
            mod = mod_of(eng, path)
            for kind in ("valid", "no param", "no callback"):
                x = s.copy()
                if x.set_nn(args[1], kind != "no param") is False: continue
                vals = []
                if kind != "no param":
                    o = Ob(eng, x, mod, x.canon(args[1])[1], PS[path])
                    for n in ("user_data", "fn_handle_msg", "fn_on_status_changed"):
                        v = newsym(x, n, null=n != "fn_handle_msg")
                        if n == "fn_handle_msg" and kind == "no callback": v = NULL
                        o.set(x, n, v)
                        vals.append((n, v))
                x.ts.update({"path": path, "mode": "create", "params": tuple(vals), "kind": kind, "spec": (kind,)})
                if kind == "valid" and not x.assume_ge0(addc(eng.as_int(x, args[0], 32), -4)): continue
                put(x)
                out.append(x)
            return out
        return p

    def post_create(c):
        st = c.st
        r = st.canon(c.r)
        null = st.is_null(r)
        if st.ts["kind"] != "valid":
            c.holds(null is True, "a handler without %s" % st.ts["kind"][3:], "invalid"); return
        if null is True:
            c.holds(get(st, "failed") or st.ts.get("allocfail"), "no handler although nothing failed", "refused")
            c.holds(not get(st, "made"), "a worker is left running without a handler", "orphan")
            return
        c.holds(not get(st, "failed") and not st.ts.get("allocfail"), "a handler although something failed", "half")
        c.holds(get(st, "made"), "a handler without a worker", "worker")
        if get(st, "made"): c.holds(st.canon(st.ts["ctx"])[1] == r[1] and st.red(st.canon(st.ts["ctx"])[2]) == ZERO, "the worker serves another handler", "ctx")
        c.holds(not freed(st, r[1]), "the handler is already released", "released")
    for path, n in ((MSG, "msg_queue_handler"), (FIXED, "fixed_msg_queue_handler")):
        S_.add(n + "_destroy", pre_destroy(path), post_destroy)
        S_.add(n + "_create", pre_create(path), post_create)


# ------------------------------------------------------------------ start and end of the pool
@mode("pool life")
class PoolLife:
    """workers start in a complete pool, and nothing is released before the last of them is gone"""

    def base(self, st): return st.ts["pool"]["base"] if st.ts.get("pool") else None

    def alive(self, eng, st): return Pool(eng).pool(st, self.base(st)).i(st, "num_threads_alive")

    def down(self, eng, st): return st.cons.constval(Pool(eng).pool(st, self.base(st)).i(st, "threads_keepalive")) == 0

    def access(self, c, eng, st, ins, base, off, size, write, val):
        b = self.base(st)
        if base != b or write or ins is None: return
        o, sz = Pool(eng).pool(st, b).where("num_threads_alive")
        if st.red(off) != st.red(o): return
        n = get(st, "created", 0)
        cur = self.alive(eng, st)
        if not self.down(eng, st):
            if not get(st, "all") and not st.cons.entails_eq(addc(cur, -n)): pass
            elif get(st, "running"): return
            v = sym(fsym("alive", 0, n))
        else:
            if get(st, "looked") and st.cons.entails_ge0(addc(cur, -1)) and not get(st, "woke"):
                c.fail(eng, st, ins, "waits for workers that may be asleep", "asleep")
            put(st, looked=True, woke=False)
            v = sym(fsym("alive", 0, n))
        put(st, locked=False)
        eng.put_cell(st, b, o, ("i", v), sz)

    def call_pthread_cond_broadcast(self, c, eng, st, ins, args):
        if self.base(st) is None: return None
        P = Pool(eng)
        q = P.queue(st, self.base(st)).p(st, "has_jobs")
        if at(st, args[0]) == (q[1], P.bsem(st, q[1]).where("cond")[0]) and self.down(eng, st) and st.cons.constval(P.bsem(st, q[1]).i(st, "v")) == 1: put(st, woke=True)
        return None
    call_pthread_cond_signal = call_pthread_cond_broadcast

    def call_pthread_mutex_lock(self, c, eng, st, ins, args):
        if self.base(st) is not None and at(st, args[0]) == Pool(eng).mutexes(st, self.base(st))["count"]: put(st, locked=True)
        return None

    def inited(self, c, eng, st, ins, args):
        if not any(x == at(st, args[0]) for x in st.ts.get("inits", ())): st.ts["inits"] = st.ts.get("inits", ()) + (at(st, args[0]),)
        return [(st, I(0))]
    call_pthread_mutex_init = call_pthread_cond_init = inited

    def call_pthread_create(self, c, eng, st, ins, args):
        P = Pool(eng)
        t = st.canon(args[3])
        b = st.canon(Ob(eng, st, P.mod, t[1], "thread").p(st, "thpool_p"))
        if b[0] != "p" or b[1][0] != "h" or st.red(b[2]) != ZERO:
            c.fail(eng, st, ins, "a worker is started without its pool", "pool")
            return []
        b = b[1]
        inits = st.ts.get("inits", ())
        q = P.queue(st, b).p(st, "has_jobs")
        want = dict(P.mutexes(st, b))
        if st.is_null(q) is not False: c.fail(eng, st, ins, "a worker is started before the queue of jobs is ready", "queue"); return []
        bs = P.bsem(st, q[1])
        want["has_jobs lock"], want["has_jobs condition"] = (q[1], st.red(bs.where("mutex")[0])), (q[1], st.red(bs.where("cond")[0]))
        for n, w in sorted(want.items()):
            if w not in inits: c.fail(eng, st, ins, "a worker is started before the %s lock or condition is initialised" % n, "init " + n)
        if st.cons.constval(P.pool(st, b).i(st, "threads_keepalive")) != 1: c.fail(eng, st, ins, "a worker is started in a pool that is being shut down", "keepalive")
        for n, ob in (("len", P.queue(st, b)), ("v", bs)):
            if st.cons.constval(ob.i(st, n)) != 0: c.fail(eng, st, ins, "a worker is started before the queue of jobs is ready", n)
        n = get(st, "created", 0)
        if n == 0:
            for f in ("num_threads_alive", "num_threads_working"):
                if st.cons.constval(P.pool(st, b).i(st, f)) != 0: c.fail(eng, st, ins, "%s does not start at zero" % f, f)
        if any(x == t[1] for x in st.ts.get("workers", ())): c.fail(eng, st, ins, "two workers share their data", "data")
        no = st.copy()
        put(no, failed=True)
        put(st, created=n + 1)
        st.ts["pool"] = {"base": b, "sem": q[1]}
        st.ts["workers"] = st.ts.get("workers", ()) + (t[1],)
        return [(no, I(11)), (st, I(0))]

    def free(self, c, eng, st, ins, val):
        v = st.canon(val)
        pl = st.ts.get("pool")
        if pl is None or v[1] not in (pl["base"], pl["sem"]) + tuple(st.ts.get("workers", ())): return
        if not get(st, "created"): return
        if v[1] in st.ts.get("workers", ()) and v[1] != pl["base"] and v[1] != pl["sem"]: what = "a worker's data is"
        else: what = "the pool is"
        if freed(st, pl["base"]): return
        if not self.down(eng, st) or not st.cons.entails_eq(self.alive(eng, st)):
            c.fail(eng, st, ins, "%s released while a worker may still run" % what, "early")
        elif v[1] == pl["base"] and not get(st, "locked"):
            c.fail(eng, st, ins, "the pool is released while its last worker may still hold the lock", "lock")


@mode("pool leave")
class PoolLeave:
    """a worker that was counted out does not touch the pool any more"""

    def call_pthread_cond_wait(self, c, eng, st, ins, args):
        P, pl = Pool(eng), st.ts["pool"]
        P.pool(st, pl["base"]).set(st, "threads_keepalive", I(0))
        P.bsem(st, pl["sem"]).set(st, "v", I(1))
        return [(st, I(0))]

    def out(self, eng, st):
        return st.cons.entails_eq(st.red(sub(Pool(eng).pool(st, st.ts["pool"]["base"]).i(st, "num_threads_alive"), st.ts["alive"]))) and get(st, "in")

    def call_pthread_mutex_lock(self, c, eng, st, ins, args):
        P, pl = Pool(eng), st.ts["pool"]
        if get(st, "left"): c.fail(eng, st, ins, "the pool is used by a worker that was already counted out", "lock")
        if at(st, args[0]) == P.mutexes(st, pl["base"])["count"]: put(st, held=True)
        return None

    def call_pthread_mutex_unlock(self, c, eng, st, ins, args):
        P, pl = Pool(eng), st.ts["pool"]
        if get(st, "left"): c.fail(eng, st, ins, "the pool is used by a worker that was already counted out", "unlock")
        if at(st, args[0]) == P.mutexes(st, pl["base"])["count"]:
            put(st, held=False)
            if get(st, "out"): put(st, left=True)
        return None

    def access(self, c, eng, st, ins, base, off, size, write, val):
        pl = st.ts["pool"]
        if ins is None or base not in (pl["base"], pl["sem"]): return
        P = Pool(eng)
        if get(st, "left"): c.fail(eng, st, ins, "the pool is used by a worker that was already counted out", "access")
        o, sz = P.pool(st, pl["base"]).where("num_threads_alive")
        if write and base == pl["base"] and st.red(off) == st.red(o):
            if not get(st, "held"): c.fail(eng, st, ins, "the workers are counted without the lock", "count")
            d = st.red(sub(eng.as_int(st, val, 32), P.pool(st, pl["base"]).i(st, "num_threads_alive")))
            if st.cons.entails_eq(addc(d, 1)): put(st, out=True)


def pool_life(S_):
    def pre_init(eng, s, f, args):
        out = []
        for n in (-2, 0, 1, 2, 3):
            x = s.copy()
            x.ts.update({"args": [I(n)] + list(args[1:]), "mode": "pool life", "n": max(n, 0), "spec": (n,)})
            put(x, created=0)
            out.append(x)
        return out

    @S_.fn("thpool_init", pre_init)
    def _(c):
        st, n = c.st, c.st.ts["n"]
        P = Pool(c.eng)
        r = st.canon(c.r)
        made = get(st, "created", 0)
        if st.is_null(r) is True:
            c.holds(get(st, "failed") or st.ts.get("allocfail"), "no pool although nothing failed", "refused")
            if made: c.holds(freed(st, st.ts["pool"]["base"]), "workers are left running without a pool", "orphans")
            return
        c.holds(made == n, "a pool of %d workers has %d" % (n, made), "number")
        c.holds(not get(st, "failed"), "a pool although a worker could not be started", "half")
        if made:
            c.holds(r[1] == st.ts["pool"]["base"], "the workers serve another pool", "pool")
            c.holds(st.cons.entails_eq(addc(P.pool(st, r[1]).i(st, "num_threads_alive"), -n)), "returns before all workers have started", "started")
        c.holds(st.cons.constval(P.pool(st, r[1]).i(st, "threads_keepalive")) == 1, "the pool is created shut down", "keepalive")
        ts = P.pool(st, r[1]).p(st, "threads")
        got = [st.canon(c.eng.load_mem(st, None, ts[1], addc(ts[2], 8 * i), 8, ir.PTR))[1] for i in range(n)]
        c.holds(sorted(map(repr, got)) == sorted(map(repr, st.ts.get("workers", ()))), "the pool does not know its workers", "threads")

    def pre_destroy(eng, s, f, args):
        out = []
        P = Pool(eng)
        for n in (0, 1, 2):
            for jobs in (0, 1, 2):
                x = s.copy()
                b = heap(eng, x, "pool", size_of(P.mod, "thpool_"))
                pl = P.build(x, b, jobs)
                tb = heap(eng, x, "threads", max(n, 1) * 8)
                ws = []
                for i in range(n):
                    w = heap(eng, x, "worker%d" % i, size_of(P.mod, "thread"))
                    Ob(eng, x, P.mod, w, "thread").set(x, "thpool_p", ("p", b, ZERO))
                    eng.store_mem(x, None, tb, const(8 * i), ("p", w, ZERO), 8)
                    ws.append(w)
                p = P.pool(x, b)
                p.set(x, "threads", ("p", tb, ZERO)); p.set(x, "num_threads_alive", I(n))
                x.ts.update({"args": [("p", b, ZERO)], "mode": "pool life", "pool": pl, "workers": tuple(ws), "array": tb, "spec": (n, jobs)})
                put(x, created=n, running=True)
                out.append(x)
        return out

    @S_.fn("thpool_destroy", pre_destroy)
    def _(c):
        st, pl = c.st, c.st.ts["pool"]
        for what, bs in (("the pool", [pl["base"]]), ("a job", [j[0] for j in pl["jobs"]]), ("a worker's data", st.ts["workers"]), ("the array of workers", [st.ts["array"]]), ("the semaphore", [pl["sem"]])):
            for b in bs: c.holds(freed(st, b), "%s is not released" % what, what)

    def pre_leave(eng, s, f, args):
        P = Pool(eng)
        tb = s.canon(args[0])[1] if s.set_nn(args[0], True) else None
        pb = ("s", fsym("pool"))
        s.nn[pb] = True
        Ob(eng, s, P.mod, tb, "thread").set(s, "thpool_p", ("p", pb, ZERO))
        pl = P.build(s, pb, 0)
        a = sym(eng.intsym(s, "alive", 32, key=("argi", "pool", "alive")))
        if not (s.assume_ge0(a) and s.assume_le(addc(a, -1000))): return []
        P.pool(s, pb).set(s, "num_threads_working", I(0))
        P.pool(s, pb).set(s, "num_threads_alive", ("i", a))
        s.ts.update({"pool": pl, "mode": "pool leave", "alive": a, "spec": (0,)})
        put(s, held=False)
        return [s]

    @S_.fn("@thread:" + POOL, pre_leave)
    def _(c): c.holds(get(c.st, "left"), "a worker ends without being counted out", "out")


def p08():
    S_ = Specs("wakeup")
    pushes(S_)
    workers(S_)
    pools(S_)
    return S_


def p09():
    S_ = Specs("lifecycle")
    lifecycle(S_)
    pool_life(S_)
    return S_


CLIENTS = [Sync]
OPTS = {"merge_cap": 300, "ret_cap": 300, "loop_entry_cap": 200, "unroll": 40, "enumerate": 400, "loop_parts": 30}
