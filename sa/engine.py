"""Abstract interpreter over the parsed IR.

One abstract state per trace partition: SSA environment, field-sensitive memory,
object life-cycle states, nullness facts, a convex (linear inequality) store and
the typestate dictionary of the client rules.  Calls are analysed in context,
loops by fixpoint with widening (nothing is unrolled to a bound, nothing is
executed, no path is handed to a solver).  The engine itself reports nothing;
clients subscribe to events and own the rules.
"""
import itertools
from . import lin, ir
from .lin import S, Cons, const, sym, add, sub, scale, addc, is_const, ZERO
from .ir import AnalysisBroken, loc_str, layout

NULLB = ("null",)
NULL = ("p", NULLB, ZERO)
UNDEF = ("u",)
_cnt = itertools.count(1)


def epdeps(ep):
    return [ep[1]] if isinstance(ep, tuple) and ep[0] == "E" else []


def epsym(point, b, phiset, kind):
    s = dsym((kind, point, b), (), None, None, "ep")
    phiset.add(s)
    return ("E", s)


def fresh_id():
    return next(_cnt)


DEPS = {}          # sym id -> frozenset of primitive syms it is derived from
IDEPS = {}         # sym id -> immediate dependencies


def expr_syms(e):
    return [s for s, _ in e[1]]


def base_syms(b):
    if b[0] == "s":
        return deps_of(b[1])
    if b[0] in ("a", "h"):
        return frozenset()
    return frozenset()


def deps_of(s):
    d = DEPS.get(s)
    return d if d is not None else frozenset((s,))


def dsym(key, deps, lo=None, hi=None, name=None):
    """hash-consed derived symbol; deps: syms it is a function of"""
    k = S.key2id.get(key)
    if k is None:
        k = S.get(key, lo, hi, name)
        ds = set()
        for x in deps:
            ds |= deps_of(x)
        DEPS[k] = frozenset(ds) | {k}
        IDEPS[k] = tuple(deps)
    return k


def fsym(name, lo=None, hi=None):
    k = S.get(("f", fresh_id()), lo, hi, name)
    return k


def vdeps(v):
    if v[0] == "i":
        return expr_syms(v[1])
    if v[0] == "p":
        return list(base_syms(v[1])) + expr_syms(v[2])
    return []


def I(c):
    return ("i", const(c))


class Trail:
    __slots__ = ("up", "txt")

    def __init__(self, up, txt):
        self.up, self.txt = up, txt


class State:
    __slots__ = ("env", "mem", "ep", "cep", "objs", "nn", "alias", "pne", "cons", "ts", "trail", "ctx", "fills", "slen", "ntrail", "saved")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.ep = {}
        self.cep = {}
        self.objs = {}
        self.nn = {}
        self.alias = {}
        self.pne = frozenset()
        self.cons = Cons()
        self.ts = {}
        self.trail = None
        self.ntrail = 0
        self.ctx = ()
        self.fills = {}
        self.slen = {}
        self.saved = ()     # SSA environments of the callers

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.ep = dict(self.ep)
        s.cep = dict(self.cep)
        s.objs = dict(self.objs)
        s.nn = dict(self.nn)
        s.alias = dict(self.alias)
        s.pne = self.pne
        s.cons = self.cons.copy()
        s.ts = dict(self.ts)
        s.trail = self.trail
        s.ntrail = self.ntrail
        s.ctx = self.ctx
        s.fills = dict(self.fills)
        s.slen = dict(self.slen)
        s.saved = self.saved
        return s

    # ---- facts
    def note(self, txt):
        if self.trail is not None and self.trail.txt == txt:
            return
        self.trail = Trail(self.trail, txt)
        self.ntrail += 1

    def path(self, limit=40):
        out, t = [], self.trail
        while t is not None:
            out.append(t.txt)
            t = t.up
        out.reverse()
        if len(out) > limit:
            out = out[:limit // 2] + ["..."] + out[-limit // 2:]
        return out

    def canon(self, v):
        """resolve pointer aliases and nulls"""
        if v[0] == "p":
            b, o = v[1], v[2]
            n = 0
            while b in self.alias:
                b2, o2 = self.alias[b]
                b, o = b2, add(o, o2)
                n += 1
                if n > 50: break
            if b[0] == "s" and self.nn.get(b) is False:
                b, o = NULLB, o
            if b is not v[1]:
                return ("p", b, self.cons.red(o))
        return v

    def red(self, e):
        return self.cons.red(e)

    def assume_le(self, e):
        self.cons.add_le(e)
        return not self.cons.bot

    def assume_ge0(self, e):
        return self.assume_le(scale(e, -1))

    def assume_eq(self, e):
        self.cons.add_eq(e)
        return not self.cons.bot

    def is_null(self, v):
        """True/False/None"""
        v = self.canon(v)
        b = v[1]
        if b == NULLB:
            return True
        if b[0] in ("g", "a", "h", "fn"):
            return False
        return {True: False, False: True}.get(self.nn.get(b))

    def set_nn(self, v, nonnull):
        v = self.canon(v)
        b = v[1]
        if b == NULLB:
            return not nonnull
        if b[0] in ("g", "a", "h", "fn"):
            return nonnull
        cur = self.nn.get(b)
        if cur is not None and cur != nonnull:
            return False
        self.nn[b] = nonnull
        return True

    # ---- object info
    def weaken(self, v):
        """the analysis stops tracking one holder of pointer v: its object counts as reachable from now on"""
        if v[0] == "p":
            b = self.canon(v)[1]
            o = self.objs.get(b)
            if b[0] == "h" and o and not o.get("esc"):
                self.setobj(b, esc=True)

    def osize(self, base):
        o = self.objs.get(base)
        return o.get("size") if o else None

    def setobj(self, base, **kw):
        o = dict(self.objs.get(base, {}))
        o.update(kw)
        self.objs[base] = o


class Loop:
    def __init__(self, h):
        self.head = h
        self.body = {h}


class FInfo:
    """CFG facts of a function: rpo, loops, liveness"""

    def __init__(self, fn):
        self.fn = fn
        entry = fn.order[0]
        # rpo
        seen, post = set(), []
        st = [(entry, iter(fn.blocks[entry].succ))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(fn.blocks[s].succ)))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in fn.blocks[b].pred:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.num[x] > self.num[y]: x = idom[x]
                                while self.num[y] > self.num[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in fn.blocks[b].succ:
                if self.num[s] <= self.num[b]:
                    if not self.dom(s, b):
                        raise AnalysisBroken("irreducible loop in " + fn.name)
                    L = self.loops.setdefault(s, Loop(s))
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x in L.body: continue
                        L.body.add(x)
                        todo.extend(p for p in fn.blocks[x].pred if p in self.num)
        # liveness
        use, dfn, phiuse = {}, {}, {}
        for b in self.rpo:
            u, d = set(), set()
            for ins in fn.blocks[b].ins:
                if ins.op == "phi":
                    for v, p in ins.ops:
                        if v[0] == "l": phiuse.setdefault(p, set()).add(v[1])
                    d.add(ins.res)
                    continue
                for v in operands(ins):
                    if v not in d: u.add(v)
                if ins.res: d.add(ins.res)
            use[b], dfn[b] = u, d
        live_in = {b: set() for b in self.rpo}
        live_out = {b: set() for b in self.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                o = set(phiuse.get(b, ()))
                for s in fn.blocks[b].succ:
                    o |= live_in[s]
                i = use[b] | (o - dfn[b])
                if i != live_in[b] or o != live_out[b]:
                    live_in[b], live_out[b] = i, o
                    changed = True
        self.live_in, self.live_out = live_in, live_out
        self.dead_in = self.dead_locals(fn)

    def dead_locals(self, fn):
        """block -> locals kept in memory (only loaded and stored directly) whose content no path from here reads"""
        cand = {}
        for b in self.rpo:
            for i in fn.blocks[b].ins:
                if i.op == "alloca" and not i.extra and i.ty.k in ("i", "p"): cand[i.res] = i
        if not cand: return {}
        for b in self.rpo:
            for i in fn.blocks[b].ins:
                us = [v for v, _ in i.ops if v[0] == "l"] if i.op == "phi" else None
                if us is not None: us = [v[1] for v in us]
                elif i.op == "load": us = []
                elif i.op == "store": us = [i.ops[0][1]] if i.ops[0][0] == "l" else []
                elif i.op == "call":
                    us = [] if str(i.extra[0]).find("llvm.dbg") >= 0 else operands(i)
                else: us = operands(i)
                for u in us: cand.pop(u, None)
        if not cand: return {}
        use, dfn = {}, {}
        for b in self.rpo:
            u, d = set(), set()
            for i in fn.blocks[b].ins:
                if i.op == "load" and i.ops[0][0] == "l" and i.ops[0][1] in cand and i.ops[0][1] not in d: u.add(i.ops[0][1])
                if i.op == "store" and i.ops[1][0] == "l" and i.ops[1][1] in cand and i.ops[1][1] not in u: d.add(i.ops[1][1])
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                o = set()
                for s in fn.blocks[b].succ: o |= live.get(s, set())
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        return {b: [cand[c] for c in cand if c not in live[b]] for b in self.rpo}

    def dom(self, a, b):
        while True:
            if a == b: return True
            n = self.idom[b]
            if n == b: return False
            b = n


def _vlocals(v, out):
    if v[0] == "l":
        out.append(v[1])
    elif v[0] == "gep":
        for t, x in v[2]: _vlocals(x, out)


def operands(ins):
    out = []
    if ins.op == "gep":
        for t, v in ins.ops: _vlocals(v, out)
    elif ins.op == "call":
        for t, v in ins.ops:
            _vlocals(v, out)
        _vlocals(ins.extra[0], out)
    elif ins.op == "phi":
        pass
    else:
        for v in ins.ops: _vlocals(v, out)
    return out


class Client:
    """override what you need"""
    name = "client"

    def on_access(self, eng, st, ins, base, off, size, write, val=None): pass
    def on_range(self, eng, st, ins, base, off, length, write, what): pass
    def on_call(self, eng, st, ins, name, args): return None
    def after_call(self, eng, st, ins, name, args, ret): pass
    def on_nullderef(self, eng, st, ins, val): pass
    def on_free(self, eng, st, ins, val, fam): pass
    def on_branch(self, eng, st, ins, cond, taken): pass
    def on_icall(self, eng, st, ins, fval, args): return None
    def on_enter(self, eng, st, fn, args): pass
    def on_leave(self, eng, st, fn, ret): pass
    def on_uninit(self, eng, st, ins, base, off, size): pass
    def on_drop(self, eng, st, ins, base): pass
    def key(self, ts): return None


MERGE_CAP = 48
MAX_ITERS = 40


class Engine:
    def __init__(self, prog, clients=(), models=None, opts=None):
        self.prog = prog
        self.clients = list(clients)
        self.models = models or {}
        self.opts = opts or {}
        self.finfo = {}
        self.stats = {"instructions": 0, "calls": 0, "branches": 0, "loops": 0, "joins": 0, "functions": set(), "loop_iters": 0, "merges": 0}
        self.depth = 0
        self.iid = {}
        self.merge_cap = self.opts.get("merge_cap", MERGE_CAP)
        self.ret_cap = self.opts.get("ret_cap", self.merge_cap)
        self.reports = {}
        self.quiet = 0
        self.budget = self.opts.get("budget", 3000000)
        self.field_hint = {}
        self.dead_ret = []

    # ------------------------------------------------------------ helpers
    def info(self, fn):
        k = id(fn)
        if k not in self.finfo:
            self.finfo[k] = FInfo(fn)
        return self.finfo[k]

    def insid(self, ins):
        return (ins.fn.module.path, ins.fn.name, ins.blk.name, ins.idx)

    def report(self, client, st, ins, rule, msg, key=None, definite=True):
        if self.quiet:
            return
        k = (client, rule, loc_str(ins) if ins is not None else "", key)
        if k in self.reports:
            return
        self.reports[k] = {
            "client": client, "rule": rule, "where": loc_str(ins) if ins is not None else "", "msg": msg,
            "callstack": [loc_str(i) for i in st.ctx], "path": st.path(), "key": key}

    # ------------------------------------------------------------ values
    def intsym(self, st, name, w, signed=None, key=None, deps=()):
        if w == 1:
            lo, hi = 0, 1
        elif signed is True or (signed is None and w == 32):
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            lo, hi = 0, (1 << w) - 1
        if key is None:
            return fsym(name, lo, hi)
        return dsym(key, deps, lo, hi, name)

    def unknown(self, st, ty, name="?", nonnull=None):
        if ty.k == "i":
            if ty.w == 1:
                return ("cmp", "ne", ("i", sym(fsym(name, 0, 1))), I(0), 8)
            return ("i", sym(self.intsym(st, name, ty.w)))
        if ty.k == "p":
            b = ("s", fsym(name))
            if nonnull is not None:
                st.nn[b] = nonnull
            return ("p", b, ZERO)
        if ty.k in ("s", "a"):
            return ("o", fresh_id())
        return ("o", fresh_id())

    def addr_of(self, st, v):
        """integer value of a pointer"""
        v = st.canon(v)
        if v[0] != "p":
            return sym(fsym("addr", 0, (1 << 64) - 1))
        if v[1] == NULLB:
            return v[2]
        a = dsym(("addr", v[1]), base_syms(v[1]), 1, (1 << 64) - 1, "&%s" % (bname(v[1]),))
        return add(sym(a), v[2])

    def to_ptr(self, st, e):
        e = st.red(e)
        if is_const(e):
            return ("p", NULLB, e)
        for s, k in e[1]:
            key = S.keys[s]
            if k == 1 and key[0] == "addr":
                return ("p", key[1], sub(e, sym(s)))
        if len(e[1]) == 1 and e[1][0][1] == 1 and S.keys[e[1][0][0]][0] == "asint":
            return ("p", ("s", S.keys[e[1][0][0]][1]), const(e[0]))
        b = ("s", dsym(("int2ptr", e), expr_syms(e), None, None, "int2ptr"))
        return ("p", b, ZERO)

    def as_int(self, st, v, w):
        """Expr of an int value"""
        k = v[0]
        if k == "i":
            return v[1]
        if k == "p":
            return self.addr_of(st, v)
        if k == "u":
            return sym(self.intsym(st, "undef", w))
        if k == "cmp" or k == "not" or k == "and" or k == "or":
            raise AnalysisBroken("boolean used as int without fork")
        if k == "o":
            return sym(self.intsym(st, "opaque", w, key=("oint", v[1], w)))
        return sym(self.intsym(st, "v", w))

    def const_val(self, st, fn, v, ty):
        k = v[0]
        if k == "c":
            c = v[1]
            if ty is not None and ty.k == "i" and ty.w == 1:
                return ("bool", c)
            return ("i", const(c))
        if k == "null":
            return NULL
        if k == "g":
            m = fn.module if fn is not None else None
            name = v[1]
            f = self.prog.resolve(m, name) if m else self.prog.funcs.get(name)
            if f is not None or (m and name in m.decls):
                return ("p", ("fn", name, m.path if f is not None and f.internal else ""), ZERO)
            g = self.prog.resolve_global(m, name) if m else self.prog.globals.get(name)
            b = ("g", name, m.path if g is not None and g.internal and m else "")
            return ("p", b, ZERO)
        if k == "gep":
            return self.gep(st, fn, v[1], v[2])[0][1]
        if k == "zero":
            if ty.k == "p": return NULL
            if ty.k == "i": return ("i", ZERO)
            return ("zero",)
        if k == "undef":
            return UNDEF
        if k == "cast":
            x = self.const_val(st, fn, v[3], v[2])
            return self.do_cast(st, v[1], v[2], x, v[4])[0][1]
        if k in ("fc", "agg", "str", "md", "cbin"):
            return ("o", ("const", repr(v)[:60]))
        raise AnalysisBroken("const %r" % (v,))

    def val(self, st, fn, v, ty=None):
        if v[0] == "l":
            x = st.env.get(v[1])
            if x is None:
                raise AnalysisBroken("no value for %s in %s" % (v[1], fn.name))
            if x[0] == "p":
                return st.canon(x)
            return x
        return self.const_val(st, fn, v, ty)

    # ---------------------------------------------------------- ranges
    def ucanon(self, st, e, w):
        """[(st, e')] with 0<=e'<2^w and e'=e mod 2^w"""
        M = 1 << w
        e = st.red(e)
        if is_const(e):
            return [(st, const(e[0] % M))]
        c = st.cons
        lo_ok = c.entails_ge0(e)
        hi_ok = c.entails_le(addc(e, 1 - M))
        if lo_ok and hi_ok:
            return [(st, e)]
        return self._canon_split(st, e, M, 0, M - 1, lo_ok, hi_ok, w, False)

    def scanon(self, st, e, w):
        M = 1 << w
        H = M >> 1
        e = st.red(e)
        if is_const(e):
            v = e[0] % M
            return [(st, const(v - M if v >= H else v))]
        c = st.cons
        lo_ok = c.entails_ge0(addc(e, H))
        hi_ok = c.entails_le(addc(e, 1 - H))
        if lo_ok and hi_ok:
            return [(st, e)]
        return self._canon_split(st, e, M, -H, H - 1, lo_ok, hi_ok, w, True)

    def _canon_split(self, st, e, M, lo, hi, lo_ok, hi_ok, w, signed):
        out = []
        # in range
        s = st.copy()
        if s.assume_ge0(addc(e, -lo)) and s.assume_le(addc(e, -hi)):
            out.append((s, s.red(e)))
        rest = []
        if not lo_ok:
            s = st.copy()
            if s.assume_le(addc(e, 1 - lo)):
                if s.cons.entails_ge0(addc(e, M - lo)):
                    s.note("wraps below %s: %s" % ("0" if not signed else "min", lin.show(e)))
                    out.append((s, s.red(addc(e, M))))
                else:
                    rest.append(s)
        if not hi_ok:
            s = st.copy()
            if s.assume_ge0(addc(e, -hi - 1)):
                if s.cons.entails_le(addc(e, -hi - M)):
                    if not signed: s.note("wraps above 2^%d: %s" % (w, lin.show(e)))
                    out.append((s, s.red(addc(e, -M))))
                else:
                    rest.append(s)
        for s in rest:
            s.note("value may wrap around 2^%d: %s" % (w, lin.show(e)))
            k = dsym(("wrap", w, signed, e), expr_syms(e), lo, hi, "wrapped(%s)" % lin.show(e))
            if lo_ok: s.assume_le(sub(sym(k), e))
            if not s.cons.bot: out.append((s, sym(k)))
        return out

    def nonneg_len(self, st, e):
        """a size_t argument"""
        return self.ucanon(st, e, 64)

    # ---------------------------------------------------------- gep
    def gep(self, st, fn, sty, ops):
        """[(st, ptr)]"""
        basev = self.val(st, fn, ops[0][1], ops[0][0])
        if basev[0] != "p":
            if basev[0] == "i":
                basev = self.to_ptr(st, basev[1])
            else:
                basev = ("p", ("s", fsym("undefptr")), ZERO)
        states = [(st, basev[2])]
        t = sty
        for n, (it, iv) in enumerate(ops[1:]):
            v = None
            new = []
            for s, off in states:
                v = self.val(s, fn, iv, it)
                e = self.as_int(s, v, it.w)
                e = s.red(e)
                if n == 0:
                    sz = layout(t)
                    for s2, e2 in (self.scanon(s, e, it.w) if not is_const(e) else [(s, self._sc(e, it.w))]):
                        new.append((s2, add(off, scale(e2, sz))))
                elif t.k == "s":
                    layout(t)
                    new.append((s, addc(off, t._offs[e[0]])))
                elif t.k == "a":
                    sz = layout(t.el)
                    for s2, e2 in (self.scanon(s, e, it.w) if not is_const(e) else [(s, self._sc(e, it.w))]):
                        new.append((s2, add(off, scale(e2, sz))))
                else:
                    raise AnalysisBroken("gep into %r" % t)
            if n > 0:
                if t.k == "s":
                    t = t.el[iv[1]]
                elif t.k == "a":
                    t = t.el
            states = new
        return [(s, ("p", basev[1], s.red(off))) for s, off in states]

    @staticmethod
    def _sc(e, w):
        v = e[0] % (1 << w)
        return const(v - (1 << w) if v >= (1 << (w - 1)) else v)

    # ---------------------------------------------------------- memory
    def obj_size(self, st, base):
        s = st.osize(base)
        if s is not None:
            return st.red(s)
        if base[0] == "g":
            g = self.find_global(base)
            if g is not None and not g.external:
                return const(layout(g.ty))
        return None

    def find_global(self, base):
        if len(base) > 2 and base[2]:
            for m in self.prog.modules:
                if m.path == base[2]:
                    return m.globals.get(base[1])
        return self.prog.globals.get(base[1])

    def deref(self, st, ins, ptr, size, write, val=None):
        """check & canonicalise a pointer used for access; returns (base, off) or None when the path dies"""
        ptr = st.canon(ptr)
        if ptr[0] != "p":
            ptr = ("p", ("s", fsym("wild")), ZERO)
        b = ptr[1]
        if b == NULLB or st.is_null(ptr) is True:
            for c in self.clients: c.on_nullderef(self, st, ins, ptr)
            return None
        if b[0] == "s" and st.nn.get(b) is None:
            for c in self.clients:
                if hasattr(c, "on_maybe_null"): c.on_maybe_null(self, st, ins, ptr)
            st.nn[b] = True
        off = st.red(ptr[2])
        for c in self.clients:
            c.on_access(self, st, ins, b, off, size, write, val)
        return b, off

    def read_const_global(self, g, off, size, ty):
        """constant initializer lookup; returns value or None"""
        def walk(t, init, o):
            if init[0] == "zero":
                if ty.k == "p": return NULL
                if ty.k == "i": return I(0)
                return None
            if init[0] == "str":
                if ty.k == "i" and ty.w == 8:
                    return I(init[1][o])
                return None
            if t.k == "a" and init[0] == "agg":
                sz = layout(t.el)
                return walk(init[1][o // sz][0], init[1][o // sz][1], o % sz)
            if t.k == "s" and init[0] == "agg":
                layout(t)
                k = max(i for i, f in enumerate(t._offs) if f <= o)
                return walk(init[1][k][0], init[1][k][1], o - t._offs[k])
            if o != 0: return None
            return ("K", init, t)
        sz = layout(g.ty)
        if off < 0 or off + size > sz: return None
        r = walk(g.ty, g.init, off)
        return r

    def global_elems(self, g, w):
        """all integer element values of a constant integer array, or None"""
        t = g.ty
        if t.k != "a" or t.el.k != "i" or t.el.w != w: return None
        if g.init[0] == "str": return list(g.init[1])
        if g.init[0] == "zero": return [0]
        if g.init[0] == "agg" and all(x[1][0] == "c" for x in g.init[1]): return [x[1][1] % (1 << w) for x in g.init[1]]
        return None

    def load_mem(self, st, ins, b, off, size, ty, hint=None):
        off = st.red(off)
        cells = st.mem.get(b)
        if cells:
            for o, (v, sz) in cells.items():
                if (o == off or st.red(o) == off):
                    if sz == size:
                        if sz == 1 and st.slen and v[0] == "i": self.strbyte(st, b, off, st.red(v[1]))
                        return self.retype(st, v, ty)
            for o, (v, sz) in cells.items():
                if sz == size and o[1] and not is_const(o) and st.cons.entails_eq(sub(o, off)):
                    if sz == 1 and st.slen and v[0] == "i": self.strbyte(st, b, off, st.red(v[1]))
                    return self.retype(st, v, ty)
            if is_const(off):
                # sub-word read of an int cell or wide read: unknown
                for o, (v, sz) in cells.items():
                    if is_const(o) and o[0] < off[0] + size and off[0] < o[0] + sz:
                        return self.unknown(st, ty, "part")
        fl = st.fills.get(b)
        if fl:
            for (lo, ln, byte) in fl:
                if st.cons.entails_ge0(sub(off, lo)) and st.cons.entails_le(sub(addc(off, size), add(lo, ln))):
                    if byte == 0:
                        if ty.k == "p": return NULL
                        if ty.k == "i": return I(0)
                        return ("o", "zero")
                    if ty.k == "i" and ty.w == 8:
                        return I(byte)
        if b[0] == "g":
            g = self.find_global(b)
            if g is not None and g.const and not g.external:
                if is_const(off):
                    r = self.read_const_global(g, off[0], size, ty)
                    if r is not None:
                        if r[0] == "K":
                            return self.retype(st, self.const_val(st, _FnShim(g.module), r[1], r[2]), ty)
                        return r
                elif ty.k == "i":
                    el = self.global_elems(g, ty.w)
                    if el:
                        k = dsym(("tab", b, off), expr_syms(off), min(el), max(el), "%s[..]" % b[1])
                        st.ts["tab"] = st.ts.get("tab", frozenset()) | {(sym(k), off, b, size)}
                        return ("i", sym(k))
        if b[0] == "a" and not st.ep.get(b):
            for c in self.clients: c.on_uninit(self, st, ins, b, off, size)
            o = st.objs.get(b) or {}
        ep = st.ep.get(b, 0)
        deps = list(base_syms(b)) + expr_syms(off) + epdeps(ep)
        nm = self.fieldname(ins, b, off)
        if ty.k == "i":
            k = self.intsym(st, nm, ty.w if ty.w > 1 else 8, hint, key=("init", b, off, ep, size), deps=deps)
            v = ("i", sym(k))
        elif ty.k == "p":
            k = dsym(("pinit", b, off, ep), deps, None, None, nm)
            v = ("p", ("s", k), ZERO)
            st.objs.setdefault(("s", k), {"from": (b, off)})
        else:
            v = ("o", ("init", b, off, ep))
        self.put_cell(st, b, off, v, size)
        if ty.k == "i" and size == 1 and st.slen: self.strbyte(st, b, off, v[1])
        return st.canon(v) if v[0] == "p" else v

    def strbyte(self, st, b, off, v):
        """a byte read from a string of known length is zero exactly at the end"""
        if is_const(v) or len(v[1]) != 1 or v[0]: return
        cep = st.cep.get(b, 0)
        for (bb, o, c), ln in st.slen.items():
            if bb != b or c != cep: continue
            d = st.red(sub(sub(off, o), ln))
            if st.cons.entails_ge0(sub(off, o)) and st.cons.entails_le(d):
                if is_const(d) and d[0] == 0: st.assume_eq(v)
                elif st.cons.entails_le(addc(d, 1)): st.assume_ge0(addc(v, -1))
                else: st.ts["sb"] = st.ts.get("sb", frozenset()) | {(v, d)}
                return

    def fieldname(self, ins, b, off):
        base = bname(b)
        if ins is not None and ins.op in ("load", "store") and ins.ops:
            fd = self.field_of(ins)
            if fd: return base + "->" + fd
        return "%s[%s]" % (base, lin.show(off))

    def field_of(self, ins):
        """name of the struct field accessed by a load/store"""
        k = id(ins)
        if k in self.field_hint:
            return self.field_hint[k][0]
        self._fh(ins)
        return self.field_hint[k][0]

    def hint_of(self, ins):
        k = id(ins)
        if k not in self.field_hint: self._fh(ins)
        return self.field_hint[k][1]

    def _fh(self, ins):
        v = ins.ops[0] if ins.op == "load" else ins.ops[1]
        name, sg, sname = None, None, None
        sty = idx = None
        if v[0] == "l":
            d = getattr(ins.fn, "_defs", None)
            if d is None:
                d = {}
                for bl in ins.fn.blocks.values():
                    for x in bl.ins:
                        if x.res: d[x.res] = x
                ins.fn._defs = d
            g = d.get(v[1])
            if g is not None and g.op == "gep":
                sty, ops = g.ty, g.ops
                idx = [o[1] for o in ops[1:]]
        elif v[0] == "gep":
            sty = v[1]
            idx = [o[1] for o in v[2][1:]]
        if sty is not None and idx:
            t = sty
            last = None
            if len(idx) >= 2:
                for x in idx[1:]:
                    if t.k == "s" and x[0] == "c":
                        last = (t, x[1])
                        t = t.el[x[1]]
                    elif t.k == "a":
                        last = None
                        t = t.el
                    else:
                        break
            if last:
                st_, ix = last
                layout(st_)
                f = ir.struct_fields(ins.fn.module, st_.name) if st_.name else {}
                e = f.get(st_._offs[ix])
                if e:
                    name = e[0]
                    sname = st_.name
                    if e[2] is not None: sg = ir.di_signed(ins.fn.module, e[2])
        self.field_hint[id(ins)] = (name, sg, sname)

    def struct_of(self, ins):
        """(struct name, field name) accessed by a load/store, or (None, None)"""
        k = id(ins)
        if k not in self.field_hint: self._fh(ins)
        h = self.field_hint[k]
        return h[2], h[0]

    def retype(self, st, v, ty):
        if ty.k == "p" and v[0] == "i":
            return st.canon(self.to_ptr(st, v[1]))
        if ty.k == "i" and v[0] == "p":
            return ("i", self.addr_of(st, v))
        if ty.k == "i" and v[0] in ("o", "zero"):
            if v[0] == "zero": return I(0)
            return ("i", sym(self.intsym(st, "o", ty.w, key=("oint", v[1], ty.w))))
        if ty.k == "p" and v[0] in ("o", "u"):
            return ("p", ("s", dsym(("optr", v[1] if len(v) > 1 else fresh_id()), ())), ZERO)
        if ty.k == "i" and v[0] == "u":
            return ("i", sym(self.intsym(st, "undef", ty.w)))
        if v[0] == "p": return st.canon(v)
        return v

    def put_cell(self, st, b, off, v, size):
        c = dict(st.mem.get(b, {}))
        c[off] = (v, size)
        st.mem[b] = c

    def bump(self, st, b):
        st.ep[b] = fresh_id()

    def invalidate(self, st, b, off, length, bump=True):
        """forget everything about [off, off+length) of b (length Expr or None=unknown)"""
        cells = st.mem.get(b)
        if length is None:
            if cells:
                for v, sz in cells.values(): st.weaken(v)
            st.mem.pop(b, None)
            st.fills.pop(b, None)
            self.bump(st, b)
            st.cep[b] = fresh_id()
            return
        st.cep[b] = fresh_id()
        end = add(off, length)
        exact = is_const(off) and is_const(length)
        if cells:
            keep = {}
            for o, (v, sz) in cells.items():
                if exact and is_const(o):
                    if o[0] + sz <= off[0] or o[0] >= end[0]:
                        keep[o] = (v, sz)
                    elif not (off[0] <= o[0] and o[0] + sz <= end[0]):
                        self.bump(st, b)
                        st.weaken(v)
                elif st.cons.entails_le(sub(addc(o, sz), off)) or st.cons.entails_le(sub(end, o)):
                    keep[o] = (v, sz)
                else:
                    st.weaken(v)
            if len(keep) > 80:
                for v, sz in list(keep.values())[:-40]: st.weaken(v)
                keep = dict(list(keep.items())[-40:])
            st.mem[b] = keep
        if b in st.fills:
            nf = []
            for f in st.fills[b]:
                lo, ln, by = f
                fe = add(lo, ln)
                if st.cons.entails_le(sub(fe, off)) or st.cons.entails_le(sub(end, lo)):
                    nf.append(f)
                else:
                    if st.cons.entails_le(sub(lo, off)):
                        nf.append((lo, sub(off, lo), by))
                    if st.cons.entails_le(sub(end, fe)):
                        nf.append((end, sub(fe, end), by))
            st.fills[b] = tuple(nf)
        if bump:
            self.bump(st, b)

    def store_mem(self, st, ins, b, off, v, size):
        off = st.red(off)
        self.invalidate(st, b, off, const(size), bump=not is_const(off))
        self.put_cell(st, b, off, v, size)

    def havoc(self, st, b, off=None, length=None):
        self.invalidate(st, b, off if off is not None else ZERO, length)

    # ---------------------------------------------------------- conditions
    def assume(self, st, c, truth, ins=None):
        """[(st)] after assuming boolean value c == truth"""
        k = c[0]
        if k == "bool":
            return [st] if bool(c[1]) == truth else []
        if k == "not":
            return self.assume(st, c[1], not truth, ins)
        if k == "and" or k == "or":
            if (k == "and") == truth:
                out = []
                for s in self.assume(st, c[1], truth, ins):
                    out += self.assume(s, c[2], truth, ins)
                return out
            out = []
            for s in self.assume(st.copy(), c[1], truth, ins): out.append(s)
            for s in self.assume(st.copy(), c[1], not truth, ins):
                out += self.assume(s, c[2], truth, ins)
            return out
        if k == "i":
            return self.assume(st, ("cmp", "ne", c, I(0), 8), truth, ins)
        if k == "u" or k == "o":
            return [st]
        if k != "cmp":
            raise AnalysisBroken("condition %r" % (c,))
        pr, a, b, w = c[1], c[2], c[3], c[4]
        if not truth:
            pr = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
                  "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}.get(pr, pr)
        if pr == "opaque":
            return [st]
        if a[0] == "p": a = st.canon(a)
        if b[0] == "p": b = st.canon(b)
        if a[0] == "p" and b[0] == "p":
            return self.assume_ptr(st, pr, a, b)
        if a[0] in ("u", "o") or b[0] in ("u", "o"):
            return [st]
        ea, eb = self.as_int(st, a, w), self.as_int(st, b, w)
        d = st.red(sub(ea, eb))
        if pr in ("eq", "ne"):
            return self.assume_ieq(st, d, w, pr == "eq")
        cf = self.ucanon if pr[0] == "u" else self.scanon
        out = []
        for s1, x in cf(st.copy(), ea, w):
            for s2, y in cf(s1, eb, w):
                dd = sub(x, y)
                p = pr[1:]
                if len(dd[1]) == 1 and abs(dd[1][0][1]) == 1: THRESHOLDS.setdefault(dd[1][0][0], set()).add(-dd[0] * dd[1][0][1])
                if p == "lt": ok = s2.assume_le(addc(dd, 1))
                elif p == "le": ok = s2.assume_le(dd)
                elif p == "gt": ok = s2.assume_ge0(addc(dd, -1))
                else: ok = s2.assume_ge0(dd)
                if ok and self.after_assume(s2, (ea, eb)): out.append(s2)
        return out

    def assume_ieq(self, st, d, w, eq):
        return [s for s in self._assume_ieq(st, d, w, eq) if self.after_assume(s, (d,))]

    def _assume_ieq(self, st, d, w, eq):
        M = 1 << w
        if is_const(d):
            return [st] if ((d[0] % M == 0) == eq) else []
        c = st.cons
        # range of the difference: decide which multiples of 2^w are possible
        out = []
        if c.entails_le(addc(d, 1 - M)) and c.entails_ge0(addc(d, M - 1)):
            ks = [0]
        else:
            ks = [0, -M, M]
        if eq:
            for k in ks:
                s = st.copy()
                if s.assume_eq(addc(d, -k)):
                    if k == 0 and d[0] == 0 and len(d[1]) == 1:
                        kk = S.keys[d[1][0][0]]
                        if isinstance(kk, tuple) and kk[0] == "and" and len(kk) == 4:
                            x, y = kk[2], kk[3]
                            for a, b in ((x, y), (y, x)):
                                if sub(a, b) == const(1) and s.cons.entails_ge0(addc(a, -1)): self.set_pow2(s, a, kk[1])
                    if not s.cons.bot: out.append(s)
            return out
        s = st.copy()
        for k in ks:
            s.cons.add_ne(addc(d, -k))
        return [] if s.cons.bot else [s]

    def assume_ptr(self, st, pr, a, b):
        if pr in ("eq", "ne"):
            eq = pr == "eq"
            na, nb = st.is_null(a), st.is_null(b)
            if a[1] == b[1]:
                d = st.red(sub(a[2], b[2]))
                if is_const(d):
                    return [st] if (d[0] == 0) == eq else []
                s = st.copy()
                if eq:
                    return [s] if s.assume_eq(d) else []
                s.cons.add_ne(d)
                return [] if s.cons.bot else [s]
            if nb is True or na is True:
                x = a if nb is True else b
                nx = na if nb is True else nb
                if nx is not None:
                    return [st] if nx == eq else []
                s = st.copy()
                if not s.set_nn(x, not eq): return []
                return [s]
            ka, kb = a[1][0], b[1][0]
            if ka != "s" and kb != "s":
                return [] if eq else [st]
            if ka == "h" or kb == "h":
                h = a[1] if ka == "h" else b[1]
                if not (st.objs.get(h) or {}).get("esc"):
                    return [] if eq else [st]
            pair = frozenset((a[1], b[1]))
            if eq:
                if pair in st.pne: return []
                s = st.copy()
                # substitute a symbolic base by the other
                if ka == "s":
                    src, dst, off = a[1], b[1], sub(b[2], a[2])
                else:
                    src, dst, off = b[1], a[1], sub(a[2], b[2])
                n1 = s.nn.get(src)
                if not self.merge_alias(s, src, dst, off): return []
                return [s]
            s = st.copy()
            if is_const(a[2]) and is_const(b[2]) and a[2][0] == b[2][0]:
                s.pne = s.pne | {pair}
            return [s]
        # ordering
        if a[1] == b[1]:
            d = sub(a[2], b[2])
            s = st.copy()
            p = pr[1:]
            if p == "lt": ok = s.assume_le(addc(d, 1))
            elif p == "le": ok = s.assume_le(d)
            elif p == "gt": ok = s.assume_ge0(addc(d, -1))
            else: ok = s.assume_ge0(d)
            return [s] if ok else []
        return [st]

    def merge_alias(self, s, src, dst, off):
        ns = s.nn.get(src)
        if dst[0] == "s":
            nd = s.nn.get(dst)
            if ns is not None and nd is not None and ns != nd: return False
            if nd is None and ns is not None: s.nn[dst] = ns
        elif dst == NULLB:
            if ns is True: return False
        else:
            if ns is False: return False
        s.alias[src] = (dst, off)
        # move memory facts
        cells = s.mem.pop(src, None)
        if cells and is_const(off):
            c = dict(s.mem.get(dst, {}))
            for o, (v, sz) in cells.items():
                o2 = add(o, off)
                if o2 not in c: c[o2] = (v, sz)
            s.mem[dst] = c
        o = s.objs.get(src)
        if o:
            o2 = dict(o)
            o2.update(s.objs.get(dst, {}))
            if o.get("state") == "freed": o2["state"] = "freed"
            s.objs[dst] = o2
        return True

    # ---------------------------------------------------------- powers of two
    def is_pow2(self, st, e):
        """e is known to be a power of two (>=1)"""
        e = st.red(e)
        if is_const(e): return e[0] > 0 and e[0] & (e[0] - 1) == 0
        return any(st.red(x) == e for x in st.ts.get("p2", ()))

    def set_pow2(self, st, e, w=None):
        e = st.red(e)
        if is_const(e): return
        st.ts["p2"] = st.ts.get("p2", frozenset()) | {e}
        if w: st.assume_le(addc(e, -(1 << (w - 1))))
        lo, hi = st.cons.bounds(e)
        if hi is not None and lo is not None:
            ps = [1 << k for k in range(65) if max(1, lo) <= (1 << k) <= hi]
            if not ps: st.cons.bot = True
            elif len(ps) == 1: st.assume_eq(addc(e, -ps[0]))

    def after_assume(self, st, exprs):
        """consequences of a decided comparison: end of strings, power-of-two tests"""
        dv = st.ts.get("div")
        if dv:
            ss = set()
            for e in exprs: ss.update(expr_syms(e))
            for q, y, p in dv:
                if q[1][0][0] in ss:
                    if st.cons.constval(q) == 0: st.assume_eq(p)
                    elif st.cons.entails_ge0(addc(q, -1)): st.assume_le(sub(y, p))
        sb = st.ts.get("sb")
        if sb:
            ss = set()
            for e in exprs: ss.update(expr_syms(e))
            for v, d in sb:
                if v[1] and v[1][0][0] in ss:
                    if st.cons.constval(v) == 0: st.assume_eq(d)
                    elif st.cons.entails_ne(v): st.assume_le(addc(d, 1))
        tb = st.ts.get("tab")
        if tb:
            ss = set()
            for e in exprs: ss.update(expr_syms(e))
            for v, off, b, size in tb:
                if v[1][0][0] not in ss: continue
                el = self.global_elems(self.find_global(b), 8 * size)
                lo, hi = st.cons.bounds(v)
                at = [i * size for i, x in enumerate(el) if (lo is None or x >= lo) and (hi is None or x <= hi)]
                if not at: st.cons.bot = True
                else:
                    o, h = st.cons.bounds(off)
                    if o is not None and h is not None: at = [i for i in at if o <= i <= h]
                    if not at: st.cons.bot = True
                    else:
                        st.assume_ge0(addc(off, -at[0]))
                        st.assume_le(addc(off, -at[-1]))
                        if sb:
                            for x, d in sb:
                                if st.cons.entails_ne(x): st.assume_le(addc(d, 1))
        return not st.cons.bot

    def decide(self, st, c):
        """True/False/None without forking"""
        t = self.assume(st.copy(), c, True)
        if not t: return False
        f = self.assume(st.copy(), c, False)
        if not f: return True
        return None

    # ---------------------------------------------------------- arithmetic
    def binop(self, st, ins, op, w, va, vb):
        """[(st, val)]"""
        a, b = self.as_int(st, va, w), self.as_int(st, vb, w)
        a, b = st.red(a), st.red(b)
        nsw = ins.extra
        M = 1 << w
        if op == "add" or op == "sub":
            e = add(a, b) if op == "add" else sub(a, b)
            if nsw: return self._nsw(st, e, w)
            if is_const(e): e = const(e[0] % M)
            return [(st, ("i", e))]
        if op == "mul":
            if is_const(a) or is_const(b):
                c, x = (a[0], b) if is_const(a) else (b[0], a)
                if c >= M // 2: c -= M
                e = scale(x, c)
                if nsw: return self._nsw(st, e, w)
                return [(st, ("i", e))]
            out = []
            cf = self.scanon if nsw else self.ucanon
            for s1, x in cf(st, a, w):
                for s2, y in cf(s1, b, w):
                    m = self.mulsym(s2, x, y)
                    if nsw:
                        for r in self._nsw(s2, m, w): out.append(r)
                    else:
                        out.append((s2, ("i", m)))
            return out
        if op == "shl":
            if is_const(b):
                e = scale(a, 1 << (b[0] % w))
                if nsw: return self._nsw(st, e, w)
                if is_const(e): e = const(e[0] % M)
                return [(st, ("i", e))]
            if is_const(a) and is_const(b) and 0 <= b[0] < w: return [(st, I((a[0] << b[0]) % M))]
            k = dsym(("shl", w, a, b), expr_syms(a) + expr_syms(b), 0, M - 1, "(%s<<%s)" % (lin.show(a), lin.show(b)))
            return [(st, ("i", sym(k)))]
        if op in ("lshr", "udiv") and is_const(b) and (b[0] % M):
            c = (1 << b[0]) if op == "lshr" else b[0] % M
            return [(s, ("i", self.divsym(s, e, c))) for s, e in self.ucanon(st, a, w)]
        if op == "urem" and is_const(b) and (b[0] % M):
            c = b[0] % M
            return [(s, ("i", sub(e, scale(self.divsym(s, e, c), c)))) for s, e in self.ucanon(st, a, w)]
        if op in ("sdiv", "srem", "ashr") and is_const(b):
            c = (1 << b[0]) if op == "ashr" else self._sc(b, w)[0]
            if c > 0:
                out = []
                for s, e in self.scanon(st, a, w):
                    if is_const(e):
                        q = e[0] // c if (op == "ashr" or e[0] >= 0) else -((-e[0]) // c)
                        out.append((s, ("i", const(q if op != "srem" else e[0] - q * c))))
                        continue
                    sp = s.copy()
                    if sp.assume_ge0(e):
                        q = self.divsym(sp, e, c)
                        out.append((sp, ("i", q if op != "srem" else sub(e, scale(q, c)))))
                    sn = s.copy()
                    if sn.assume_le(addc(e, 1)):
                        if op == "ashr":
                            q = self.divsym(sn, e, c)
                            out.append((sn, ("i", q)))
                        else:
                            q = scale(self.divsym(sn, scale(e, -1), c), -1)
                            out.append((sn, ("i", q if op == "sdiv" else sub(e, scale(q, c)))))
                return out
        if op == "and" and (is_const(a) or is_const(b)):
            m, x = (a[0] % M, b) if is_const(a) else (b[0] % M, a)
            out = []
            for s, e in self.ucanon(st, x, w):
                if is_const(e):
                    out.append((s, I(e[0] & m)))
                elif m & (m + 1) == 0:          # low mask: e mod 2^k
                    if s.cons.entails_le(addc(e, -m)):
                        out.append((s, ("i", e)))
                    else:
                        q = self.divsym(s, e, m + 1)
                        out.append((s, ("i", sub(e, scale(q, m + 1)))))
                else:
                    inv = (M - 1) ^ m
                    if inv & (inv + 1) == 0:    # high mask
                        q = self.divsym(s, e, inv + 1)
                        out.append((s, ("i", scale(q, inv + 1))))
                    else:
                        k = dsym(("and", e, m), expr_syms(e), 0, m, "(%s&0x%x)" % (lin.show(e), m))
                        out.append((s, ("i", sym(k))))
            return out
        out = []
        for s1, x in self.ucanon(st, a, w):
            for s2, y in self.ucanon(s1, b, w):
                if is_const(x) and is_const(y):
                    xa, xb = x[0], y[0]
                    r = {"and": xa & xb, "or": xa | xb, "xor": xa ^ xb}.get(op)
                    if r is None and op in ("udiv", "urem") and xb: r = xa // xb if op == "udiv" else xa % xb
                    if r is None and op == "lshr": r = xa >> xb
                    if r is not None:
                        out.append((s2, I(r)))
                        continue
                if op in ("and", "or", "xor", "add") and x[1] > y[1]: x, y = y, x
                if op == "xor" and (is_const(x) and x[0] == M - 1):
                    out.append((s2, ("i", sub(const(M - 1), y)))); continue
                if op == "xor" and (is_const(y) and y[0] == M - 1):
                    out.append((s2, ("i", sub(const(M - 1), x)))); continue
                if op in ("or", "xor") and (x == ZERO or y == ZERO):
                    out.append((s2, ("i", y if x == ZERO else x))); continue
                if op == "and":
                    m = None
                    if self.is_pow2(s2, addc(y, 1)): m = (x, addc(y, 1))
                    elif self.is_pow2(s2, addc(x, 1)): m = (y, addc(x, 1))
                    if m:
                        out += [(s3, ("i", r)) for s3, r in self.umod(s2, w, m[0], m[1])]
                        continue
                if op == "urem" and s2.cons.entails_ge0(addc(y, -1)):
                    out += [(s3, ("i", r)) for s3, r in self.umod(s2, w, x, y)]
                    continue
                k = dsym((op, w, x, y), expr_syms(x) + expr_syms(y), 0, M - 1, "(%s %s %s)" % (lin.show(x), op, lin.show(y)))
                e = sym(k)
                if op == "and":
                    s2.assume_le(sub(e, x)); s2.assume_le(sub(e, y))
                    # x & (x-1), used for power-of-two tests
                elif op == "urem":
                    s3 = s2
                    if s3.cons.entails_ge0(addc(y, -1)): s3.assume_le(addc(sub(e, y), 1))
                    s3.assume_le(sub(e, x))
                elif op in ("udiv", "lshr"):
                    s2.assume_le(sub(e, x))
                    if op == "udiv" and s2.assume_ge0(addc(y, -1)):      # y == 0 is undefined
                        p = self.mulsym(s2, e, y)
                        s2.assume_le(sub(p, x))
                        s2.assume_le(addc(sub(sub(x, p), y), 1))
                        if len(s2.ts.get("div", ())) < 8: s2.ts["div"] = s2.ts.get("div", frozenset()) | {(e, y, p)}
                elif op == "or":
                    s2.assume_le(sub(x, e)); s2.assume_le(sub(y, e))
                    s2.assume_le(sub(e, add(x, y)))
                elif op == "xor":
                    s2.assume_le(sub(e, add(x, y)))
                if not s2.cons.bot: out.append((s2, ("i", e)))
        return out

    def umod(self, st, w, x, y):
        """[(state, x mod y)] for y >= 1"""
        M = 1 << w
        wraps = (0, M, -M) if self.is_pow2(st, y) else (0,)
        rel = None
        for x0, y0, r0 in sorted(st.ts.get("mods", ())):
            if st.red(y0) != y: continue
            for m in wraps:
                c = st.cons
                d = st.red(addc(sub(x, x0), m))
                if d == ZERO: return [(st, st.red(r0))]
                if rel is not None: continue
                up, dn = c.entails_ge0(d) and c.entails_le(sub(d, y)), c.entails_le(d) and c.entails_ge0(add(d, y))
                if not up and not dn: continue
                rel = []
                for q in ((0, -1) if up else (0, 1)):
                    s = st.copy()
                    r = add(add(r0, d), scale(y, q))
                    if s.assume_ge0(r) and s.assume_le(addc(sub(r, y), 1)): rel.append((s, r))
        out = []
        n = 1 if st.cons.entails_le(addc(sub(x, y), 1)) else 3 if st.cons.entails_le(addc(sub(x, scale(y, 3)), 1)) else 0
        for s, r in (rel if rel is not None else [(st, None)]):
            if n:
                for k in range(n):
                    s2 = s.copy()
                    e = sub(x, scale(y, k))
                    if n > 1 and not (s2.assume_ge0(e) and s2.assume_le(addc(sub(e, y), 1))): continue
                    if r is not None and not s2.assume_eq(sub(e, r)): continue
                    out.append((s2, s2.red(e)))
            elif r is not None: out.append((s, s.red(r)))
            else:
                k = dsym(("urem", w, x, y), expr_syms(x) + expr_syms(y), 0, M - 1, "(%s mod %s)" % (lin.show(x), lin.show(y)))
                e = sym(k)
                s.assume_le(addc(sub(e, y), 1))
                s.assume_le(sub(e, x))
                if not s.cons.bot: out.append((s, e))
        for s, r in out:
            if not is_const(x) and not is_const(y) and len(s.ts.get("mods", ())) < 8: s.ts["mods"] = s.ts.get("mods", frozenset()) | {(x, y, r)}
        return out

    def _nsw(self, st, e, w):
        """signed overflow is undefined: assume it does not happen"""
        e = st.red(e)
        if is_const(e):
            return [(st, ("i", self._sc(e, w)))]
        H = 1 << (w - 1)
        if not st.assume_ge0(addc(e, H)) or not st.assume_le(addc(e, 1 - H)):
            return []
        return [(st, ("i", st.red(e)))]

    def mulsym(self, st, x, y):
        """x*y expanded into monomials; facts about their sizes are added"""
        x, y = st.red(x), st.red(y)
        if is_const(x): return scale(y, x[0])
        if is_const(y): return scale(x, y[0])
        e = self.expand(x, y)
        c = st.cons
        gx, gy = c.entails_ge0(x), c.entails_ge0(y)
        if gx and gy:
            st.assume_ge0(e)
            if c.entails_ge0(addc(x, -1)): st.assume_le(sub(y, e))
            if c.entails_ge0(addc(y, -1)): st.assume_le(sub(x, e))
            # a <= b  ==>  a*y <= b*y for the other known products with the same factor
            st.ts.setdefault("prod", frozenset())
            for a, b in st.ts["prod"]:
                for f, g, o in ((x, y, a), (x, y, b), (y, x, a), (y, x, b)):
                    other = b if o is a else a
                    if o != g or other == f: continue
                    for d in (sub(f, other), sub(other, f)):
                        if st.cons.entails_ge0(d):
                            k = addc(d, -1) if st.cons.entails_ge0(addc(d, -1)) else d
                            st.assume_ge0(self.expand(k, g))
            if len(st.ts["prod"]) < 12: st.ts["prod"] = st.ts["prod"] | {(x, y)}
        return e

    def expand(self, x, y):
        e = const(x[0] * y[0])
        e = add(e, scale((0, x[1]), y[0]))
        e = add(e, scale((0, y[1]), x[0]))
        for s1, k1 in x[1]:
            for s2, k2 in y[1]:
                a, b = (sym(s1), sym(s2)) if s1 <= s2 else (sym(s2), sym(s1))
                k = dsym(("mul", a, b), [s1, s2], None, None, "(%s)*(%s)" % (lin.show(a), lin.show(b)))
                e = add(e, scale(sym(k), k1 * k2))
        return e

    def divsym(self, st, e, c):
        """floor(e/c), c>0"""
        if c == 1: return e
        if is_const(e): return const(e[0] // c)
        g = e
        if e[0] % c == 0 and all(k % c == 0 for _, k in e[1]):
            return (e[0] // c, tuple((s, k // c) for s, k in e[1]))
        k = dsym(("div", e, c), expr_syms(e), None, None, "(%s)/%d" % (lin.show(e), c))
        q = sym(k)
        st.assume_le(sub(scale(q, c), e))
        st.assume_le(addc(sub(e, scale(q, c)), 1 - c))
        if self.opts.get("unroll"):
            lo, hi = st.cons.bounds(e)
            if lo is not None and hi is not None and lo // c == hi // c:
                st.assume_eq(addc(q, -(lo // c)))
                return const(lo // c)
            if lo is not None: st.assume_ge0(addc(q, -(lo // c)))
            if hi is not None: st.assume_le(addc(q, -(hi // c)))
        return st.red(q)

    def do_cast(self, st, op, t1, v, t2):
        """[(st,val)]"""
        if op in ("zext", "sext"):
            if t1.w == 1:
                out = []
                for s in self.assume(st.copy(), v, True): out.append((s, I(1 if op == "zext" else -1)))
                for s in self.assume(st.copy(), v, False): out.append((s, I(0)))
                return out
            e = self.as_int(st, v, t1.w)
            f = self.ucanon if op == "zext" else self.scanon
            return [(s, ("i", x)) for s, x in f(st, e, t1.w)]
        if op == "trunc":
            e = self.as_int(st, v, t1.w)
            if t2.w == 1:
                e = st.red(e)
                if len(e[1]) == 1 and e[0] == 0 and e[1][0][1] == 1:
                    k = e[1][0][0]
                    if S.info[k][1] == 0 and S.info[k][2] == 255:
                        if not st.assume_le(addc(e, -1)): return []
                if st.cons.entails_ge0(e) and st.cons.entails_le(addc(e, -1)):
                    return [(st, ("cmp", "ne", ("i", e), I(0), 8))]
                if is_const(e): return [(st, ("bool", e[0] & 1))]
                return [(st, ("cmp", "opaque", v, v, 8))]
            if is_const(e): e = const(e[0] % (1 << t2.w))
            return [(st, ("i", e))]
        if op == "ptrtoint":
            return [(st, ("i", self.addr_of(st, v)))]
        if op == "inttoptr":
            e = self.as_int(st, v, t1.w)
            return [(st, self.to_ptr(st, e))]
        if op in ("bitcast", "addrspacecast"):
            return [(st, v)]
        if op in ("fptosi", "fptoui"):
            return [(st, ("i", sym(self.intsym(st, "f2i", t2.w))))]
        if op in ("fpext", "fptrunc") and v[0] == "o": return [(st, ("o", (op, v[1])))]
        return [(st, ("o", fresh_id()))]

    # ---------------------------------------------------------- instructions
    def step(self, st, ins):
        """execute a non-terminator; returns list of states"""
        self.stats["instructions"] += 1
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisBroken("analysis budget exhausted in %s" % ins.fn.name)
        op, fn = ins.op, ins.fn
        if op == "call":
            return self.do_call(st, ins)
        if op == "load":
            p = self.val(st, fn, ins.ops[0], ir.PTR)
            size = layout(ins.ty)
            if p[0] == "i": p = self.to_ptr(st, p[1])
            r = self.deref(st, ins, p, size, False)
            if r is None: return []
            st.env[ins.res] = self.load_mem(st, ins, r[0], r[1], size, ins.ty, self.hint_of(ins))
            return [st]
        if op == "store":
            v = self.val(st, fn, ins.ops[0], ins.ty)
            if v[0] in ("cmp", "not", "and", "or"):
                out = []
                for t in (True, False):
                    for s in self.assume(st.copy(), v, t):
                        out += self.do_store(s, ins, I(1 if t else 0))
                return out
            if v[0] == "bool": v = I(v[1])
            return self.do_store(st, ins, v)
        if op == "gep":
            out = []
            for s, v in self.gep(st, fn, ins.ty, ins.ops):
                s.env[ins.res] = v
                out.append(s)
            return out
        if op == "icmp":
            a = self.val(st, fn, ins.ops[0], ins.ty)
            b = self.val(st, fn, ins.ops[1], ins.ty)
            if ins.ty.k == "i" and ins.ty.w == 1:
                # comparison of booleans
                v = a if b == ("bool", 0) else None
                if v is not None:
                    st.env[ins.res] = v if ins.extra == "ne" else ("not", v)
                else:
                    st.env[ins.res] = ("cmp", "opaque", I(0), I(0), 8)
                return [st]
            w = 64 if ins.ty.k == "p" else ins.ty.w
            if ins.ty.k == "p":
                if a[0] == "i": a = self.to_ptr(st, a[1])
                if b[0] == "i": b = self.to_ptr(st, b[1])
            st.env[ins.res] = ("cmp", ins.extra, a, b, w)
            return [st]
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a = self.val(st, fn, ins.ops[0], ins.ty)
            b = self.val(st, fn, ins.ops[1], ins.ty)
            if ins.ty.w == 1:
                if op == "xor":
                    if b == ("bool", 1): st.env[ins.res] = ("not", a)
                    elif a == ("bool", 1): st.env[ins.res] = ("not", b)
                    else: st.env[ins.res] = ("or", ("and", a, ("not", b)), ("and", ("not", a), b))
                elif op in ("and", "or"): st.env[ins.res] = (op, a, b)
                else: st.env[ins.res] = ("cmp", "opaque", I(0), I(0), 8)
                return [st]
            if op in ("sdiv", "udiv", "urem", "srem"):
                for c in self.clients:
                    if hasattr(c, "on_div"): c.on_div(self, st, ins, b)
            out = []
            for s, v in self.binop(st, ins, op, ins.ty.w, a, b):
                s.env[ins.res] = v
                out.append(s)
            return out
        if op == "cast":
            v = self.val(st, fn, ins.ops[0], ins.extra[1])
            out = []
            for s, x in self.do_cast(st, ins.extra[0], ins.extra[1], v, ins.ty):
                s.env[ins.res] = x
                out.append(s)
            return out
        if op == "alloca":
            b = ("a", st.ctx, self.insid(ins))
            st.env[ins.res] = ("p", b, ZERO)
            sz = const(layout(ins.ty))
            if ins.extra:
                n = self.as_int(st, self.val(st, fn, ins.extra[1], ins.extra[0]), ins.extra[0].w)
                out = []
                for s, e in self.ucanon(st, n, ins.extra[0].w):
                    s.setobj(b, size=scale(e, layout(ins.ty)), kind="stack")
                    s.mem.pop(b, None); s.ep.pop(b, None)
                    out.append(s)
                return out
            st.mem.pop(b, None); st.fills.pop(b, None); st.ep.pop(b, None)
            st.cep[b] = fresh_id()
            st.setobj(b, size=sz, kind="stack", name=ins.res, ty=ins.ty)
            return [st]
        if op == "select":
            c = self.val(st, fn, ins.ops[0], ir.I1)
            out = []
            for t, o in ((True, ins.ops[1]), (False, ins.ops[2])):
                for s in self.assume(st.copy(), c, t):
                    s.env[ins.res] = self.val(s, fn, o, ins.ty)
                    out.append(s)
            return out
        if op == "freeze":
            st.env[ins.res] = self.val(st, fn, ins.ops[0], ins.ty)
            return [st]
        if op == "fcmp":
            st.env[ins.res] = ("cmp", "opaque", I(0), I(0), 8)
            return [st]
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
            st.env[ins.res] = ("o", fresh_id())
            return [st]
        if op == "extractvalue":
            v = self.val(st, fn, ins.ops[0], ins.ty)
            if v[0] == "agg":
                for i in ins.extra:
                    v = v[1][i] if v[0] == "agg" and i in v[1] else ("o", fresh_id())
                st.env[ins.res] = v
            else:
                t = ins.ty
                for i in ins.extra: t = t.el[i] if t.k == "s" else t.el
                st.env[ins.res] = self.unknown(st, t, "ev")
            return [st]
        if op == "insertvalue":
            v = self.val(st, fn, ins.ops[0], ins.ty)
            x = self.val(st, fn, ins.ops[1], ins.extra[1])
            d = dict(v[1]) if v[0] == "agg" else {}
            if len(ins.extra[0]) == 1: d[ins.extra[0][0]] = x
            st.env[ins.res] = ("agg", d)
            return [st]
        if op == "atomicrmw":
            p = self.val(st, fn, ins.ops[0], ir.PTR)
            r = self.deref(st, ins, p, layout(ins.ty), True)
            if r is None: return []
            old = self.load_mem(st, ins, r[0], r[1], layout(ins.ty), ins.ty)
            x = self.val(st, fn, ins.ops[1], ins.ty)
            if old[0] == "i" and x[0] == "i" and ins.extra in ("add", "sub"):
                nv = ("i", add(old[1], scale(x[1], 1 if ins.extra == "add" else -1)))
            elif ins.extra == "xchg": nv = x
            else: nv = self.unknown(st, ins.ty, "rmw")
            self.store_mem(st, ins, r[0], r[1], nv, layout(ins.ty))
            st.env[ins.res] = old
            return [st]
        if op == "cmpxchg":
            p = self.val(st, fn, ins.ops[0], ir.PTR)
            r = self.deref(st, ins, p, layout(ins.ty), True)
            if r is None: return []
            self.havoc(st, r[0], r[1], const(layout(ins.ty)))
            st.env[ins.res] = ("o", fresh_id())
            return [st]
        if op == "fence":
            return [st]
        raise AnalysisBroken("unhandled op " + op)

    def do_store(self, st, ins, v):
        fn = ins.fn
        p = self.val(st, fn, ins.ops[1], ir.PTR)
        if p[0] == "i": p = self.to_ptr(st, p[1])
        size = layout(ins.ty)
        r = self.deref(st, ins, p, size, True, v)
        if r is None: return []
        if v[0] == "i": v = ("i", st.red(v[1]))
        keep = self.str_store(st, r[0], r[1], v) if size == 1 and st.slen else ()
        self.store_mem(st, ins, r[0], r[1], v, size)
        for o, ln in keep: st.slen[(r[0], o, st.cep.get(r[0], 0))] = ln
        return [st]

    def str_store(self, st, b, off, v):
        """strings of b whose length is still known after storing byte v at off"""
        cep = st.cep.get(b, 0)
        out = []
        off = st.red(off)
        for (bb, o, c), ln in st.slen.items():
            if bb != b or c != cep: continue
            d = sub(off, o)
            cs = st.cons
            if cs.entails_le(addc(d, 1)):
                out.append((o, ln)); continue                    # in front of it
            if not cs.entails_ge0(d): continue
            z = v[0] == "i" and cs.constval(v[1]) == 0
            if z and cs.entails_le(sub(d, ln)):
                out.append((o, st.red(d)))
                if cs.entails_le(addc(sub(d, ln), 1)): out.append((st.red(addc(off, 1)), st.red(addc(sub(ln, d), -1))))     # what follows it
            elif cs.entails_le(addc(sub(d, ln), 1)) and v[0] == "i" and cs.entails_ne(v[1]): out.append((o, ln))
            elif cs.entails_ge0(addc(sub(d, ln), -1)): out.append((o, ln))
        return out

    # ---------------------------------------------------------- calls
    def do_call(self, st, ins):
        fn = ins.fn
        self.stats["calls"] += 1
        callee = ins.extra[0]
        if callee[0] == "asm":
            if ins.res: st.env[ins.res] = self.unknown(st, ins.ty, "asm")
            return [st]
        fv = self.val(st, fn, callee, ir.PTR)
        args = []
        states = [(st, [])]
        for t, v in ins.ops:
            ns = []
            for s, acc in states:
                x = self.val(s, fn, v, t)
                if x[0] in ("cmp", "not", "and", "or") and t.k == "i":
                    for tr in (True, False):
                        for s2 in self.assume(s.copy(), x, tr): ns.append((s2, acc + [I(1 if tr else 0)]))
                    continue
                if x[0] == "bool": x = I(x[1])
                ns.append((s, acc + [x]))
            states = ns
        out = []
        for s, a in states:
            f2 = s.canon(fv) if fv[0] == "p" else fv
            if f2[0] == "p" and f2[1] == NULLB:
                for c in self.clients: c.on_nullderef(self, s, ins, f2)
                continue
            if f2[0] == "p" and f2[1][0] == "fn":
                name = f2[1][1]
                out += self.call_named(s, ins, name, a, f2[1])
            else:
                done = None
                for c in self.clients:
                    done = c.on_icall(self, s, ins, f2, a)
                    if done is not None: break
                if done is None:
                    if f2[0] == "p" and f2[1][0] == "s":
                        if s.nn.get(f2[1]) is None: s.nn[f2[1]] = True
                    done = self.unknown_call(s, ins, None, a)
                out += self.finish_call(ins, done)
        return out

    def finish_call(self, ins, res):
        out = []
        for s, r in res:
            if ins.res:
                s.env[ins.res] = r if r is not None else self.unknown(s, ins.ty, "ret")
            out.append(s)
        return out

    def unknown_call(self, st, ins, name, args):
        """external code: may write through the pointers it is given"""
        for a in args:
            if a[0] == "p":
                b = st.canon(a)[1]
                if b[0] in ("a", "h"):
                    self.escape(st, b)
        r = None
        if ins.res:
            r = self.unknown(st, ins.ty, name or "cb")
        return [(st, r)]

    def escape(self, st, b):
        """contents handed to unknown code"""
        if st.objs.get(b, {}).get("kind") == "const": return
        self.havoc(st, b)

    def call_named(self, st, ins, name, args, fb=None):
        done = None
        for c in self.clients:
            done = c.on_call(self, st, ins, name, args)
            if done is not None:
                break
        if done is None:
            m = self.models.get(name)
            target = None
            mod = ins.fn.module
            if m is None:
                if fb is not None and len(fb) > 2 and fb[2]:
                    for mm in self.prog.modules:
                        if mm.path == fb[2]: target = mm.funcs.get(name)
                if target is None:
                    target = self.prog.resolve(mod, name)
            if m is not None:
                done = m(self, st, ins, args)
            elif target is not None:
                if self.stack.count(target) > self.opts.get("recursion", 0) or not self.opts.get("recursion") and any(i.fn is target for i in st.ctx):
                    done = self.unknown_call(st, ins, name, args)
                else:
                    done = []
                    done = self.call_in_context(st, target, args, ins)
            else:
                if mod.decls.get(name): return []      # noreturn
                if name.startswith("llvm."):
                    done = [(st, self.unknown(st, ins.ty, name) if ins.res else None)]
                else:
                    self.unmodelled = getattr(self, "unmodelled", set())
                    self.unmodelled.add(name)
                    done = self.unknown_call(st, ins, name, args)
        for s, r in done:
            for c in self.clients: c.after_call(self, s, ins, name, args, r)
        return self.finish_call(ins, done)

    def call_in_context(self, st, target, args, ins):
        ctx = st.ctx
        st.saved = st.saved + (st.env,)
        done = []
        for s, r in self.exec_fn(st, target, args, ins):
            s.ctx = ctx
            s.env = dict(s.saved[-1])
            s.saved = s.saved[:-1]
            done.append((s, r))
        return done

    stack = []

    def exec_fn(self, st, fn, args, ins=None):
        """run a function; returns [(state, retval)]; env of the returned states is the callee's"""
        if self.depth > 40: raise AnalysisBroken("call depth")
        self.stats["functions"].add((fn.module.path, fn.name))
        self.depth += 1
        self.stack = self.stack + [fn]
        try:
            fi = self.info(fn)
            ctx = st.ctx + ((ins,) if ins is not None else ())
            st.ctx = ctx
            env = {}
            for (p, t), a in zip(fn.params, args):
                env[p] = a
            st.env = env
            for c in self.clients: c.on_enter(self, st, fn, args)
            rets = []
            self.run_region(fn, fi, None, fn.order[0], [(st, None)], rets)
            out = []
            for s, r in rets:
                for c in self.clients: c.on_leave(self, s, fn, r)
                # locals die
                for b in [b for b in s.objs if b[0] == "a" and b[1] == ctx]:
                    s.objs.pop(b, None); s.mem.pop(b, None); s.ep.pop(b, None); s.fills.pop(b, None); s.cep.pop(b, None)
                s.env = {}
                out.append((s, r))
            if len(out) > self.ret_cap:
                out = self.merge_rets(fn, out)
            return out
        finally:
            self.depth -= 1
            self.stack = self.stack[:-1]

    def merge_rets(self, fn, out):
        groups = {}
        for s, r in out:
            s.env["%ret"] = r if r is not None else UNDEF
            groups.setdefault((self.tskey(s), self.vshape(s, r)), []).append(s)
        res = []
        for k, g in groups.items():
            while len(g) > 1 and len(g) > max(1, self.ret_cap // max(1, len(groups))):
                b = g.pop()
                a = g.pop()
                j = self.join(a, b, ("ret", fn.name, a.ctx), {"%ret"})
                g.append(j)
            res += g
        o = []
        for s in res:
            r = s.env.pop("%ret")
            o.append((s, None if r == UNDEF else r))
        return o

    def vshape(self, s, r):
        if r is None: return None
        r = s.canon(r) if r[0] == "p" else r
        if r[0] == "p": return ("p", s.is_null(r), r[1] if r[1][0] == "h" else None)
        if r[0] == "i":
            e = s.red(r[1])
            return ("i", e[0] if is_const(e) else None)
        return r[0]

    def tskey(self, s):
        heap = tuple(sorted((repr(b), o.get("state", "live"), bool(o.get("esc"))) for b, o in s.objs.items() if b[0] == "h" and not o.get("gone")))
        cl = tuple(c.key(s.ts) for c in self.clients)
        for c in self.clients:
            if hasattr(c, "state_key"): cl += (c.state_key(self, s),)
        return (heap, cl)

    # ---------------------------------------------------------- region execution
    def run_region(self, fn, fi, loop, head, entry, rets):
        """run blocks of a region (function or loop body) starting at head.
        entry: [(state, pred)].  Returns (back, exits): back=[(state,pred)] reaching the head again,
        exits=[(state, pred, succ)] leaving the region."""
        pend = {head: list(entry)}
        back, exits = [], []
        order = [b for b in fi.rpo if loop is None or b in loop.body]
        done_loops = set()
        skip = set()
        for b in order:
            if b in skip or b not in pend:
                continue
            ins = pend.pop(b)
            L = fi.loops.get(b)
            if L is not None and not (loop is not None and b == loop.head):
                # inner loop
                outs = self.run_loop(fn, fi, L, ins, rets)
                skip |= L.body
                for s, p, t in outs:
                    if loop is not None and t == loop.head: back.append((s, p))
                    elif loop is not None and t not in loop.body: exits.append((s, p, t))
                    else: pend.setdefault(t, []).append((s, p))
                continue
            for s, p, t in self.run_block_multi(fn, fi, b, ins, rets):
                if loop is not None and t == loop.head: back.append((s, p))
                elif loop is not None and t not in loop.body: exits.append((s, p, t))
                else: pend.setdefault(t, []).append((s, p))
        if pend:
            raise AnalysisBroken("region order in %s: %s" % (fn.name, list(pend)))
        return back, exits

    def enter_block(self, fn, fi, b, st, pred):
        blk = fn.blocks[b]
        vals = []
        for ins in blk.ins:
            if ins.op != "phi": break
            for v, p in ins.ops:
                if p == pred:
                    vals.append((ins.res, self.val(st, fn, v, ins.ty)))
                    break
            else:
                raise AnalysisBroken("phi without edge")
        for r, v in vals: st.env[r] = v
        # prune dead env
        live = fi.live_in[b]
        keep = {r for r, _ in vals}
        st.env = {k: v for k, v in st.env.items() if k in live or k in keep}
        for i in fi.dead_in.get(b, ()):
            l = ("a", st.ctx, self.insid(i))
            if st.mem.get(l): st.mem[l] = {}
        return st

    def run_block_multi(self, fn, fi, b, ins, rets):
        sts = []
        for s, p in ins:
            sts.append(self.enter_block(fn, fi, b, s, p))
        if len(sts) > self.merge_cap:
            sts = self.merge_list(fn, b, sts)
        out = []
        for s in sts:
            out += self.run_block(fn, fi, b, s, rets)
        return out

    def merge_list(self, fn, b, sts):
        groups = {}
        for s in sts: groups.setdefault(self.tskey(s), []).append(s)
        res = []
        cap = max(1, self.merge_cap // 2 // max(1, len(groups)))
        for k, g in groups.items():
            while len(g) > cap:
                # join neighbours pairwise, keeping path order
                ng = []
                for i in range(0, len(g) - 1, 2):
                    self.stats["merges"] += 1
                    ng.append(self.join(g[i], g[i + 1], ("m", fn.name, b, g[i].ctx, i), None))
                if len(g) % 2: ng.append(g[-1])
                g = ng
            res += g
        return res

    def run_block(self, fn, fi, b, st, rets):
        """-> [(state, pred, succ)]"""
        blk = fn.blocks[b]
        stack = [(st, 0)]
        out = []
        n = len(blk.ins)
        while stack:
            s, i = stack.pop()
            while True:
                ins = blk.ins[i]
                op = ins.op
                if op == "phi":
                    i += 1
                    continue
                if op in ("br", "switch", "ret", "unreachable"):
                    break
                r = self.step(s, ins)
                if not r:
                    s = None
                    break
                if len(r) > 1:
                    for x in r[1:]: stack.append((x, i + 1))
                s = r[0]
                if s.cons.bot:
                    s = None
                    break
                i += 1
            if s is None: continue
            if op == "br":
                if not ins.ops:
                    out.append((s, b, ins.extra[0]))
                    continue
                self.stats["branches"] += 1
                c = self.val(s, fn, ins.ops[0], ir.I1)
                if ins.extra[0] == ins.extra[1]:
                    out.append((s, b, ins.extra[0]))
                    continue
                for t, tgt in ((True, ins.extra[0]), (False, ins.extra[1])):
                    rs = self.assume(s.copy(), c, t, ins)
                    for x in rs:
                        x.note("%s %s" % (loc_str(ins), "true" if t else "false"))
                        for cl in self.clients: cl.on_branch(self, x, ins, c, t)
                        out.append((x, b, tgt))
            elif op == "switch":
                v = self.val(s, fn, ins.ops[0], ins.ty)
                e = self.as_int(s, v, ins.ty.w)
                rest = s.copy()
                dead = False
                for cv, tgt in ins.extra[1]:
                    for x in self.assume(s.copy(), ("cmp", "eq", ("i", e), I(cv), ins.ty.w), True):
                        x.note("%s case %d" % (loc_str(ins), cv))
                        out.append((x, b, tgt))
                    if not dead:
                        r = self.assume(rest, ("cmp", "eq", ("i", e), I(cv), ins.ty.w), False)
                        if r: rest = r[0]
                        else: dead = True
                if not dead:
                    rest.note("%s default" % loc_str(ins))
                    out.append((rest, b, ins.extra[0]))
            elif op == "ret":
                r = None
                if ins.ops:
                    r = self.val(s, fn, ins.ops[0], ins.ty)
                    if r[0] in ("cmp", "not", "and", "or"):
                        for t in (True, False):
                            for x in self.assume(s.copy(), r, t): rets.append((x, I(1 if t else 0)))
                        continue
                    if r[0] == "bool": r = I(r[1])
                rets.append((s, r))
        return out

    # ---------------------------------------------------------- loops
    def run_loop(self, fn, fi, L, entry, rets):
        self.stats["loops"] += 1
        outs = []
        sts = [self.enter_block(fn, fi, L.head, s, p) for s, p in entry]
        cap = self.opts.get("loop_entry_cap", 6)
        if len(sts) > cap:
            groups = {}
            for s in sts: groups.setdefault(self.tskey(s), []).append(s)
            sts = []
            for k, g in groups.items():
                per = max(1, cap // len(groups))
                while len(g) > per:
                    a = g.pop(0)
                    g[0] = self.join(a, g[0], ("le", fn.name, L.head, a.ctx, len(g)), None)
                sts += g
        seen_exit = []
        for s in sts:
            seen_exit += self.fix_loop(fn, fi, L, s, rets)
        return seen_exit

    def peel(self, fn, fi, L, st, rets, limit):
        """a loop whose condition is decided in every iteration is followed iteration by iteration; None otherwise"""
        outs, cur = [], [st.copy()]
        for _ in range(limit):
            nxt = []
            for s in cur:
                back, exits = self.run_region_head(fn, fi, L, s, rets)
                if back and exits and not self.opts.get("enumerate"): return None
                outs += exits
                nxt += [self.enter_block(fn, fi, L.head, x, p) for x, p in back]
            if not nxt: return outs
            if len(nxt) > (self.opts.get("enumerate") or 2): return None
            cur = nxt
        return None

    # a loop that moves or fills bytes one by one is the same operation as the block copy
    def byte_loop(self, fn, fi, L):
        """(phis {name: step}, chain of blocks, comparison, inner block, store, load or None) of a byte-moving loop"""
        if not hasattr(fi, "byte_loops"): fi.byte_loops = {}
        if L.head not in fi.byte_loops: fi.byte_loops[L.head] = self._byte_loop(fn, L)
        return fi.byte_loops[L.head]

    def _byte_loop(self, fn, L):
        if len(L.body) > 4: return None
        hb = fn.blocks[L.head]
        t = hb.ins[-1]
        if t.op != "br" or not t.ops: return None
        inside = [x for x in t.extra if x in L.body and x != L.head]
        if len(inside) != 1 or len(set(t.extra)) != 2: return None
        chain, b = [], inside[0]
        while b != L.head:
            x = fn.blocks[b].ins[-1]
            if b not in L.body or b in chain or x.op != "br" or x.ops: return None
            chain.append(b)
            b = x.extra[0]
        if len(chain) + 1 != len(L.body): return None
        ins = {}
        stores = []
        for b in [L.head] + chain:
            for i in fn.blocks[b].ins:
                if i.op not in ("phi", "br", "load", "store", "gep", "add", "sub", "icmp", "cast"): return None
                if i.op == "store": stores.append(i)
                if i.op == "load" and b == L.head: return None
                if i.res: ins[i.res] = i
        if len(stores) != 1 or stores[0].blk.name == L.head or layout(stores[0].ty) != 1: return None
        cond = t.ops[0]
        cmp = ins.get(cond[1]) if cond[0] == "l" else None
        if cmp is None or cmp.op != "icmp" or cmp.blk.name != L.head: return None
        v = stores[0].ops[0]
        ld = None
        if v[0] == "l" and v[1] in ins:
            ld = ins[v[1]]
            if ld.op != "load" or layout(ld.ty) != 1: return None
        phis = {}
        for i in hb.ins:
            if i.op != "phi": break
            step = None
            for x, p in i.ops:
                if p not in L.body: continue
                if p != chain[-1] or x[0] != "l" or x[1] not in ins: return None
                d = ins[x[1]]
                k = None
                if d.op in ("add", "sub") and d.ops[0] == ("l", i.res): k = d.ops[1]
                elif d.op == "gep" and d.ops[0][1] == ("l", i.res) and len(d.ops) == 2 and layout(d.ty) == 1: k = d.ops[1][1]
                if k is None or k[0] != "c": return None
                step = k[1] if d.op != "sub" else -k[1]
                if d.op != "gep" and step == (1 << d.ty.w) - 1: step = -1
            if step not in (1, -1): return None
            phis[i.res] = (step, i.ty)
        return phis, chain, cmp, inside[0], stores[0], ld

    def block_move(self, fn, fi, L, st, rets):
        """exits of a byte-moving loop, interpreted as one block copy or fill; None when it does not apply"""
        B = self.byte_loop(fn, fi, L)
        if B is None: return None
        phis, chain, cmp, inside, store, ld = B
        self.quiet += 1
        try: plan = self._block_plan(fn, fi, L, st, B)
        finally: self.quiet -= 1
        if plan is None: return None
        outs = []
        for s, dst, src, T in plan:
            if T is None:            # not entered at all
                outs += [(x, p, t) for x, p, t in self.run_block(fn, fi, L.head, s, rets) if t not in L.body]
                continue
            if src[0] == "p": rs = self.models["memcpy"](self, s, store, [dst, src, ("i", T)])
            else: rs = self.models["memset"](self, s, store, [dst, src, ("i", T)])
            for x, _ in rs:
                x.note("%s byte loop" % loc_str(store))
                outs += [(y, p, t) for y, p, t in self._after_loop(fn, fi, L, x, phis, T, rets)]
        return outs

    def _phi_at(self, st, phis, k):
        for r, (step, ty) in phis.items():
            v = st.env[r]
            if v[0] == "p": st.env[r] = ("p", v[1], st.red(add(v[2], scale(k, step))))
            else: st.env[r] = ("i", st.red(add(v[1], scale(k, step))))

    def _after_loop(self, fn, fi, L, st, phis, T, rets):
        self._phi_at(st, phis, T)
        return [(x, p, t) for x, p, t in self.run_block(fn, fi, L.head, st, rets) if t not in L.body]

    def _block_plan(self, fn, fi, L, st, B):
        phis, chain, cmp, inside, store, ld = B
        if "memcpy" not in self.models or "memset" not in self.models: return None
        out = []
        s0 = [st.copy()]
        for r, (step, ty) in phis.items():          # integers in their unsigned range
            if st.env[r][0] == "i":
                nx = []
                for s in s0:
                    for x, e in (self.scanon if cmp.extra[0] == "s" else self.ucanon)(s, self.as_int(s, s.env[r], ty.w), ty.w):
                        x.env[r] = ("i", e)
                        nx.append(x)
                s0 = nx
            elif st.env[r][0] != "p": return None
        for s in s0:
            for x, p, t in self.run_block(fn, fi, L.head, s.copy(), []):
                if t not in L.body:
                    # no iteration: the head is executed again from the untouched state under the same condition
                    y = s.copy()
                    y.cons = x.cons
                    out.append((y, None, None, None))
                    continue
                # at least one iteration
                base = s.copy()
                base.cons = x.cons
                vals = {}
                for K in (None, fsym("iteration", 0, (1 << 62))):
                    y = base.copy()
                    if K is not None:
                        self._phi_at(y, phis, sym(K))
                        for q, (step, ty) in phis.items():
                            if y.env[q][0] == "i" and not self._in_width(y, y.env[q][1], ty.w, cmp, True): return None
                    r = self.run_block(fn, fi, L.head, y, [])
                    r = [z for z in r if z[2] == inside]
                    if len(r) != 1: return None
                    z, p2, _ = r[0]
                    a, b = self.val(z, fn, cmp.ops[0], cmp.ty), self.val(z, fn, cmp.ops[1], cmp.ty)
                    if a[0] != b[0] or a[0] not in ("i", "p") or a[0] == "p" and a[1] != b[1]: return None
                    if a[0] == "i":
                        cn = self.scanon if cmp.extra[0] == "s" else self.ucanon
                        ca, cb = cn(z, a[1], cmp.ty.w), cn(z, b[1], cmp.ty.w)
                        if len(ca) != 1 or len(cb) != 1: return None
                        vals[K is None] = (ca[0][1], cb[0][1])
                    else: vals[K is None] = (z.red(a[2]), z.red(b[2]))
                    if K is None: continue
                    T = self._trip(cmp, vals[True], vals[False], K)
                    if T is None: return None
                    if not base.cons.entails_ge0(addc(T, -1)):
                        if cmp.extra not in ("ne", "eq"): return None
                        if not base.assume_ge0(addc(T, -1)): return None
                    for q, (step, ty) in phis.items():
                        v = base.env[q]
                        if v[0] == "i" and ("l", q) not in cmp.ops and not self._in_width(base, add(v[1], scale(addc(T, -1), step)), ty.w, cmp, False): return None
                    # one arbitrary iteration
                    for q in chain:
                        z = self.enter_block(fn, fi, q, z, p2)
                        rr = []
                        # the addresses are read before the block is left
                        stack = z
                        for i in fn.blocks[q].ins:
                            if i.op in ("phi", "br"): continue
                            if i is store:
                                dv = self.val(stack, fn, store.ops[1], ir.PTR)
                                sv = self.val(stack, fn, store.ops[0], store.ty)
                            if i is ld: lv = self.val(stack, fn, ld.ops[0], ir.PTR)
                            rr = self.step(stack, i)
                            if len(rr) != 1: return None
                            stack = rr[0]
                        z, p2 = stack, q
                    dst = self._linear(z, dv, K)
                    src = self._linear(z, lv, K) if ld is not None else sv
                    if dst is None or src is None: return None
                    if ld is None and (src[0] != "i" or K in expr_syms(src[1])): return None
                    out.append((base, dst, src, base.red(T)))
        return out

    def _in_width(self, st, e, w, cmp, assume):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if cmp.extra[0] == "s" else (0, (1 << w) - 1)
        if assume: return st.assume_ge0(addc(e, -lo)) and st.assume_le(addc(e, -hi))
        return st.cons.entails_ge0(addc(e, -lo)) and st.cons.entails_le(addc(e, -hi))

    def _linear(self, st, v, K):
        if v[0] != "p": return None
        b, o = v[1], st.red(v[2])
        if b[0] == "s" and K in deps_of(b[1]) or b == NULLB: return None
        if dict(o[1]).get(K) != 1: return None
        o = sub(o, sym(K))
        if any(K in deps_of(x) for x in expr_syms(o)): return None
        return ("p", b, o)

    def _trip(self, cmp, first, atk, K):
        """number of iterations, given that there is one"""
        d0 = sub(first[1], first[0])              # right - left
        co = [dict(x[1]).get(K, 0) for x in atk]
        if sorted(map(abs, co)) != [0, 1]: return None
        for x, y, c in zip(first, atk, co):
            if sub(sub(y, x), scale(sym(K), c)) != ZERO: return None
        g = co[1] - co[0]                         # growth of right - left per iteration
        p = cmp.extra
        if p in ("ult", "slt") and g == -1: return d0
        if p in ("ugt", "sgt") and g == 1: return scale(d0, -1)
        if p in ("ule", "sle") and g == -1: return addc(d0, 1)
        if p in ("uge", "sge") and g == 1: return addc(scale(d0, -1), 1)
        if p == "ne" and g in (1, -1): return scale(d0, -g)
        return None

    def fix_loop(self, fn, fi, L, st, rets):
        r = self.block_move(fn, fi, L, st, rets)
        if r is not None: return r
        if self.opts.get("unroll") and st.ts.get("nounroll") != fn.name:
            self.quiet += 1
            try: r = self.peel(fn, fi, L, st, [], self.opts["unroll"])
            finally: self.quiet -= 1
            if r is not None: return self.peel(fn, fi, L, st, rets, self.opts["unroll"])
        point = ("L", fn.name, L.head, st.ctx)
        stale = PHIS.get(point)
        if stale: st = rename_syms(st, stale)
        H = {}      # tskey -> [state, joins]
        k0 = self.tskey(st)
        H[k0] = [st, 0]
        work = [k0]
        iters = 0
        while work:
            k = work.pop(0)
            iters += 1
            self.stats["loop_iters"] += 1
            if iters > MAX_ITERS:
                raise AnalysisBroken("no fixpoint in loop %s of %s" % (L.head, fn.name))
            if len(H) > self.opts.get("loop_parts", 10):
                raise AnalysisBroken("loop partitions explode in %s (%s): %s" % (fn.name, L.head, [x for x in H][:3]))
            self.quiet += 1
            try:
                r2 = []
                back, exits = self.run_region_head(fn, fi, L, H[k][0].copy(), r2)
            finally:
                self.quiet -= 1
            for s, p in back:
                s = self.enter_block(fn, fi, L.head, s, p)
                self.loop_summarise(s, point, H[k][0])
                kb = self.tskey(s)
                if kb not in H:
                    s = self.rename_phis(s, point)
                    H[kb] = [s, 0]
                    work.append(kb)
                else:
                    old, n = H[kb]
                    s = self.rename_phis(s, point)
                    new, changed = self.widen(old, s, point, n)
                    if changed:
                        H[kb] = [new, n + 1]
                        if kb not in work: work.append(kb)
        # stable: final, reporting run
        outs = []
        for k, (s, n) in list(H.items()):
            back, exits = self.run_region_head(fn, fi, L, s.copy(), rets)
            outs += exits
        return outs

    def run_region_head(self, fn, fi, L, st, rets):
        # the head's phis are already in env
        pend_out = self.run_block(fn, fi, L.head, st, rets)
        back, exits = [], []
        pend = {}
        for s, p, t in pend_out:
            if t == L.head: back.append((s, p))
            elif t not in L.body: exits.append((s, p, t))
            else: pend.setdefault(t, []).append((s, p))
        order = [b for b in fi.rpo if b in L.body and b != L.head]
        skip = set()
        for b in order:
            if b in skip or b not in pend: continue
            ins = pend.pop(b)
            L2 = fi.loops.get(b)
            if L2 is not None:
                res = self.run_loop(fn, fi, L2, ins, rets)
                skip |= L2.body
            else:
                res = self.run_block_multi(fn, fi, b, ins, rets)
            for s, p, t in res:
                if t == L.head: back.append((s, p))
                elif t not in L.body: exits.append((s, p, t))
                else: pend.setdefault(t, []).append((s, p))
        return back, exits

    def loop_summarise(self, st, point, head):
        """heap objects created inside the loop and already linked into memory become summary objects"""
        for b, o in list(st.objs.items()):
            if b[0] != "h": continue
            if o.get("state") == "freed" and b[1][0] != "shape":
                # a freed object of an earlier iteration: forget it unless still referenced
                if not self.referenced(st, b): self.forget(st, b)
                continue
            if b in head.objs: continue
            if o.get("kind") not in (None, "heap", "res"): continue
            inmem = self.in_memory(st, b)
            inenv = any(v[0] == "p" and st.canon(v)[1] == b for v in st.env.values())
            if inmem:
                self.summarise(st, b)
            elif not inenv:
                for c in self.clients: c.on_drop(self, st, None, b)
                self.forget(st, b)

    def referenced(self, st, b):
        return self.in_memory(st, b) or any(v[0] == "p" and st.canon(v)[1] == b for v in st.env.values())

    def in_memory(self, st, b):
        for bb, cells in st.mem.items():
            if bb == b: continue
            if (st.objs.get(bb) or {}).get("state") == "freed": continue
            for o, (v, sz) in cells.items():
                if v[0] == "p" and st.canon(v)[1] == b: return True
        return False

    def summarise(self, st, b):
        """turn a concrete heap object into an anonymous symbolic one"""
        nb = ("s", fsym("sum:" + bname(b)))
        st.nn[nb] = True
        m = {b: nb}
        rename_state(st, {}, m)
        o = dict(st.objs.get(nb, {}))
        o.pop("state", None)
        o["sum"] = True
        st.objs[nb] = o

    def forget(self, st, b):
        st.objs.pop(b, None); st.mem.pop(b, None); st.ep.pop(b, None); st.fills.pop(b, None)

    def rename_phis(self, st, point):
        """phi symbols of this loop head refer to the previous iteration in a back-edge state"""
        phis = PHIS.get(point)
        if not phis: return st
        return rename_syms(st, phis)

    def widen(self, old, new, point, n):
        gc_state(new)
        j = self.join(old, new, point, None, widen=(n >= 3), loop=True)
        gc_state(j)
        return j, not same_state(old, j)

    # ---------------------------------------------------------- join
    def join(self, A, B, point, live, widen=False, loop=False):
        def exists(S, b, n=0):
            if b[0] != "s": return True
            if S.nn.get(b) is False: return False
            f = (S.objs.get(b) or {}).get("from")
            return n > 20 or f is None or exists(S, f[0], n + 1)

        self.stats["joins"] += 1
        if not loop:
            gc_state(A); gc_state(B)
        J = A.copy()
        phis = []      # (sym, exprA, exprB)
        cache = {}
        esc = set()
        phiset = PHIS.setdefault(point, set()) if loop else set()

        def weak(v, X):
            if v[0] == "p":
                b = X.canon(v)[1]
                if b[0] == "h": esc.add(b)

        def genint(where, ea, eb, lo=None, hi=None):
            ck = (ea, eb)
            if ck in cache: return cache[ck]
            # already generalised at this point?
            if (len(ea[1]) == 1 and ea[0] == 0 and ea[1][0][1] == 1 and ea[1][0][0] in phiset
                    and not any(x[0] == ea[1][0][0] for x in phis)):      # what was one value so far may be two from here on
                s = ea[1][0][0]
            else:
                s = (dsym(("phi", point, where), (), None, None, "phi:%s" % (pname(where),)) if loop
                     else fsym("phi:%s" % (pname(where),)))
                if any(x[0] == s for x in phis):
                    s = dsym(("phi", point, where, fresh_id()), (), None, None, "phi")
                phiset.add(s)
            phis.append((s, ea, eb))
            cache[ck] = sym(s)
            return sym(s)

        pcache = {}
        ptrs = set()       # (base, offset) of the joined pointers

        def mk(key, lo=None, hi=None):
            if not loop: return fsym("phi", lo, hi)
            k = dsym(key, (), lo, hi, "phi")
            phiset.add(k)
            return k

        def gen(where, a, b):
            if a == b: return a
            if a[0] == "p": a = A.canon(a)
            if b[0] == "p": b = B.canon(b)
            if a == b: return a
            if a[0] == "i" and b[0] == "i":
                if a[1] == b[1]: return a
                ra, rb = A.red(a[1]), B.red(b[1])
                if ra == rb: return ("i", ra)
                return ("i", genint(where, a[1], b[1]))
            if a[0] == "p" and b[0] == "p":
                if a[1] == b[1]:
                    ra, rb = A.red(a[2]), B.red(b[2])
                    if ra == rb: return ("p", a[1], ra)
                    e = genint(where, a[2], b[2])
                    ptrs.add((a[1], e))
                    return ("p", a[1], e)
                weak(a, A); weak(b, B)
                # keep "null or base" when one side is a symbolic base with unknown nullness?
                ck = (a, b)
                if ck in pcache: return pcache[ck]
                if a[1][0] == "s" and a[1][1] in phiset and a[2] == ZERO and not any(r[1] == a[1] for r in pcache.values()):
                    s = a[1][1]
                else:
                    s = (dsym(("phip", point, where), (), None, None, "phi:%s" % (pname(where),)) if loop
                         else fsym("phi:%s" % (pname(where),)))
                    if any(r[1] == ("s", s) for r in pcache.values()): s = dsym(("phip", point, where, fresh_id()), (), None, None, "phi")
                    phiset.add(s)
                nb = ("s", s)
                na, nbl = A.is_null(a), B.is_null(b)
                J.nn.pop(nb, None)
                if na is False and nbl is False: J.nn[nb] = True
                if na is True and nbl is True: J.nn[nb] = False
                oa, ob = A.objs.get(a[1], {}), B.objs.get(b[1], {})
                o = {}
                for kk in ("state", "size", "kind", "fam"):
                    if oa.get(kk) == ob.get(kk) and kk in oa: o[kk] = oa[kk]
                # a null alternative keeps the other side's life-cycle state
                if a[1] == NULLB: o = {k: v for k, v in ob.items() if k in ("state", "kind", "fam")}
                if b[1] == NULLB: o = {k: v for k, v in oa.items() if k in ("state", "kind", "fam")}
                J.objs[nb] = o
                J.mem.pop(nb, None)
                J.ep[nb] = fresh_id() if not loop else ("phi", s)
                J.alias.pop(nb, None)
                r = ("p", nb, ZERO)
                pcache[ck] = r
                return r
            if a[0] == b[0] == "agg": return ("o", fresh_id())
            if a[0] == "u" or b[0] == "u":
                x = b if a[0] == "u" else a
                if x[0] == "i": return ("i", sym(mk(("phi", point, where, "u"))))
                if x[0] == "p": return ("p", ("s", mk(("phip", point, where, "u"))), ZERO)
            if a[0] in ("cmp", "bool", "not", "and", "or") or b[0] in ("cmp", "bool", "not", "and", "or"):
                return ("cmp", "ne", ("i", sym(mk(("phib", point, where), 0, 1))), I(0), 8)
            if a[0] == "zero" or b[0] == "zero" or a[0] == "o" or b[0] == "o":
                return ("o", ("phio", point, where) if loop else fresh_id())
            if {a[0], b[0]} == {"i", "p"}:
                return ("i", genint(where, self.as_int(A, a, 64), self.as_int(B, b, 64)))
            return ("o", ("phio", point, where) if loop else fresh_id())

        # environment
        env = {}
        for k in A.env:
            if k not in B.env: continue
            if live is not None and k not in live: continue
            env[k] = gen(("e", k), A.env[k], B.env[k])
        J.env = env
        if A.saved is not B.saved:
            sv = []
            for n, (ea, eb) in enumerate(zip(A.saved, B.saved)):
                if ea is eb: sv.append(ea)
                else: sv.append({k: (gen(("sv", n, k), ea[k], eb[k]) if ea[k] is not eb[k] else ea[k]) for k in ea if k in eb})
            J.saved = tuple(sv)
        # memory
        mem = {}
        ep = {}
        cep = {}
        fills = {}
        allb = set(A.mem) | set(B.mem) | set(A.ep) | set(B.ep)
        for b in allb:
            if b[0] == "s" and b[1] in phiset:
                # rebound at this point: contents unknown
                ep[b] = ("phi", b[1]) if loop else fresh_id()
                for v, sz in A.mem.get(b, {}).values(): weak(v, A)
                for v, sz in B.mem.get(b, {}).values(): weak(v, B)
                continue
            ea, eb = A.ep.get(b, 0), B.ep.get(b, 0)
            if ea == eb:
                if ea: ep[b] = ea
            else:
                ep[b] = epsym(point, b, phiset, "J") if loop else fresh_id()
            ca, cb = A.mem.get(b, {}), B.mem.get(b, {})
            nc = {}
            if ca is cb:
                if ea == eb or True: nc = dict(ca)
            else:
                keys = list(ca) + [k for k in cb if k not in ca]
                for o in keys:
                    xa, xb = ca.get(o), cb.get(o)
                    if xa is None:
                        xa = find_cell(A, ca, o)
                    if xb is None:
                        xb = find_cell(B, cb, o)
                    if xa is None or xb is None:
                        # one side never materialised it: its value there is the initial symbol
                        have, other, oep, oS = (xa, "B", eb, B) if xb is None else (xb, "A", ea, A)
                        if is_const(o) and have[0][0] in ("i", "p"):
                            iv = self.init_val(oS, b, o, have[1], have[0], oep)
                            if iv is not None:
                                pa, pb = (have[0], iv) if other == "B" else (iv, have[0])
                                nc[o] = (gen(("m", b, o), pa, pb), have[1])
                        if o not in nc: weak(have[0], B if xa is None else A)
                        continue
                    if xa[1] != xb[1]:
                        weak(xa[0], A); weak(xb[0], B)
                        continue
                    v = gen(("m", b, o), xa[0], xb[0])
                    nc[o] = (v, xa[1])
            if nc: mem[b] = nc
            fa, fb = A.fills.get(b), B.fills.get(b)
            if fa is not None and fa == fb: fills[b] = fa
        for b in set(A.cep) | set(B.cep):
            x, y = A.cep.get(b), B.cep.get(b)
            if x == y: cep[b] = x
            else: cep[b] = epsym(point, b, phiset, "J") if loop else fresh_id()
        for b in set(A.fills) | set(B.fills):
            if A.fills.get(b) == B.fills.get(b) and b not in fills: fills[b] = A.fills[b]
            elif b not in fills and A.fills.get(b) and B.fills.get(b):      # filled from an index on
                keep = []
                for la, na, by in A.fills[b]:
                    end = A.red(add(la, na))
                    if not is_const(end): continue
                    lb = [lo for lo, n, y in B.fills[b] if y == by and B.red(add(lo, n)) == end]
                    for sy, ea, eb in phis[:8]:
                        if lb and A.cons.entails_ge0(sub(ea, la)) and B.cons.entails_ge0(sub(eb, lb[0])):
                            keep.append((sym(sy), sub(end, sym(sy)), by)); break
                if keep: fills[b] = tuple(keep)
        J.mem, J.ep, J.cep, J.fills = mem, ep, cep, fills
        J.slen = {k: v for k, v in A.slen.items() if B.slen.get(k) == v}
        for (b, o, c), la in A.slen.items():
            if c != A.cep.get(b, 0) or (b, o, J.cep.get(b, 0)) in J.slen: continue
            lb = B.slen.get((b, o, B.cep.get(b, 0)))
            if lb is None: continue
            ra, rb = A.red(la), B.red(lb)
            J.slen[(b, o, J.cep.get(b, 0))] = ra if ra == rb else genint(("sl", b, o), la, lb)
        if ptrs and A.slen and B.slen:
            for sy, ea, eb in phis[:12]:
                for b in {b for b, e in ptrs if e == sym(sy)}:
                    if (b, sym(sy), J.cep.get(b, 0)) in J.slen: continue
                    la, lb = self.len_at(A, b, ea), self.len_at(B, b, eb)
                    if la is None or lb is None: continue
                    ra, rb = A.red(la), B.red(lb)
                    J.slen[(b, sym(sy), J.cep.get(b, 0))] = ra if ra == rb else genint(("sl", b, sym(sy)), la, lb)
        # objects
        for b in list(J.objs):
            if b in A.objs and b in B.objs:
                if A.objs[b] != B.objs[b]:
                    # where the pointer is NULL there is no object: the other side knows
                    ea, eb = exists(A, b), exists(B, b)
                    if ea != eb:
                        J.objs[b] = A.objs[b] if ea else B.objs[b]
                        continue
                    o = {}
                    for kk in set(A.objs[b]) & set(B.objs[b]):
                        if A.objs[b][kk] == B.objs[b][kk]: o[kk] = A.objs[b][kk]
                        elif kk == "size":
                            o[kk] = genint(("sz", b), A.objs[b][kk], B.objs[b][kk])
                    if "freed" in (A.objs[b].get("state"), B.objs[b].get("state")) and b[0] == "s":
                        o["state"] = "maybe-freed"
                    if A.objs[b].get("esc") or B.objs[b].get("esc"): o["esc"] = True
                    J.objs[b] = o
            elif b in A.objs and b not in B.objs and b[0] == "s":
                pass
        for b, o in B.objs.items():
            if b not in J.objs: J.objs[b] = o
        for b in esc:
            o = J.objs.get(b)
            if o and not o.get("esc"): J.setobj(b, esc=True)
        # nullness & aliases
        for b in list(J.nn):
            if b[0] == "s" and b[1] in phiset: continue
            if A.nn.get(b) != B.nn.get(b): J.nn.pop(b)
        J.alias = {k: v for k, v in A.alias.items() if B.alias.get(k) == v}
        J.pne = A.pne & B.pne
        for kk in ("p2", "sb", "prod", "mods", "div", "tab"):
            x, y = A.ts.get(kk), B.ts.get(kk)
            if x is not y:
                x = (x or frozenset()) & (y or frozenset())
                if x: J.ts[kk] = x
                else: J.ts.pop(kk, None)
        # client typestate: equal by key, otherwise prefer A's value
        for c in self.clients:
            if hasattr(c, "join_ts"): c.join_ts(J, A, B)
        # numeric
        J.cons = self.join_cons(A, B, phis, widen)
        return J

    def init_val(self, st, b, o, size, like, ep):
        if like[0] == "i":
            if b[0] == "a" and not ep: return None
            key = ("init", b, o, ep, size)
            if size > 8: return None
            k = self.intsym(st, "%s[%s]" % (bname(b), lin.show(o)), size * 8, None, key=key, deps=list(base_syms(b)) + expr_syms(o) + epdeps(ep))
            return ("i", sym(k))
        if like[0] == "p":
            if b[0] == "a" and not ep: return None
            k = dsym(("pinit", b, o, ep), list(base_syms(b)) + expr_syms(o) + epdeps(ep), None, None, "%s[%s]" % (bname(b), lin.show(o)))
            return st.canon(("p", ("s", k), ZERO))
        return None

    def len_at(self, X, b, off):
        """length of the text at off of b where it follows from what is known"""
        c = X.cep.get(b, 0)
        e = X.slen.get((b, off, c))
        if e is not None: return e
        for (b2, o, c2), ln in X.slen.items():
            if b2 == b and c2 == c:
                d = X.red(sub(off, o))
                if X.cons.entails_ge0(d) and X.cons.entails_ge0(sub(ln, d)): return sub(ln, d)
        return None

    def join_cons(self, A, B, phis, widen):
        if not phis and A.cons.le == B.cons.le and A.cons.eqs == B.cons.eqs and A.cons.ne == B.cons.ne:
            return A.cons.copy()
        phs = {p[0] for p in phis}
        ca, cb = A.cons.copy(), B.cons.copy()
        # does a phi symbol already occur in A's constraints (re-join at a loop head)?
        onlyA = set()
        for s, ea, eb in phis:
            if not (len(ea[1]) == 1 and ea[0] == 0 and ea[1][0] == (s, 1)):
                ca.add_eq(sub(sym(s), ea), prefer=lambda x: -1 if x in phs else 0)
            if not (len(eb[1]) == 1 and eb[0] == 0 and eb[1][0] == (s, 1)):
                cb.add_eq(sub(sym(s), eb), prefer=lambda x: -1 if x in phs else (1 if is_tmp(x) else 0))
        out = Cons()
        if ca.bot: return cb
        if cb.bot: return ca
        cand = []
        fa, fb = ca.all_le(), cb.all_le()
        for s in phs:
            for c, store in ((ca, fa), (cb, fb)):
                pass
        seen = set()

        def push(e):
            e = lin.norm(e)
            if e[1] and e not in seen:
                seen.add(e)
                cand.append(e)
        for e in fa: push(e)
        # what holds besides the equations of the phis
        for X in (A,) if widen else (A, B):
            for e in X.cons.le: push(e)
            for s, e in X.cons.eqs.items():
                push(sub(sym(s), e)); push(sub(e, sym(s)))
        if not widen:
            for e in fb: push(e)
            # template bounds on phi symbols
            for s, ea, eb in phis:
                for x in (ea, eb):
                    if not any(k in phs for k, _ in x[1]):
                        push(sub(sym(s), x)); push(sub(x, sym(s)))
                la, ha = ca.bounds(sym(s)); lb, hb = cb.bounds(sym(s))
                if la is not None and lb is not None: push((min(la, lb), ((s, -1),)))
                if ha is not None and hb is not None: push((-max(ha, hb), ((s, 1),)))
            # what is known of a symbol, read as a bound of the counter that so far goes along with it
            for s, e1 in ca.eqs.items():
                if s not in phs or len(e1[1]) > 2: continue
                for t, k in e1[1]:
                    for e in A.cons.le:
                        c = next((y for x, y in e[1] if x == t), 0)
                        if c and c % k == 0 and len(e[1]) <= 3: push(add(e, scale(sub(sym(s), e1), c // k)))
            # a counter that has started to move: bounds of its first values read as bounds of the counter
            for s, ea, eb in phis:
                if is_const(eb):
                    for e in B.cons.le:
                        if len(e[1]) == 1 and e[1][0][0] not in phs and e[1][0][1] < 0 and e[0] >= eb[0]: push(add(sub(e, eb), sym(s)))
            lens = set()
            for X in (A, B):
                for (b, o, c), ln in X.slen.items():
                    if len(ln[1]) == 1 and c == X.cep.get(b, 0): lens.add((o, ln))
                    elif c == X.cep.get(b, 0) and 2 <= len(ln[1]) <= 3 and not any(k in phs for k, _ in ln[1]):
                        push(scale(ln, -1)); push(addc(scale(ln, -1), 1))
            if len(lens) <= 8:
                for s, ea, eb in phis:
                    for o, ln in lens:
                        push(sub(sym(s), add(o, ln)))
                        if o != ZERO and ea == ZERO: push(sub(sym(s), ln))
            zero = [s for s, ea, eb in phis[:6] if ea == ZERO] if A.slen else ()
            if zero:                    # an index that runs along a text somebody points at
                for v in A.env.values():
                    if v[0] != "p": continue
                    v = A.canon(v)
                    off = A.red(v[2])
                    if is_const(off): continue
                    ln = self.len_at(A, v[1], off)
                    if ln is not None:
                        for s in zero: push(sub(sym(s), ln))
            # pairwise relations
            pl = phis[:10]
            for i in range(len(pl)):
                for j in range(i + 1, len(pl)):
                    s, a1, b1 = pl[i]
                    t, a2, b2 = pl[j]
                    ds, dt = cb.red(sub(b1, a1)), cb.red(sub(b2, a2))
                    ratios = {(1, -1), (1, 1)}
                    if is_const(ds) and is_const(dt) and ds[0] and dt[0]:
                        ratios.add((dt[0], -ds[0]))
                    for p, q in ratios:
                        x = add(scale(sym(s), p), scale(sym(t), q))
                        xa = add(scale(a1, p), scale(a2, q))
                        if not any(k in phs for k, _ in xa[1]):
                            push(sub(x, xa)); push(sub(xa, x))
                        la, ha = ca.bounds(x); lb, hb = cb.bounds(x)
                        if la is not None and lb is not None: push(sub(const(min(la, lb)), x))
                        if ha is not None and hb is not None: push(sub(x, const(max(ha, hb))))
        if widen:
            # so far below a constant, which in turn is below another symbol: below that symbol, and that may last
            low = [(e[1][0][0], e[0]) for e in A.cons.le if len(e[1]) == 1 and e[1][0][1] == -1 and e[0] > 0 and e[1][0][0] not in phs]
            for s, ea, eb in phis if len(low) <= 16 else ():
                h = A.cons.bounds(sym(s))[1]
                if h is None or h < 0: continue
                for t, d in low:
                    if h <= d: push(addc(sub(sym(s), sym(t)), d - h))
            # constants the counter is compared with inside the loop: where it may come to rest
            for s, ea, eb in phis:
                if len(eb[1]) == 1 and abs(eb[1][0][1]) > 1:          # one that is multiplied: where its last factor may take it
                    ha, hb = ca.bounds(sym(s))[1], cb.bounds(sym(s))[1]
                    if ha is not None and hb is not None:
                        c = next((x for x in (1 << 17, 1 << 33, (1 << 64) - 1) if x >= max(ha, hb)), None)
                        if c is not None: push((-c, ((s, 1),)))
                t = THRESHOLDS.get(s, ())
                if not t or len(t) > 6: continue
                d = eb[0] if len(eb[1]) == 1 and eb[1][0][1] == 1 and abs(eb[0]) <= 64 else 0
                for c in sorted(t):
                    for j in {-1, 0, 1, d}:
                        push((-c - j, ((s, 1),))); push((c + j, ((s, -1),)))
        for e in affine_meet(ca, cb):
            push(e); push(scale(e, -1))
        res = []
        for e in cand:
            if ca.entails_le(e) and cb.entails_le(e):
                res.append(e)
        # equalities first
        rs = set(res)
        for e in res:
            if lin.norm(scale(e, -1)) in rs:
                out.add_eq(e, prefer=lambda x: -1 if x in phs else 0)
        for e in res: out.add_le(e)
        both = A.cons.ne & B.cons.ne
        for d in both: out.add_ne(d)
        # below zero on one side and above it on the other: still not zero
        sa, sb = nonzero(A.cons), nonzero(B.cons)
        for s in phs:
            sa.add(s); sb.add(s)
        for s in sorted(sa & sb)[:12]:
            d = sym(s)
            if d not in both and not out.entails_ne(d) and ca.entails_ne(d) and cb.entails_ne(d): out.add_ne(d)
        return out


def nonzero(c):
    """symbols that are known not to be zero by a single fact"""
    return {d[1][0][0] for d in c.ne if len(d[1]) == 1 and d[0] == 0} | {e[1][0][0] for e in c.le if len(e[1]) == 1 and e[0] > 0}


def affine_meet(ca, cb, limit=16):
    """combinations of equalities of one side that hold on the other, beyond the equalities both have"""
    rows = []
    for s, e in ca.eqs.items():
        a = sub(sym(s), e)
        r = cb.red(a)
        if r == ZERO: continue
        rows.append((r, a))
    if not 2 <= len(rows) <= limit: return []
    out = []
    while rows:
        r, a = rows.pop()
        if r == ZERO:
            out.append(a); continue
        # pivot: a symbol of the residual (or its constant)
        k = r[1][0][0] if r[1] else None
        c = r[1][0][1] if r[1] else r[0]
        nx = []
        for r2, a2 in rows:
            d = (dict(r2[1]).get(k, 0) if k is not None else (r2[0] if not r2[1] else 0))
            if d:
                r2, a2 = sub(scale(r2, c), scale(r, d)), sub(scale(a2, c), scale(a, d))
                if max([abs(r2[0])] + [abs(x) for _, x in r2[1]] + [abs(x) for _, x in a2[1]]) > 1 << 66: continue
            nx.append((r2, a2))
        rows = nx
    return [e for e in out if e[1]]


PHIS = {}
THRESHOLDS = {}     # symbol -> constants it was compared with


def pname(w):
    w = w[-1] if isinstance(w, tuple) else w
    if isinstance(w, tuple) and len(w) == 2 and isinstance(w[0], int): return lin.show(w)
    return str(w)


def is_tmp(s):
    k = S.keys[s]
    return isinstance(k, tuple) and k[0] in ("f", "rn")


class _FnShim:
    def __init__(self, mod):
        self.module = mod
        self.name = "?"


def bname(b):
    k = b[0]
    if k == "s": return S.name(b[1])
    if k == "g": return b[1]
    if k == "h": return "obj(%s)" % (b[1] if isinstance(b[1], str) else b[1],)
    if k == "a": return b[2][1] + ":" + str(b[2][3]) if len(b) > 2 else "local"
    if k == "fn": return b[1]
    return k


def find_cell(st, cells, o):
    r = st.red(o)
    for k, v in cells.items():
        if st.red(k) == r: return v
    return None


def ren_expr(e, m):
    for s, _ in e[1]:
        if s in m:
            return (e[0], tuple(sorted((m.get(s, s), k) for s, k in e[1])))
    return e


def ren_any(x, m, bm):
    if isinstance(x, tuple):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple) and not isinstance(x[0], bool):
            if all(isinstance(t, tuple) and len(t) == 2 for t in x[1]):
                return ren_expr(x, m)
        if bm and x and x[0] != "agg" and x in bm: return bm[x]
        if len(x) == 2 and x[0] == "E":
            return ("E", m[x[1]]) if x[1] in m else x
        if len(x) == 2 and x[0] == "s" and isinstance(x[1], int):
            return ("s", m[x[1]]) if x[1] in m else x
        if x and x[0] in ("a", "fn", "g", "K"):
            return x
        ch = False
        out = []
        for y in x:
            z = ren_any(y, m, bm)
            if z is not y: ch = True
            out.append(z)
        return tuple(out) if ch else x
    if isinstance(x, dict):
        return {ren_any(k, m, bm): ren_any(v, m, bm) for k, v in x.items()}
    if isinstance(x, frozenset):
        return frozenset(ren_any(y, m, bm) for y in x)
    return x


def rename_state(st, m, bm):
    sv = []
    for e in st.saved:
        ne, ch = {}, False
        for k, v in e.items():
            w = ren_any(v, m, bm)
            if w is not v: ch = True
            ne[k] = w
        sv.append(ne if ch else e)
    if any(a is not b for a, b in zip(sv, st.saved)): st.saved = tuple(sv)
    st.env = {k: ren_any(v, m, bm) for k, v in st.env.items()}
    st.mem = {ren_any(b, m, bm): {ren_any(o, m, bm): (ren_any(v, m, bm), sz) for o, (v, sz) in c.items()} for b, c in st.mem.items()}
    st.ep = {ren_any(b, m, bm): ren_any(v, m, bm) for b, v in st.ep.items()}
    st.cep = {ren_any(b, m, bm): ren_any(v, m, bm) for b, v in st.cep.items()}
    st.fills = {ren_any(b, m, bm): ren_any(v, m, bm) for b, v in st.fills.items()}
    st.objs = {ren_any(b, m, bm): {k: ren_any(v, m, bm) for k, v in o.items()} for b, o in st.objs.items()}
    st.nn = {ren_any(b, m, bm): v for b, v in st.nn.items()}
    st.alias = {ren_any(b, m, bm): ren_any(v, m, bm) for b, v in st.alias.items()}
    st.pne = ren_any(st.pne, m, bm)
    st.slen = {ren_any(k, m, bm): ren_any(v, m, bm) for k, v in st.slen.items()}
    st.ts = {ren_any(k, m, bm): ren_any(v, m, bm) for k, v in st.ts.items()}
    if m:
        c = Cons()
        oc = st.cons
        c.eqs = {m.get(s, s): ren_expr(e, m) for s, e in oc.eqs.items()}
        c.le = frozenset(ren_expr(e, m) for e in oc.le)
        c.ne = frozenset(ren_expr(e, m) for e in oc.ne)
        c.bot = oc.bot
        st.cons = c


def collect_syms(st):
    out = set()

    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                for t in x[1]:
                    if isinstance(t, tuple) and len(t) == 2: out.add(t[0])
                return
            if len(x) == 2 and x[0] in ("s", "E") and isinstance(x[1], int):
                out.add(x[1]); return
            if x and x[0] in ("a", "fn", "g"): return
            for y in x: w(y)
        elif isinstance(x, dict):
            for k, v in x.items(): w(k); w(v)
        elif isinstance(x, frozenset):
            for y in x: w(y)
    for v in st.env.values(): w(v)
    for e in st.saved:
        for v in e.values(): w(v)
    w(st.mem); w(st.nn); w(st.alias); w(st.objs); w(st.ts); w(st.slen); w(st.pne); w(st.fills)
    w(st.ep); w(st.cep)
    for s, e in st.cons.eqs.items(): out.add(s); w(e)
    for e in st.cons.le: w(e)
    for e in st.cons.ne: w(e)
    return out


FRESHK = ("f", "rn", "phi", "phip", "phib", "J")


def gc_state(st, consts=True):
    """drop facts about memory that can no longer be named"""
    ref = set()

    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                for t in x[1]:
                    if isinstance(t, tuple) and len(t) == 2: ref.add(t[0])
                return
            if len(x) == 2 and x[0] in ("s", "E") and isinstance(x[1], int):
                ref.add(x[1]); return
            if x and x[0] in ("a", "fn", "g"): return
            for y in x: w(y)
        elif isinstance(x, dict):
            for k, v in x.items(): w(k); w(v)
        elif isinstance(x, (frozenset, list)):
            for y in x: w(y)
    for v in st.env.values(): w(v)
    for e in st.saved:
        for v in e.values(): w(v)
    w(st.ts)
    for k in [k for k in st.slen if st.cep.get(k[0], 0) != k[2]]: del st.slen[k]
    for b, o in st.objs.items():
        if b[0] in ("h", "a"): w(o)
    memo = {}

    def live(k):
        if k in ref: return True
        r = memo.get(k)
        if r is None:
            memo[k] = False
            d = IDEPS.get(k)
            key = S.keys[k]
            kind = key[0] if isinstance(key, tuple) else None
            if d is None or (not d and kind in FRESHK): r = kind not in FRESHK
            elif not d: r = True
            else: r = all(live(x) for x in d)
            memo[k] = r
        return r
    done = set()
    todo = True
    allb = set(st.mem)
    while todo:
        todo = False
        for b in allb:
            if b in done: continue
            if b[0] == "s" and not live(b[1]): continue
            done.add(b)
            todo = True
            n0 = len(ref)
            for o, (v, sz) in st.mem[b].items():
                w(v); w(o)
            e = st.ep.get(b)
            if e: w(e)
            if len(ref) != n0: memo.clear()
        for b, (c, o) in st.alias.items():
            if live(b[1]) and c[0] == "s" and c[1] not in ref:
                ref.add(c[1]); memo.clear(); todo = True
    for b, e in st.ep.items():
        if b[0] != "s" or live(b[1]): w(e)
    for k, e in list(st.slen.items()):
        if k[0][0] == "s" and not live(k[0][1]): del st.slen[k]
        else: w(e); w(k[1])
    memo.clear()
    for b in [b for b in st.mem if b[0] == "s" and not live(b[1])]:
        for v, sz in list(st.mem[b].values()): st.weaken(v)
    for d in (st.mem, st.ep, st.cep, st.fills, st.nn, st.objs):
        for b in [b for b in d if b[0] == "s" and not live(b[1])]: del d[b]
    for b in [b for b in st.alias if not live(b[1])]: del st.alias[b]
    if st.pne:
        st.pne = frozenset(p for p in st.pne if all(b[0] != "s" or live(b[1]) for b in p))
    # numeric facts about symbols that cannot be named any more
    c = st.cons
    for b in list(st.mem):
        w(st.mem[b]); w(b)
    w(list(st.nn)); w(st.alias)
    memo.clear()
    dead_eq = [s for s in c.eqs if not live(s)]
    dead = set()
    for e in c.le:
        for s, _ in e[1]:
            if s not in dead and not live(s): dead.add(s)
    keepdead = set()
    if dead:
        for s, e in c.eqs.items():
            for x, _ in e[1]:
                if x in dead and s not in dead_eq: keepdead.add(x)
        dead -= keepdead
    if dead or dead_eq:
        n = c.copy()
        if dead_eq:
            n.eqs = {s: e for s, e in c.eqs.items() if s not in set(dead_eq)}
        if dead: n.le = frozenset(elim(c.le, dead))
        n.ne = frozenset(d for d in c.ne if not any(s in dead for s, _ in d[1]))
        n._cache = {}
        n._idx = None
        st.cons = n
    return st


def elim(cs, dead):
    """eliminate the dead symbols; drops a constraint rather than blow up (weaker, sound)"""
    cs = set(cs)
    for d in sorted(dead):
        pos, neg = [], []
        for e in cs:
            for s, k in e[1]:
                if s == d:
                    (pos if k > 0 else neg).append((abs(k), e))
                    break
        for _, e in pos: cs.discard(e)
        for _, e in neg: cs.discard(e)
        nm, lo, hi = S.info[d]
        if hi is not None: pos.append((1, (-hi, ((d, 1),))))
        if lo is not None: neg.append((1, (lo, ((d, -1),))))
        if len(pos) * len(neg) > 24: continue
        for kp, ep in pos:
            for kn, en in neg:
                r = lin.norm(add(scale(ep, kn), scale(en, kp)))
                if r[1]: cs.add(r)
    return cs


def rename_syms(st, phis):
    """rename the given symbols and everything derived from them to fresh ones"""
    used = collect_syms(st)
    m = {}
    for s in used:
        if s in phis or (deps_of(s) & phis):
            n, lo, hi = S.info[s]
            k = S.get(("rn", fresh_id()), lo, hi, n + "'")
            m[s] = k
            if s in DEPS and s not in phis:
                DEPS[k] = frozenset((k,))
    if m:
        rename_state(st, m, {})
    return st


def same_state(A, J):
    """is J (a join result over A) no weaker than A?"""
    if set(A.env) != set(J.env): return False
    for k, v in A.env.items():
        if J.env[k] != v: return False
    if A.nn != J.nn:
        for b, v in A.nn.items():
            if J.nn.get(b) != v: return False
    for b, c in A.mem.items():
        jc = J.mem.get(b, {})
        for o, v in c.items():
            if jc.get(o) != v: return False
    for b in set(A.ep) | set(J.ep):
        if A.ep.get(b, 0) != J.ep.get(b, 0): return False
    for b in A.objs:
        if b in J.objs and A.objs[b] != J.objs[b] and b[0] == "h": return False
    for b, f in A.fills.items():
        if f and J.fills.get(b) != f: return False
    if A.alias != J.alias: return False
    for e in A.cons.all_le():
        if not J.cons.entails_le(e): return False
    return True
