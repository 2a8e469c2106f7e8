"""Linear integer expressions and a conjunction-of-linear-inequalities abstract domain.

Expr: (c, ((sym, coef), ...)) sorted by sym.  A constraint e means e <= 0.
Entailment is decided by Fourier-Motzkin elimination on the connected component
of the query (sound: "not entailed" is the answer whenever a limit is reached).
"""
from math import gcd

ZERO = (0, ())


def const(c):
    return (c, ())


def sym(s):
    return (0, ((s, 1),))


def add(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, k in b[1]:
        v = d.get(s, 0) + k
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return (a[0] + b[0], tuple(sorted(d.items())))


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def sub(a, b):
    return add(a, scale(b, -1))


def addc(a, c):
    return (a[0] + c, a[1])


def is_const(a):
    return not a[1]


def norm(e):
    """tighten e<=0 over the integers"""
    t = e[1]
    if not t:
        return e
    if len(t) == 1:
        g = abs(t[0][1])
    else:
        g = 0
        for _, k in t:
            g = gcd(g, k)
            if g == 1:
                return e
    if g > 1:
        return (-((-e[0]) // g), tuple((s, k // g) for s, k in t))
    return e


class Syms:
    """global symbol table (hash-consed)"""

    def __init__(self):
        self.key2id = {}
        self.info = []      # (name, lo, hi)
        self.keys = []

    def get(self, key, lo=None, hi=None, name=None):
        i = self.key2id.get(key)
        if i is None:
            i = len(self.info)
            self.key2id[key] = i
            self.info.append((name or str(key), lo, hi))
            self.keys.append(key)
            if _fm is not None and (lo is not None or hi is not None): _fm.setrange(i, lo, hi)
        return i

    def name(self, i):
        return self.info[i][0]


S = Syms()


def show(e):
    out = []
    for s, k in e[1]:
        n = S.name(s)
        out.append(("+" if k > 0 else "-") + ("" if abs(k) == 1 else "%d*" % abs(k)) + n)
    if e[0] or not out:
        out.append("%+d" % e[0])
    r = " ".join(out)
    return r[1:] if r.startswith("+") else r


FM_LIMIT = 500
_native = None
_fm = None


def load_native():
    """compile and load the C core; the Python version below is the reference fallback"""
    global _native, _fm
    import os, subprocess, sysconfig, tempfile, importlib.util, hashlib
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fm.c")
    with open(src, "rb") as f: hsh = hashlib.sha1(f.read()).hexdigest()[:12]
    d = os.path.join(tempfile.gettempdir(), "lcu-sa-fm-%d-%s" % (os.getuid(), hsh))
    so = os.path.join(d, "sa_fm.so")
    try:
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            t = so + ".%d" % os.getpid()
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-I", sysconfig.get_paths()["include"], src, "-o", t],
                           check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(t, so)
        sp = importlib.util.spec_from_file_location("sa_fm", so)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        _native = m.infeasible
        _fm = m
    except Exception:
        _native = None


load_native()


def _prune(cs):
    """keep the tightest constant per coefficient vector"""
    best = {}
    for c, t in cs:
        o = best.get(t)
        if o is None or c > o:
            best[t] = c
    return [(c, t) for t, c in best.items()]


def fm_infeasible(cs, keep=()):
    """True when the conjunction of e<=0 is infeasible (rational/integer-tightened)."""
    if _native is not None:
        return _native(cs)
    cs = [norm(c) for c in cs]
    for c in cs:
        if not c[1] and c[0] > 0:
            return True
    cs = _prune([c for c in cs if c[1]])
    while cs:
        cnt = {}
        for c, t in cs:
            for s, k in t:
                p = cnt.setdefault(s, [0, 0])
                p[0 if k > 0 else 1] += 1
        # pick cheapest
        bs, bc = None, None
        for s, (p, n) in cnt.items():
            cost = p * n - p - n
            if bc is None or cost < bc:
                bs, bc = s, cost
                if p == 0 or n == 0:
                    break
        pos, neg, rest = [], [], []
        for e in cs:
            k = 0
            for s, kk in e[1]:
                if s == bs:
                    k = kk
                    break
            if k > 0: pos.append((k, e))
            elif k < 0: neg.append((-k, e))
            else: rest.append(e)
        new = []
        for kp, ep in pos:
            for kn, en in neg:
                g = gcd(kp, kn)
                r = norm(add(scale(ep, kn // g), scale(en, kp // g)))
                if not r[1]:
                    if r[0] > 0:
                        return True
                else:
                    new.append(r)
        cs = _prune(rest + new)
        if len(cs) > FM_LIMIT:
            return False
    return False


class Cons:
    """immutable-by-convention; copy() then mutate"""
    __slots__ = ("eqs", "le", "ne", "bot", "_cache", "_idx")

    def __init__(self):
        self.eqs = {}
        self.le = frozenset()
        self.ne = frozenset()
        self.bot = False
        self._cache = {}
        self._idx = None

    def copy(self):
        c = Cons()
        c.eqs = self.eqs
        c.le = self.le
        c.ne = self.ne
        c.bot = self.bot
        c._cache = self._cache
        c._idx = self._idx
        return c

    def red(self, e):
        eqs = self.eqs
        if not eqs:
            return e
        hit = False
        for s, _ in e[1]:
            if s in eqs:
                hit = True
                break
        if not hit:
            return e
        d = {}
        c = e[0]
        for s, k in e[1]:
            r = eqs.get(s)
            if r is None:
                d[s] = d.get(s, 0) + k
            else:
                c += r[0] * k
                for s2, k2 in r[1]:
                    d[s2] = d.get(s2, 0) + k2 * k
        return (c, tuple(sorted((s, k) for s, k in d.items() if k)))

    # -- queries
    def _index(self):
        if self._idx is None:
            ix = {}
            for e in self.le:
                for s, _ in e[1]:
                    ix.setdefault(s, []).append(e)
            self._idx = ix
        return self._idx

    def component(self, e):
        if _fm is not None:
            if self._idx is None: self._idx = _fm.pack(tuple(self.le))
            seen = _fm.compsyms(self._idx, e)
            out = [c for c in self.le if c[1][0][0] in seen]
            for s in seen:
                _, lo, hi = S.info[s]
                if lo is not None: out.append((lo, ((s, -1),)))
                if hi is not None: out.append((-hi, ((s, 1),)))
            return out
        ix = self._index()
        seen, todo, cs = set(), [s for s, _ in e[1]], set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for c in ix.get(s, ()):
                if c not in cs:
                    cs.add(c)
                    for s2, _ in c[1]:
                        if s2 not in seen:
                            todo.append(s2)
        out = list(cs)
        for s in seen:
            _, lo, hi = S.info[s]
            if lo is not None: out.append((lo, ((s, -1),)))
            if hi is not None: out.append((-hi, ((s, 1),)))
        return out

    def infeasible_with(self, e):
        """is (self and e<=0) infeasible?"""
        if self.bot:
            return True
        e = norm(self.red(e))
        if not e[1]:
            return e[0] > 0
        r = self._cache.get(e)
        if r is None:
            if _fm is not None:
                if self._idx is None: self._idx = _fm.pack(tuple(self.le))
                r = _fm.query(self._idx, (e,))
                if not r and self.ne:
                    r = self._ne_native(e)
                self._cache[e] = r
                return r
            cs = self.component(e)
            cs.append(e)
            r = fm_infeasible(cs)
            if not r and self.ne:
                r = self._ne_check(e, cs)
            self._cache[e] = r
        return r

    def _ne_native(self, e):
        syms = _fm.compsyms(self._idx, e)
        n = 0
        for d in self.ne:
            for s, _ in d[1]:
                if s not in syms: break
            else:
                n += 1
                if n > 4: break
                if _fm.query(self._idx, (e, addc(d, 1))) and _fm.query(self._idx, (e, addc(scale(d, -1), 1))):
                    return True
        return False

    def _ne_check(self, e, cs):
        # one disequality split:  d != 0 forces d<=-1 or d>=1
        syms = set(s for c in cs for s, _ in c[1])
        n = 0
        for d in self.ne:
            if all(s in syms for s, _ in d[1]):
                n += 1
                if n > 4:
                    break
                if fm_infeasible(cs + [addc(d, 1)]) and fm_infeasible(cs + [addc(scale(d, -1), 1)]):
                    return True
        return False

    def strided(self):
        """the same facts with a*x = b*y (a, b coprime) written as x = b*k, y = a*k, or None when there are none"""
        out = None
        for e in self.le:
            if len(e[1]) != 2: continue
            (x, a), (y, b) = e[1]
            if a < 0 or b > 0 or gcd(a, -b) != 1 or a == 1 or b == -1 or scale(e, -1) not in self.le: continue
            x0 = next(i for i in range(-b) if (a * i + e[0]) % -b == 0)
            y0 = (a * x0 + e[0]) // -b
            if out is None: out = self.copy(); out.eqs = dict(out.eqs)
            if x in out.eqs or y in out.eqs: continue
            k = sym(S.get(("stride", e), None, None, "stride"))
            for s, v in ((x, addc(scale(k, -b), x0)), (y, addc(scale(k, a), y0))):
                _, lo, hi = S.info[s]
                out.eqs = {t: out._sub(f, s, v) for t, f in out.eqs.items()}
                out.eqs[s] = v
                out.le = frozenset(f for f in (norm(out.red(f)) for f in out.le) if f[1])
                out.ne = frozenset(f for f in (out.red(f) for f in out.ne) if f[1])
                out._cache, out._idx = {}, None
                if lo is not None: out.add_le(addc(scale(v, -1), lo))
                if hi is not None: out.add_le(addc(v, -hi))
        return out

    @staticmethod
    def _sub(f, s, e):
        for t, k in f[1]:
            if t == s: return add(sub(f, scale(sym(s), k)), scale(e, k))
        return f

    def entails_le(self, e):
        """self |= e<=0"""
        return self.infeasible_with(addc(scale(e, -1), 1))

    def entails_ge0(self, e):
        return self.infeasible_with(addc(e, 1))

    def entails_eq(self, e):
        e = self.red(e)
        if not e[1]:
            return e[0] == 0
        return self.entails_le(e) and self.entails_ge0(e)

    def entails_ne(self, e):
        e = self.red(e)
        if not e[1]:
            return e[0] != 0
        if e in self.ne or scale(e, -1) in self.ne:
            return True
        return self.infeasible_with(e) or self.infeasible_with(scale(e, -1))

    def constval(self, e):
        e = self.red(e)
        if not e[1]:
            return e[0]
        return None

    def bounds(self, e):
        """best constant bounds found by bisection-free FM projection (None=unbounded)"""
        e = self.red(e)
        if not e[1]:
            return e[0], e[0]
        z = S.get(("tmp-z",), None, None, "z")
        cs = self.component(e)
        cs += [sub(sym(z), e), sub(e, sym(z))]
        cs = project(cs, {z})
        lo = hi = None
        for c, t in cs or ():
            if len(t) == 1 and t[0][0] == z:
                k = t[0][1]
                if k > 0:
                    v = (-c) // k
                    hi = v if hi is None else min(hi, v)
                else:
                    v = -((-c) // (-k))
                    lo = v if lo is None else max(lo, v)
        return lo, hi

    # -- updates (on a private copy)
    def add_le(self, e):
        if self.bot:
            return
        e = norm(self.red(e))
        if not e[1]:
            if e[0] > 0:
                self.bot = True
            return
        if e in self.le:
            return
        if self.infeasible_with(e):
            self.bot = True
            return
        if self.infeasible_with(addc(scale(e, -1), 1)):
            return
        # equality?
        ne = scale(e, -1)
        if ne in self.le or self.entails_le(ne):
            self.add_eq(e)
            return
        self.le = self.le | {e}
        self._cache = {}
        self._idx = None
        for d in self.ne:
            if self._touch(d, e):
                self._tighten(d)

    @staticmethod
    def _touch(d, e):
        ds = [s for s, _ in d[1]]
        es = [s for s, _ in e[1]]
        return any(s in es for s in ds)

    def _tighten(self, d):
        if self.bot:
            return
        # d != 0
        d = self.red(d)
        if not d[1]:
            if d[0] == 0:
                self.bot = True
            return
        if self.entails_ge0(d): c = addc(scale(d, -1), 1)
        elif self.entails_le(d): c = addc(d, 1)
        else: return
        # the strict inequality replaces the disequality
        self.ne = frozenset(x for x in self.ne if x != d and x != scale(d, -1))
        self._cache = {}
        self.add_le(c)

    def add_ne(self, e):
        if self.bot:
            return
        e = self.red(e)
        if not e[1]:
            if e[0] == 0:
                self.bot = True
            return
        if e[1][0][1] < 0:
            e = scale(e, -1)
        self.ne = self.ne | {e}
        self._cache = {}
        self._tighten(e)

    def add_eq(self, e, prefer=None):
        """e == 0; eliminates a symbol with unit coefficient (prefer(sym) -> rank, highest first)"""
        if self.bot:
            return
        e = self.red(e)
        if not e[1]:
            if e[0] != 0:
                self.bot = True
            return
        g = 0
        for _, k in e[1]:
            g = gcd(g, k)
        if g > 1:
            if e[0] % g:
                self.bot = True
                return
            e = (e[0] // g, tuple((s, k // g) for s, k in e[1]))
        cand = [s for s, k in e[1] if k in (1, -1)]
        if not cand:
            a, b = norm(e), norm(scale(e, -1))
            if self.infeasible_with(a) or self.infeasible_with(b):
                self.bot = True
                return
            self.le = self.le | {a, b}
            self._cache = {}
            self._idx = None
            return
        s = max(cand, key=(lambda x: (prefer(x), x)) if prefer else (lambda x: x))
        k = dict(e[1])[s]
        # s = -(e - k s)/k
        r = (e[0], tuple((x, kk) for x, kk in e[1] if x != s))
        r = scale(r, -1) if k == 1 else r
        _, lo, hi = S.info[s]
        if lo is not None and not self._le_ok(addc(scale(r, -1), lo)): return
        if hi is not None and not self._le_ok(addc(r, -hi)): return
        neqs = {}
        one = {s: r}
        for x, v in self.eqs.items():
            neqs[x] = subst(v, one)
        neqs[s] = r
        self.eqs = neqs
        old = self.le
        self.le = frozenset()
        self._cache = {}
        self._idx = None
        nl = set()
        changed = []
        for c in old:
            c1 = subst(c, one)
            c2 = norm(c1)
            if not c2[1]:
                if c2[0] > 0:
                    self.bot = True
                    return
            else:
                nl.add(c2)
                if c1 is not c: changed.append(c2)
        # range of the eliminated symbol
        if lo is not None:
            c2 = norm(addc(scale(r, -1), lo))
            if c2[1]: nl.add(c2)
            elif c2[0] > 0: self.bot = True; return
        if hi is not None:
            c2 = norm(addc(r, -hi))
            if c2[1]: nl.add(c2)
            elif c2[0] > 0: self.bot = True; return
        self.le = frozenset(nl)
        nn = set()
        for d in self.ne:
            d2 = subst(d, one)
            if not d2[1]:
                if d2[0] == 0:
                    self.bot = True
                    return
            else:
                if d2[1][0][1] < 0: d2 = scale(d2, -1)
                nn.add(d2)
        self.ne = frozenset(nn)
        if fm_infeasible(self.component(r)) if r[1] else False:
            self.bot = True
            return
        seen = set(x for x, _ in r[1])
        for c in changed:
            if any(x in seen for x, _ in c[1]): continue      # same component as r
            seen.update(x for x, _ in c[1])
            if self.infeasible_with(c):
                self.bot = True
                return
        for d in list(self.ne):
            self._tighten(d)

    def _le_ok(self, e):
        e = norm(e)
        if not e[1]:
            if e[0] > 0:
                self.bot = True
                return False
        return True

    def all_le(self):
        """every fact as inequalities (eqs as two)"""
        out = set(self.le)
        for s, r in self.eqs.items():
            e = sub(sym(s), r)
            out.add(e)
            out.add(scale(e, -1))
        return out


def subst(e, m):
    hit = False
    for s, _ in e[1]:
        if s in m:
            hit = True
            break
    if not hit:
        return e
    d = {}
    c = e[0]
    for s, k in e[1]:
        r = m.get(s)
        if r is None:
            d[s] = d.get(s, 0) + k
        else:
            c += r[0] * k
            for s2, k2 in r[1]:
                d[s2] = d.get(s2, 0) + k2 * k
    return (c, tuple(sorted((s, k) for s, k in d.items() if k)))


def project(cs, keep, limit=200):
    """eliminate all symbols not in keep; drops constraints when it would blow up (sound: weaker)"""
    cs = _prune([norm(c) for c in cs if c[1]])
    while True:
        cnt = {}
        for c, t in cs:
            for s, k in t:
                if s not in keep:
                    p = cnt.setdefault(s, [0, 0])
                    p[0 if k > 0 else 1] += 1
        if not cnt:
            return cs
        bs = min(cnt, key=lambda s: (cnt[s][0] * cnt[s][1] - cnt[s][0] - cnt[s][1], s))
        pos, neg, rest = [], [], []
        for e in cs:
            k = 0
            for s, kk in e[1]:
                if s == bs:
                    k = kk
                    break
            if k > 0: pos.append((k, e))
            elif k < 0: neg.append((-k, e))
            else: rest.append(e)
        new = []
        if len(pos) * len(neg) + len(rest) <= limit:
            for kp, ep in pos:
                for kn, en in neg:
                    g = gcd(kp, kn)
                    r = norm(add(scale(ep, kn // g), scale(en, kp // g)))
                    if r[1]:
                        new.append(r)
        cs = _prune(rest + new)
