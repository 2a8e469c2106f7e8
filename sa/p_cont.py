"""P13/P14: lists, maps and arrays hold exactly what was put in; iteration visits each element once and stops when told to."""
from . import ir
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, dsym, fsym, expr_syms
from .spec import Specs, Ob, Case, M32, M64, split, need, last_ret, size_of
from .p_queue import mod_of
from .p_ring import bool_ret

LIST, MAP, ARRAY = "src/data/list.c", "src/data/hashmap.c", "src/data/array.c"
NODES = 3       # materialised elements per shape


class Callbacks(Client):
    """calls through function pointers are recorded with their arguments; the answer of a deciding callback is free
    (a test of equality is a function of the two keys)"""
    name = "callbacks"

    def kind(self, st, f):
        for k, v in st.ts.get("fns", ()):
            if st.canon(v)[1] == f[1]: return k
        return None

    def on_icall(self, eng, st, ins, f, args):
        k = self.kind(st, f)
        if k is None: return None
        a = tuple(st.canon(x) if x[0] == "p" else x for x in args)
        r = None
        if k == "hash":
            t = st.ts.get("hashes")
            if t is None: return [(st, I(0))]
            out = []
            for v, differ in t:
                s = [st.copy()]
                for d in differ:        # one key has one hash
                    s = [y for x in s for y in eng.assume(x, ("cmp", "ne", a[0], d, 64), True) if not y.cons.bot]
                for x in s:
                    x.ts["ev"] = x.ts.get("ev", ()) + ((k, a, v),)
                    out.append((x, I(v)))
            return out
        elif k == "eq":
            p = sorted([repr((x[1], x[2])) for x in a[:2]])
            r = ("i", sym(dsym(("keys equal",) + tuple(p), [], 0, 1, "keys equal")))
        elif k in ("iter", "handler"):
            out = []
            for v in (0, 1) if k == "iter" else (0, 1, -1):
                s = st.copy()
                s.ts["ev"] = s.ts.get("ev", ()) + ((k, a, v),)
                out.append((s, I(v)))
            return out
        if k not in ("hash", "eq"): st.ts["ev"] = st.ts.get("ev", ()) + ((k, a, None),)
        return [(st, r if r is not None else I(0))]

    def key(self, ts): return repr(ts["ev"]) if ts.get("ev") else None


def heap(eng, st, name, size):
    b = ("h", ("shape", name), 0)
    st.setobj(b, kind="heap", state="live", fam=None, size=const(size))
    return b


def newsym(st, name, null=False):
    b = ("s", fsym(name))
    if not null: st.nn[b] = True
    return ("p", b, ZERO)


def same(c, st, a, b):
    """True / False / None: are the two pointers equal"""
    y = c.eng.assume(st.copy(), ("cmp", "eq", a, b, 64), True)
    n = c.eng.assume(st.copy(), ("cmp", "eq", a, b, 64), False)
    y = [s for s in y if not s.cons.bot]; n = [s for s in n if not s.cons.bot]
    if y and not n: return True
    if n and not y: return False
    return None


def truth(c):
    """[(state, 0/1)] of a bool result"""
    out = []
    v = c.r
    for t in (True, False):
        for s in c.eng.assume(c.st.copy(), v if v[0] != "i" else ("cmp", "ne", ("i", c.st.red(c.eng.as_int(c.st, v, 1))), I(0), 8), t):
            if not s.cons.bot: out.append((s, 1 if t else 0))
    return out


# ------------------------------------------------------------------ list
class L:
    def __init__(self, eng, st):
        self.eng, self.mod = eng, mod_of(eng, LIST)

    def at(self, st, base, off=ZERO): return Ob(self.eng, st, self.mod, base, "list_t", off)

    def node(self, st, base): return Ob(self.eng, st, self.mod, base, "list_node_t")

    def build(self, st, base, k, cb):
        l = self.at(st, base)
        datas, nodes = [], []
        for i in range(k):
            nb = heap(self.eng, st, "node%d" % i, size_of(self.mod, "list_node_t"))
            nodes.append(nb); datas.append(newsym(st, "element%d" % i))
        for i, nb in enumerate(nodes):
            n = self.node(st, nb)
            n.set(st, "data", datas[i])
            n.set(st, "next", ("p", nodes[i + 1], ZERO) if i + 1 < k else NULL)
        l.set(st, "head", ("p", nodes[0], ZERO) if k else NULL)
        l.set(st, "tail", ("p", nodes[-1], ZERO) if k else NULL)
        l.set(st, "length", I(k))
        l.set(st, "free_cb", cb)
        l.set(st, "allocator", ("p", ("g", "allocator_calloc", ""), ZERO))
        return tuple(nodes), tuple(datas)

    def walk(self, c, st, base):
        """[(node base, data)] of the final list, or None when it is not well formed (reported)"""
        l = self.at(st, base)
        out, p = [], l.p(st, "head")
        while not (st.is_null(p) is True):
            if len(out) > NODES + 2 or p[1][0] != "h" or not is_const(st.red(p[2])) or p[2] != ZERO:
                c.fail("the chain of nodes does not end", "chain"); return None
            if (st.objs.get(p[1]) or {}).get("state") == "freed":
                c.fail("a released node is still linked", "linked"); return None
            n = self.node(st, p[1])
            out.append((p[1], n.p(st, "data")))
            p = n.p(st, "next")
        t = l.p(st, "tail")
        if out:
            if t[1] != out[-1][0]: c.fail("tail is not the last node", "tail"); return None
        elif st.is_null(t) is not True: c.fail("tail of an empty list is not NULL", "tail"); return None
        if not st.cons.entails_eq(addc(l.i(st, "length"), -len(out))):
            c.fail("length is %s but %d elements are linked" % (show(l.i(st, "length")), len(out)), "length"); return None
        return out


def seq_is(c, st, got, want, what):
    """got: [(node, data)], want: [data]"""
    if got is None: return False
    if len(got) != len(want):
        c.fail("%s: %d elements instead of %d" % (what, len(got), len(want)), what + " count"); return False
    for i, ((n, d), w) in enumerate(zip(got, want)):
        if same(c, st, d, w) is not True:
            c.fail("%s: element %d is not the expected one" % (what, i), what + " element"); return False
    return True


def events(st, kind): return [(a, r) for k, a, r in st.ts.get("ev", ()) if k == kind]


def freed(st, b): return (st.objs.get(b) or {}).get("state") == "freed"


def list_states(eng, st, f, args, counts=range(NODES + 1), cbs=(True, False)):
    if st.set_nn(args[0], True) is False: return []
    out = []
    for k in counts:
        for cb in cbs:
            s = st.copy()
            l = L(eng, s)
            base = s.canon(args[0])[1]
            fn = newsym(s, "free_cb") if cb else NULL
            nodes, datas = l.build(s, base, k, fn)
            s.ts["fns"] = (("free", fn),) if cb else ()
            s.ts["list"] = (base, nodes, datas, cb)
            s.ts["spec"] = (("list", k, cb),)
            out.append(s)
    return out


def lists(S_):
    def pre(eng, s, f, args): return list_states(eng, s, f, args)

    def pre_null(eng, s, f, args):
        s.set_nn(args[0], False)
        return [s]

    def unchanged(c, st, what):
        base, nodes, datas, cb = st.ts["list"]
        l = L(c.eng, st)
        got = l.walk(c, st, base)
        if seq_is(c, st, got, datas, what) and [n for n, _ in got] != list(nodes): c.fail("%s: the nodes changed" % what, what + " nodes")
        if events(st, "free"): c.fail("%s: an element is released" % what, what + " released")

    def grown(pos):
        """pos(case) -> index at which the new element belongs"""
        def post(c):
            base, nodes, datas, cb = c.st.ts["list"]
            data = c.args[2] if c.f.name == "list_insert_after" else c.args[1]
            for st, ok in truth(c):
                if not ok:
                    unchanged(c, st, "refused")
                    if st.is_null(data) is False and not st.ts.get("allocfail"): c.fail("refused although memory was available", "refused")
                    continue
                if st.is_null(data) is not False: c.fail("NULL is stored", "null"); continue
                l = L(c.eng, st)
                got = l.walk(c, st, base)
                i = pos(c, st)
                want = list(datas[:i]) + [data] + list(datas[i:])
                if seq_is(c, st, got, want, "stored"):
                    if [n for n, _ in got if n in nodes] != list(nodes): c.fail("the other nodes changed", "nodes")
                if events(st, "free"): c.fail("an element is released", "released")
        return post

    S_.add("list_append", pre, grown(lambda c, st: len(st.ts["list"][2])))
    S_.add("list_prepend", pre, grown(lambda c, st: 0))

    def pre_after(eng, s, f, args):
        out = []
        for x in list_states(eng, s, f, args, range(1, NODES + 1), (True,)):
            nodes = x.ts["list"][1]
            for i, n in enumerate(nodes):
                y = x.copy()
                y.ts["args"] = (args[0], ("p", n, ZERO)) + tuple(args[2:])
                y.ts["at"] = i
                y.ts["spec"] = (("after", len(nodes), i),)
                out.append(y)
        return out
    S_.add("list_insert_after", pre_after, grown(lambda c, st: st.ts["at"] + 1))

    @S_.fn("list_remove", pre)
    def _(c):
        base, nodes, datas, cb = c.st.ts["list"]
        for st, ok in truth(c):
            data = st.canon(c.args[1])
            eq = [same(c, st, d, data) for d in datas]
            if not ok:
                unchanged(c, st, "not removed")
                if st.is_null(data) is not True and any(e is not False for e in eq): c.fail("an element that is in the list is not found", "missed")
                continue
            if True not in eq: c.fail("true is returned although the element is not in the list", "absent"); continue
            i = eq.index(True)
            if any(e is not False for e in eq[:i]): c.fail("not the first of several equal elements is removed", "first"); continue
            l = L(c.eng, st)
            got = l.walk(c, st, base)
            if got is None: continue
            if [n for n, _ in got] != list(nodes[:i]) + list(nodes[i + 1:]): c.fail("the remaining chain of nodes is wrong", "nodes"); continue
            seq_is(c, st, got, list(datas[:i]) + list(datas[i + 1:]), "remaining")
            ev = events(st, "free")
            if cb and (len(ev) != 1 or same(c, st, ev[0][0][0], datas[i]) is not True): c.fail("the release callback is not called exactly once with the removed element", "callback")
            if not freed(st, nodes[i]): c.fail("the removed node is not released", "node")

    @S_.fn("list_clear", pre)
    def _(c):
        base, nodes, datas, cb = c.st.ts["list"]
        got = L(c.eng, c.st).walk(c, c.st, base)
        seq_is(c, c.st, got, [], "cleared")
        released(c, c.st, cb, datas, nodes)

    @S_.fn("list_free", pre)
    def _(c):
        base, nodes, datas, cb = c.st.ts["list"]
        released(c, c.st, cb, datas, nodes)

    def released(c, st, cb, datas, nodes):
        for n in nodes:
            if not freed(st, n): c.fail("a node is not released", "node")
        if cb:
            ev = [a[0] for a, r in events(st, "free")]
            for d in datas:
                n = [e for e in ev if same(c, st, e, d) is True]
                if len(n) != 1 and len(ev) != len(datas) or not n: c.fail("the release callback is not called exactly once per element", "callback"); break
            if len(ev) != len(datas): c.fail("the release callback is called %d times for %d elements" % (len(ev), len(datas)), "callback")

    @S_.fn("list_contains", pre)
    def _(c):
        base, nodes, datas, cb = c.st.ts["list"]
        for st, ok in truth(c):
            data = st.canon(c.args[1])
            eq = [same(c, st, d, data) for d in datas]
            if ok and True not in eq: c.fail("claims to contain an element that is not there", "absent")
            if not ok and st.is_null(data) is not True and any(e is not False for e in eq): c.fail("an element that is in the list is not found", "missed")
            unchanged(c, st, "asked")

    @S_.fn("list_length", pre)
    def _(c):
        base, nodes, datas, cb = c.st.ts["list"]
        c.eq(c.eng.as_int(c.st, c.r, 64), const(len(datas)), "wrong length", "length")

    @S_.fn("list_is_empty", pre)
    def _(c):
        base, nodes, datas, cb = c.st.ts["list"]
        for st, ok in truth(c): c.holds(bool(ok) == (not datas), "wrong answer", "empty")

    @S_.fn("list_new", lambda eng, s, f, args: [s])
    def _(c):
        if c.st.is_null(c.r) is True:
            c.holds(c.st.ts.get("allocfail"), "creation fails although memory was available", "refused")
            return
        l = L(c.eng, c.st)
        base = c.st.canon(c.r)[1]
        got = l.walk(c, c.st, base)
        if got is None: return
        c.holds(not got, "a new list is not empty", "empty")
        c.holds(same(c, c.st, l.at(c.st, base).p(c.st, "free_cb"), c.args[0]) is True, "the release callback is not remembered", "callback")

    def pick(name, want):
        @S_.fn(name, pre)
        def _(c):
            base, nodes, datas, cb = c.st.ts["list"]
            w = want(nodes, datas)
            if w is None: c.holds(c.st.is_null(c.r) is True, "NULL is expected for an empty list", "null")
            else: c.holds(same(c, c.st, c.r, w if isinstance(w[0], str) and w[0] == "p" else ("p", w, ZERO)) is True, "the wrong element is returned", "which")
    pick("list_front", lambda n, d: d[0] if d else None)
    pick("list_back", lambda n, d: d[-1] if d else None)
    pick("list_back_node", lambda n, d: ("p", n[-1], ZERO) if n else None)
    pick("list_begin", lambda n, d: ("p", n[0], ZERO) if n else None)

    def pre_iter(eng, s, f, args):
        out = []
        for x in list_states(eng, s, f, args, cbs=(True,)):
            x.set_nn(args[1], True)
            x.ts["fns"] = x.ts["fns"] + (("iter", x.canon(args[1])),)
            out.append(x)
        return out

    @S_.fn("list_foreach", pre_iter)
    def _(c):
        st = c.st
        base, nodes, datas, cb = st.ts["list"]
        ev = events(st, "iter")
        for i, (a, r) in enumerate(ev):
            if i >= len(datas) or same(c, st, a[0], datas[i]) is not True: c.fail("element %d is not visited in order" % i, "order"); return
            if same(c, st, a[1], c.args[2]) is not True: c.fail("the context is not passed on", "context"); return
            if r == 0 and i + 1 != len(ev): c.fail("the iteration goes on after the callback asked to stop", "stop"); return
        stopped = bool(ev) and ev[-1][1] == 0
        if not stopped and len(ev) != len(datas): c.fail("only %d of %d elements are visited" % (len(ev), len(datas)), "all")
        if stopped:
            c.holds(same(c, st, c.r, ("p", nodes[len(ev) - 1], ZERO)) is True, "the node at which the iteration stopped is not returned", "result")
        else: c.holds(st.is_null(c.r) is True, "NULL is expected after a complete iteration", "result")
        unchanged(c, st, "iterated")


# ------------------------------------------------------------------ hashmap
MFNS = (("fn_hash", "hash"), ("fn_key_free", "key_free"), ("fn_value_free", "value_free"), ("fn_key_equality", "eq"))
LOCK_AT = {"arg": 0, "acquire": 8, "release": 16}


class M:
    def __init__(self, eng):
        self.eng, self.mod = eng, mod_of(eng, MAP)

    def at(self, st, base): return Ob(self.eng, st, self.mod, base, "Hashmap")

    def entry(self, st, base): return Ob(self.eng, st, self.mod, base, "Entry")

    def build(self, st, base, n, chains, cbs, lock):
        """chains[b] = list of (callback hash, stored hash) of the entries in bucket b"""
        m = self.at(st, base)
        bb = heap(self.eng, st, "buckets", 8 * n)
        ents, fns = [], []
        for b in range(n):
            prev = None
            for j, (c, h) in enumerate(chains[b]):
                nm = "%d.%d" % (b, j)
                eb = heap(self.eng, st, "entry" + nm, size_of(self.mod, "Entry"))
                e = self.entry(st, eb)
                k, v = newsym(st, "key" + nm), newsym(st, "value" + nm)
                e.set(st, "key", k); e.set(st, "value", v); e.set(st, "hash", I(h)); e.set(st, "next", NULL)
                if prev is None: self.eng.store_mem(st, None, bb, const(8 * b), ("p", eb, ZERO), 8)
                else: prev.set(st, "next", ("p", eb, ZERO))
                prev = e
                ents.append((eb, k, v, c, h, b))
            if prev is None: self.eng.store_mem(st, None, bb, const(8 * b), NULL, 8)
        m.set(st, "buckets", ("p", bb, ZERO))
        m.set(st, "bucketCount", I(n))
        m.set(st, "size", I(len(ents)))
        for fld, kind in MFNS:
            v = newsym(st, fld) if kind in ("hash", "eq") or cbs else NULL
            m.set(st, fld, v)
            if v is not NULL: fns.append((kind, v))
        o, sz = m.where("lock")
        for nm, d in LOCK_AT.items():
            v = newsym(st, "lock." + nm) if lock else NULL
            self.eng.store_mem(st, None, base, addc(o, d), v, 8)
            if lock and nm != "arg": fns.append((nm, v))
        st.ts["fns"] = tuple(fns)
        # the keys of a map differ
        for i, a in enumerate(ents):
            for b in ents[:i]:
                if a[3] == b[3]:
                    ns = [s for s in self.eng.assume(st, ("cmp", "ne", a[1], b[1], 64), True) if not s.cons.bot]
                    if ns: st = ns[0]
        st.ts["map"] = (base, bb, n, tuple(ents))
        st.ts["cbs"] = cbs
        st.ts["locked"] = lock
        return st

    def content(self, c, st, base):
        """[(entry base, key, value, stored hash, bucket)], or None when it is not well formed (reported)"""
        m = self.at(st, base)
        n = m.i(st, "bucketCount")
        if not is_const(n) or n[0] < 1 or n[0] & (n[0] - 1): c.fail("the number of buckets is not a power of two (%s)" % show(n), "buckets"); return None
        bp = m.p(st, "buckets")
        if bp[1] == NULLB or freed(st, bp[1]) or bp[2] != ZERO: c.fail("the bucket array is gone", "buckets"); return None
        out = []
        for b in range(n[0]):
            p = st.canon(self.eng.load_mem(st, None, bp[1], const(8 * b), 8, ir.PTR))
            k = 0
            while st.is_null(p) is not True:
                k += 1
                if k > 12 or p[1][0] != "h" or p[2] != ZERO: c.fail("the chain of bucket %d does not end" % b, "chain"); return None
                if freed(st, p[1]): c.fail("a released entry is still linked", "linked"); return None
                e = self.entry(st, p[1])
                h = e.i(st, "hash")
                out.append((p[1], e.p(st, "key"), e.p(st, "value"), h, b))
                if is_const(h) and (h[0] & (n[0] - 1)) != b: c.fail("an entry is in a bucket where its hash is not looked up", "bucket"); return None
                p = e.p(st, "next")
        sz = m.i(st, "size")
        if not st.cons.entails_eq(addc(sz, -len(out))):
            c.fail("size is %s but %d entries are linked" % (show(sz), len(out)), "size"); return None
        return out


_mix = {}


def mixed(eng, c):
    """stored hash of a key for which the hash callback returns c: constant propagation through hashmap_put itself"""
    if c in _mix: return _mix[c]
    from .engine import State
    f = [f for f in eng.prog.all_funcs() if f.name == "hashmap_put" and f.blocks][0]
    st = State()
    mm = M(eng)
    base = heap(eng, st, "map", size_of(mm.mod, "Hashmap"))
    st = mm.build(st, base, 4, [[], [], [], []], False, False)
    st.ts["hashes"] = ((c, ()),)
    got = set()
    for s, r in eng.exec_fn(st, f, [("p", base, ZERO), newsym(st, "k"), newsym(st, "v")]):
        bp = mm.at(s, base).p(s, "buckets")
        for b in range(4):
            p = s.canon(eng.load_mem(s, None, bp[1], const(8 * b), 8, ir.PTR))
            if s.is_null(p) is False and p[1][0] == "h": got.add(mm.entry(s, p[1]).i(s, "hash"))
    if len(got) != 1 or not is_const(list(got)[0]): raise ir.AnalysisBroken("the hash stored by hashmap_put is not determined by the key's hash")
    _mix[c] = list(got)[0][0]
    return _mix[c]


SHAPES = [(1, (0,)), (1, (3,)), (2, (0, 0)), (2, (1, 0)), (2, (2, 1)), (4, (1, 0, 2, 0)), (4, (2, 1, 1, 1))]


def map_states(eng, st, f, args, shapes=SHAPES, cbs=(True, False), key=1, locks=(False,)):
    if st.set_nn(args[0], True) is False: return []
    mm = M(eng)
    tab = {}
    for c in range(64):
        if len(tab.setdefault(mixed(eng, c) & 3, [])) < 3: tab[mixed(eng, c) & 3].append((c, mixed(eng, c)))
    out = []
    for n, shape in shapes:
        chains = []
        for b in range(n):
            pool = [x for k in sorted(tab) if k & (n - 1) == b for x in tab[k]]
            # two entries of the same hash, then one with another hash
            pick = [pool[0], pool[1], pool[0]]
            chains.append(pick[:shape[b]] if shape[b] != 3 else pick)
        for cb in cbs:
            for lk in locks:
                s = st.copy()
                base = s.canon(args[0])[1]
                s = mm.build(s, base, n, chains, cb, lk)
                if s.cons.bot: continue
                ents = s.ts["map"][3]
                if key is not None:
                    used = sorted({e[3] for e in ents})
                    free = [[x[0] for x in tab[b] if x[0] not in used][0] for b in sorted(tab)][:n]
                    s.ts["hashes"] = tuple((c, tuple(e[1] for e in ents if e[3] != c)) for c in used + free)
                s.ts["spec"] = (("map", n, shape, cb, lk),)
                out.append(s)
    return out


def maps(S_):
    def pre(eng, s, f, args): return map_states(eng, s, f, args)

    def match(c, st):
        """(index of the entry the key denotes, hash) ; None when there is none ; "?" when the map did not find out"""
        ents = st.ts["map"][3]
        key = st.canon(c.args[1])
        hs = events(st, "hash")
        if len(hs) < 1: c.fail("the hash of the key is not asked for", "hash"); return "?", None
        h = hs[0][1]
        if any(x[1] != h for x in hs): return "?", None
        for a, r in hs:
            if same(c, st, a[0], key) is not True: c.fail("the hash of something other than the key is asked for", "hash"); return "?", None
        open_ = False
        for i, e in enumerate(ents):
            if e[3] != h: continue
            if same(c, st, e[1], key) is True: return i, h
            q = sym(dsym(("keys equal",) + tuple(sorted([repr((x[1], x[2])) for x in (st.canon(e[1]), key)])), [], 0, 1, "keys equal"))
            q = st.red(q)
            if is_const(q):
                if q[0] == 1: return i, h
            elif st.cons.entails_eq(addc(q, -1)): return i, h
            elif not st.cons.entails_eq(q): open_ = True
            if same(c, st, e[1], key) is None: open_ = True
        return ("?" if open_ else None), h

    def unchanged(c, st, what, but=None, value=None, gone=None, new=None):
        """the map holds what it held (entry `but` with another value, entry `gone` removed, `new` = (key, value, hash) added)"""
        base, bb, n, ents = st.ts["map"]
        got = M(c.eng).content(c, st, base)
        if got is None: return False
        got = {g[0]: g for g in got}
        for i, e in enumerate(ents):
            if i == gone:
                if e[0] in got: c.fail("%s: the entry is still there" % what, what + " gone"); return False
                continue
            g = got.pop(e[0], None)
            if g is None: c.fail("%s: another entry is lost" % what, what + " lost"); return False
            if same(c, st, g[1], e[1]) is not True: c.fail("%s: a key changed" % what, what + " key"); return False
            if same(c, st, g[2], value if i == but else e[2]) is not True: c.fail("%s: %s" % (what, "the value is not stored" if i == but else "another value changed"), what + " value"); return False
            if not is_const(g[3]) or (g[3][0] - e[4]) % M32: c.fail("%s: a stored hash changed" % what, what + " hash"); return False
        if new is not None:
            if len(got) != 1: c.fail("%s: the entry is not added exactly once" % what, what + " added"); return False
            g = list(got.values())[0]
            if same(c, st, g[1], new[0]) is not True or same(c, st, g[2], new[1]) is not True: c.fail("%s: the new entry has another key or value" % what, what + " new"); return False
            if not is_const(g[3]) or (g[3][0] - new[2]) % M32: c.fail("%s: the new entry has the wrong hash" % what, what + " new hash"); return False
        elif got: c.fail("%s: an entry appeared" % what, what + " extra"); return False
        return True

    def callbacks(c, st, keys=(), values=()):
        """the release callbacks were called exactly for these (unless NULL)"""
        if not st.ts["cbs"]: return
        for kind, want in (("key_free", keys), ("value_free", values)):
            ev = [a[0] for a, r in events(st, kind)]
            want = [w for w in want if st.is_null(w) is not True]
            for w in want:
                if not any(same(c, st, e, w) is True for e in ev) and st.is_null(w) is False: c.fail("%s is not called for what is dropped" % kind, kind)
            for e in ev:
                if not any(same(c, st, e, w) is True for w in want): c.fail("%s is called for something that stays" % kind, kind)
            if len(ev) > len(want): c.fail("%s is called too often" % kind, kind)

    @S_.fn("hashmap_put", pre)
    def _(c):
        st = c.st
        ents = st.ts["map"][3]
        i, h = match(c, st)
        if i is None:
            c.holds(st.is_null(c.r) is True, "NULL is expected when nothing is replaced", "result")
            m = M(c.eng).at(st, st.ts["map"][0])
            grown = st.cons.entails_eq(addc(m.i(st, "size"), -(len(ents) + 1)))
            eno = c.eng.load_mem(st, None, ("g", "%errno", ""), ZERO, 4, ir.int_t(32), False)
            nomem = st.cons.entails_eq(addc(c.eng.as_int(st, eno, 32), -12))
            if grown:
                if unchanged(c, st, "added", new=(c.args[1], c.args[2], mixed(c.eng, h))) and nomem: c.fail("ENOMEM is reported although the entry was added", "errno")
            else:
                if not st.ts.get("allocfail"): c.fail("the entry is not added although memory was available", "refused")
                if not nomem: c.fail("the entry is not added and errno is not ENOMEM", "errno")
                unchanged(c, st, "refused")
            callbacks(c, st)
        elif i == "?": c.fail("an entry of the same hash is not compared with the key", "compare")
        else:
            c.holds(same(c, st, c.r, ents[i][2]) is True, "the replaced value is not returned", "result")
            unchanged(c, st, "replaced", but=i, value=st.canon(c.args[2]))
            callbacks(c, st, values=[ents[i][2]])

    @S_.fn("hashmap_get", pre)
    def _(c):
        st = c.st
        ents = st.ts["map"][3]
        i, h = match(c, st)
        if i == "?": c.fail("an entry of the same hash is not compared with the key", "compare"); return
        c.holds(st.is_null(c.r) is True if i is None else same(c, st, c.r, ents[i][2]) is True, "the value of the key is not returned" if i is not None else "NULL is expected for a key that is not there", "result")
        unchanged(c, st, "asked")
        callbacks(c, st)

    @S_.fn("hashmap_remove", pre)
    def _(c):
        st = c.st
        ents = st.ts["map"][3]
        i, h = match(c, st)
        if i == "?": c.fail("an entry of the same hash is not compared with the key", "compare"); return
        if i is None:
            c.holds(st.is_null(c.r) is True, "NULL is expected for a key that is not there", "result")
            unchanged(c, st, "not removed"); callbacks(c, st)
            return
        c.holds(same(c, st, c.r, ents[i][2]) is True, "the removed value is not returned", "result")
        unchanged(c, st, "removed", gone=i)
        callbacks(c, st, [ents[i][1]], [ents[i][2]])
        if not freed(st, ents[i][0]): c.fail("the removed entry is not released", "released")

    def pre_all(eng, s, f, args): return map_states(eng, s, f, args, key=None)

    def emptied(c):
        st = c.st
        ents = st.ts["map"][3]
        for e in ents:
            if not freed(st, e[0]): c.fail("an entry is not released", "released"); return
        callbacks(c, st, [e[1] for e in ents], [e[2] for e in ents])

    @S_.fn("hashmap_clear", pre_all)
    def _(c):
        emptied(c)
        got = M(c.eng).content(c, c.st, c.st.ts["map"][0])
        if got: c.fail("entries are left", "left")

    @S_.fn("hashmap_free", pre_all)
    def _(c): emptied(c)

    @S_.fn("hashmap_size", pre_all)
    def _(c):
        c.eq(c.eng.as_int(c.st, c.r, 64), const(len(c.st.ts["map"][3])), "wrong size", "size")
        unchanged(c, c.st, "asked")

    def pre_iter(eng, s, f, args):
        out = []
        for x in map_states(eng, s, f, args, cbs=(True,), key=None, locks=(False, True)):
            x.set_nn(args[1], True)
            x.ts["fns"] = x.ts["fns"] + (("iter", x.canon(args[1])),)
            out.append(x)
        return out

    @S_.fn("hashmap_foreach", pre_iter)
    def _(c):
        st = c.st
        ents = list(st.ts["map"][3])
        ev = events(st, "iter")
        for n, (a, r) in enumerate(ev):
            hit = [e for e in ents if same(c, st, a[0], e[1]) is True and same(c, st, a[1], e[2]) is True]
            if not hit: c.fail("something other than an entry not yet visited is visited", "visit"); return
            ents.remove(hit[0])
            if same(c, st, a[2], c.args[2]) is not True: c.fail("the context is not passed on", "context"); return
            if r == 0 and n + 1 != len(ev): c.fail("the iteration goes on after the callback asked to stop", "stop"); return
        if ents and not (ev and ev[-1][1] == 0): c.fail("%d entries are not visited" % len(ents), "all")
        unchanged(c, st, "iterated")

    def pre_create(eng, s, f, args):
        out = []
        for n in (0, 1, 3, 16):
            x = s.copy()
            x.ts["args"] = (I(n),) + tuple(args[1:])
            x.ts["spec"] = (("create", n),)
            out.append(x)
        return out

    @S_.fn("hashmap_create", pre_create)
    def _(c):
        st = c.st
        if st.is_null(c.r) is True:
            c.holds(st.ts.get("allocfail"), "creation fails although memory was available", "refused")
            return
        base = st.canon(c.r)[1]
        m = M(c.eng).at(st, base)
        got = M(c.eng).content(c, st, base)
        if got is None: return
        c.holds(not got, "a new map is not empty", "empty")
        n = m.i(st, "bucketCount")
        o = st.objs.get(m.p(st, "buckets")[1]) or {}
        c.holds(o.get("size") is not None and st.cons.entails_ge0(sub(o["size"], scale(n, 8))), "fewer buckets are allocated than counted", "buckets")
        for k, (fld, kind) in zip((1, 2, 3, 4), (("fn_hash", 0), ("fn_key_free", 0), ("fn_value_free", 0), ("fn_key_equality", 0))):
            c.holds(same(c, st, m.p(st, fld), c.args[k]) is True, "%s is not remembered" % fld, fld)


# ------------------------------------------------------------------ array
def array_states(eng, st, f, args, sizes=(1, 4, 24), full=(True, False)):
    """element size E, any capacity C >= 4, any length L <= C; storage inside the object or moved out of it"""
    if st.set_nn(args[0], True) is False: return []
    mod = mod_of(eng, ARRAY)
    hdr = size_of(mod, "array_t")
    out = []
    for E in sizes:
        for inside in (True, False):
            for fl in full:
                s = st.copy()
                base = s.canon(args[0])[1]
                a = Ob(eng, s, mod, base, "array_t")
                C = sym(eng.intsym(s, "capacity", 64, key=("argi", "array", "capacity")))
                L = C if fl else sym(eng.intsym(s, "length", 64, key=("argi", "array", "length")))
                if not need(s, addc(scale(C, -1), 4), addc(C, -(1 << 40))): continue
                if not fl and not (s.assume_le(addc(sub(L, C), 1)) and s.assume_ge0(L)): continue
                a.set(s, "element_size", I(E)); a.set(s, "capacity", ("i", C)); a.set(s, "length", ("i", L))
                if inside:
                    s.setobj(base, size=addc(scale(C, E), hdr))
                    a.set(s, "data", ("p", base, const(hdr)))
                    buf = (base, const(hdr))
                else:
                    db = heap(eng, s, "data", 0)
                    s.setobj(db, size=scale(C, E))
                    a.set(s, "data", ("p", db, ZERO))
                    buf = (db, ZERO)
                s.ts["arr"] = (base, E, C, L, inside, buf)
                s.ts["spec"] = (("array", E, inside, fl),)
                out.append(s)
    return out


def arrays(S_):
    def ob(c, st): return Ob(c.eng, st, mod_of(c.eng, ARRAY), st.ts["arr"][0], "array_t")

    def pre(eng, s, f, args): return array_states(eng, s, f, args)

    def pre_ptr(eng, s, f, args):
        s.set_nn(args[1], True)
        return array_states(eng, s, f, args)

    def pre_val(eng, s, f, args): return array_states(eng, s, f, args, sizes=(1, 4))

    def same_array(c, st, what):
        base, E, C, L, inside, buf = st.ts["arr"]
        a = ob(c, st)
        ok = c.eq(a.i(st, "element_size"), const(E), what + ": element size changed", what + " element_size", st=st)
        ok &= c.eq(a.i(st, "length"), L, what + ": length changed", what + " length", st=st)
        p = a.p(st, "data")
        if p[1] != buf[0] or st.red(sub(p[2], buf[1])) != ZERO: c.fail(what + ": storage changed", what + " data")
        if any(x[0] == buf[0] for x in st.ts.get("copies", ())): c.fail(what + ": elements are overwritten", what + " copy")

    def append(c):
        for st, ok in truth(c):
            base, E, C, L, inside, buf = st.ts["arr"]
            if not ok:
                same_array(c, st, "refused")
                if not st.ts.get("allocfail"): c.fail("refused although memory was available", "refused")
                continue
            a = ob(c, st)
            c.eq(a.i(st, "element_size"), const(E), "element size changed", "element_size", st=st)
            c.eq(a.i(st, "length"), addc(L, 1), "length after an append", "length", st=st)
            cap = a.i(st, "capacity")
            if not st.cons.entails_ge0(sub(cap, addc(L, 1))): c.fail("capacity is less than the number of elements", "capacity")
            p = a.p(st, "data")
            o = st.objs.get(p[1]) or {}
            if freed(st, p[1]): c.fail("the elements are in a released block", "data"); continue
            if not (p[1] == base or o.get("size") is not None and st.cons.entails_ge0(st.red(sub(sub(o["size"], p[2]), scale(cap, E))))):
                c.fail("the storage is smaller than capacity * element size", "storage")
            cps = [x for x in st.ts.get("copies", ()) if x[0] == p[1]]
            if p[1] == buf[0]:
                if not st.cons.entails_eq(st.red(sub(p[2], buf[1]))): c.fail("storage moved", "data")
                if not st.cons.entails_ge0(sub(C, cap)): c.fail("capacity grows without storage", "capacity")
            elif inside:
                # moved out of the object: the old elements must have been copied
                if not cps: c.fail("the elements are lost when the array grows", "moved"); continue
                d, do, sb, so, n = cps[0]
                if not (sb == buf[0] and st.cons.entails_eq(st.red(sub(so, buf[1]))) and st.cons.entails_eq(st.red(sub(do, p[2]))) and st.cons.entails_ge0(st.red(sub(n, scale(L, E))))):
                    c.fail("not all old elements are copied when the array grows", "moved")
                cps = cps[1:]
            else:
                if not freed(st, buf[0]): c.fail("the old storage is neither kept nor released", "moved")
                rl = [x for x in st.ts.get("realloc", ()) if x[1] == p[1]]
                mv = rl[0][0] == buf[0] if rl else False
                if not mv:
                    if not cps: c.fail("the elements are lost when the array grows", "moved"); continue
                    d, do, sb, so, n = cps[0]
                    if not (sb == buf[0] and st.cons.entails_eq(st.red(sub(so, buf[1]))) and st.cons.entails_eq(st.red(sub(do, p[2]))) and st.cons.entails_ge0(st.red(sub(n, scale(L, E))))):
                        c.fail("not all old elements are copied when the array grows", "moved")
                    cps = cps[1:]
            # the new element
            at = addc(p[2], 0)
            want = add(p[2], scale(L, E))
            if len(cps) != 1: c.fail("the new element is copied %d times" % len(cps), "stored"); continue
            d, do, sb, so, n = cps[0]
            if not (st.cons.entails_eq(st.red(sub(do, want))) and st.cons.entails_eq(st.red(addc(n, -E)))): c.fail("the new element is not stored behind the others", "stored")
            if c.f.name == "array_append_ptr":
                q = st.canon(c.args[1])
                if sb != q[1] or not st.cons.entails_eq(st.red(sub(so, q[2]))): c.fail("what is stored is not the caller's element", "source")
            elif sb in (base, buf[0], p[1]): c.fail("what is stored is not the caller's element", "source")

    S_.add("array_append_ptr", pre_ptr, append)
    S_.add("array_append_value", pre_val, append)

    def pre_at(eng, s, f, args):
        out = []
        for x in array_states(eng, s, f, args, full=(False,)):
            L = x.ts["arr"][3]
            if f.name == "array_at":
                for y, i in eng.ucanon(x.copy(), eng.as_int(x, args[1], 64), 64):
                    if y.assume_le(addc(sub(i, L), 1)):
                        y.ts["index"] = i
                        out.append(y)
            elif x.assume_le(addc(scale(L, -1), 1)):
                x.ts["index"] = ZERO
                out.append(x)
        return out

    def at(c):
        st = c.st
        base, E, C, L, inside, buf = st.ts["arr"]
        r = st.canon(c.r)
        want = add(buf[1], scale(st.ts["index"], E))
        c.holds(r[1] == buf[0] and st.cons.entails_eq(st.red(sub(r[2], want))), "not the address of the element", "address")
        same_array(c, st, "asked")
    S_.add(["array_at", "array_ptr"], pre_at, at)

    @S_.fn("array_length", pre)
    def _(c):
        c.eq(c.eng.as_int(c.st, c.r, 64), c.st.ts["arr"][3], "wrong length", "length")
        same_array(c, c.st, "asked")

    def pre_new(eng, s, f, args):
        out = []
        for E in (1, 4, 24):
            for n in ((None,) if len(args) == 1 else (0, 3, 4, 100)):
                x = s.copy()
                x.ts["args"] = (I(E),) if n is None else (I(E), I(n))
                x.ts["spec"] = (("new", E, n),)
                out.append(x)
        return out

    @S_.fn("array_new_with_init_capacity", pre_new)
    def new(c):
        st = c.st
        E, n = c.args[0][1][0], (c.args[1][1][0] if len(c.args) > 1 else 1)
        if st.is_null(c.r) is True:
            c.holds(st.ts.get("allocfail"), "creation fails although memory was available", "refused")
            return
        base = st.canon(c.r)[1]
        st.ts["arr"] = (base, E, ZERO, ZERO, True, None)
        a = ob(c, st)
        c.eq(a.i(st, "element_size"), const(E), "element size", "element_size")
        c.eq(a.i(st, "length"), ZERO, "length of a new array", "length")
        cap = a.i(st, "capacity")
        p = a.p(st, "data")
        o = st.objs.get(p[1]) or {}
        if not st.cons.entails_ge0(addc(cap, -max(n, 2))): c.fail("less capacity than asked for (or too little to ever grow)", "capacity")
        if p[1] == NULLB or freed(st, p[1]) or o.get("size") is None or not st.cons.entails_ge0(sub(sub(o["size"], p[2]), scale(cap, E))): c.fail("the storage is smaller than capacity * element size", "storage")
    S_.add("array_new", pre_new, new)


class ReallocLog(Client):
    """remembers which block became which"""
    name = "reallocs"

    def on_realloc(self, eng, st, ins, ob, nb):
        st.ts["realloc"] = st.ts.get("realloc", ()) + ((ob, nb),)

    def key(self, ts): return repr(ts["realloc"]) if ts.get("realloc") else None


def p13():
    S_ = Specs("container")
    lists(S_)
    maps(S_)
    arrays(S_)
    S_.t = {k: v for k, v in S_.t.items() if "foreach" not in k}
    return S_


def p14():
    S_ = Specs("iteration")
    lists(S_)
    maps(S_)
    S_.t = {k: v for k, v in S_.t.items() if "foreach" in k}
    return S_


CLIENTS = [Callbacks, ReallocLog]
OPTS = {"merge_cap": 600, "ret_cap": 600, "unroll": 12, "enumerate": 200, "errno": True}
