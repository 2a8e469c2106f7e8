"""P26: parameter strings are a map from keys to texts."""
from . import ir, models
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, dsym, fsym
from .spec import Specs, Ob, Case, size_of, need
from .p_queue import mod_of
from .p_cont import heap, freed, truth

PAR = "src/mem/str_params.c"
BIG = 1 << 40
GH = ("g", "%ghost", "")
ENOENT, ENOMEM = 2, 12
INT = ((-(1 << 31)), (1 << 31) - 1)


def gget(eng, st, i): return st.red(eng.as_int(st, eng.load_mem(st, None, GH, const(8 * i), 8, ir.int_t(64), False), 64))
def gset(eng, st, i, e): eng.put_cell(st, GH, const(8 * i), ("i", st.red(e)), 8)


class Lay:
    def __init__(self, eng):
        self.mod = m = mod_of(eng, PAR)
        f = {n: (o, sz) for o, (n, sz, t) in ir.struct_fields(m, "%struct.str_params").items()}
        self.size = size_of(m, "str_params")
        ptr = [n for n, (o, sz) in f.items() if sz == 8]
        if "map" not in f and len(ptr) == 1: f["map"] = f[ptr[0]]
        rest = [n for n in f if n != "map"]
        if "map" not in f or "delimiter" not in f and len(rest) != 1: raise ir.AnalysisBroken("members of the parameter object not found")
        self.map = f["map"][0]
        self.delim = f.get("delimiter") or f[rest[0]]


def text(eng, st, p, lo=0):
    """a text of any length"""
    st.set_nn(p, True)
    e = models.slen_of(eng, st, None, p)
    st.assume_le(addc(e, -BIG))
    if lo: st.assume_ge0(addc(e, -lo))
    return st.red(e)


def texts(eng, st, p):
    """[(state, length)] for the empty and for the non-empty text, first character written down"""
    p = st.canon(p)
    e = text(eng, st, p)
    out = []
    for empty in (True, False):
        x = st.copy()
        if not (x.assume_eq(e) if empty else x.assume_ge0(addc(e, -1))): continue
        eng.put_cell(x, p[1], x.red(p[2]), I(0) if empty else ("i", sym(fsym("first character", 1, 127))), 1)
        out.append((x, x.red(e)))
    return out


def origin(st, b, off, ln, upto=None):
    """where the bytes [off, off+ln) of an object came from"""
    cp = st.ts.get("copies", ())
    i = len(cp) if upto is None else upto
    while i > 0:
        i -= 1
        db, do, sb, so, n = cp[i]
        if db != b: continue
        if st.cons.entails_ge0(sub(off, do)) and st.cons.entails_ge0(sub(add(do, n), add(off, ln))):
            if sb == ("w",): return None
            return origin(st, sb, st.red(add(so, sub(off, do))), ln, i)
        if st.cons.entails_ge0(sub(off, add(do, n))) or st.cons.entails_ge0(sub(do, add(off, ln))) or st.cons.entails_le(n): continue
        return None
    return b, st.red(off)


def comes_from(st, b, off, ln, src, so):
    if st.cons.entails_le(ln): return True
    o, w = origin(st, b, off, ln), origin(st, src, so, ln) or (src, so)
    return o is not None and any(o[0] == x and st.cons.entails_eq(sub(o[1], y)) for x, y in (w, (src, so)))


def forget(st, *bases):
    st.ts["copies"] = tuple(x for x in st.ts.get("copies", ()) if x[0] not in bases)


class Par(Client):
    """the map by its contract (shown by P13), texts by where their characters came from"""
    name = "par"
    rule = "params"

    def failed(self, eng, st, ins, what, key):
        eng.report("spec", st, ins, self.rule, "%s: %s" % (ins.fn.name, what), key=key)

    def key(self, ts): return repr([ts.get(k) for k in ("puts", "tok", "parted", "mine", "num", "wrote", "calls", "fmts")] + [bool(ts.get("pair"))])

    def on_access(self, eng, st, ins, b, off, size, write, val=None):
        sp = st.ts.get("split")
        if sp and b == sp.get("copy") and ins is not None:
            if not write: self.character(eng, st, b, off)
            else:
                o, e, ln = (gget(eng, st, i) for i in range(3))
                zero = val is not None and val[0] == "i" and size == 1 and st.cons.constval(st.red(eng.as_int(st, val, 8))) == 0
                st.ts["parted"] = "parted" if zero and st.ts.get("tok") in ("pair", "empty") and st.cons.entails_eq(sub(off, add(o, e))) else "spoilt"
        self.written(eng, st, ins, b, off, const(size), write)
        if not write and st.ts.get("purely") and ins is not None and b not in st.ts["purely"] and b[0] not in ("a",):
            self.failed(eng, st, ins, "the hash depends on more than the text of the key", "hash")

    def on_range(self, eng, st, ins, b, off, ln, write, what):
        if ln is not None: self.written(eng, st, ins, b, off, ln, write, what)

    def written(self, eng, st, ins, b, off, n, write, what=""):
        if not write or ins is None: return
        if b == st.ts.get("out"):
            room = st.ts.get("room")
            if not st.cons.entails_le(n):
                st.ts["wrote"] = True
                if room is not None and not (st.cons.entails_ge0(off) and st.cons.entails_ge0(sub(room, add(off, n)))): self.failed(eng, st, ins, "a write outside the caller's buffer", "room")
        if what in ("memcpy dst", "strcpy dst", "strcat dst", "strlcpy dst"): return
        for db, do, sb, so, m in st.ts.get("copies", ()):
            if db != b or sb == ("w",): continue
            if st.cons.entails_ge0(sub(off, add(do, m))) or st.cons.entails_ge0(sub(do, add(off, n))): continue
            st.ts["copies"] = st.ts["copies"] + ((b, st.red(off), ("w",), ZERO, st.red(n)),)
            return

    # ---- the current token: offset, place of the equals sign and length are ghost cells 0 to 2
    def character(self, eng, st, b, off):
        k = st.ts.get("tok")
        if k in (None, "none") or st.ts.get("parted") == "spoilt" or st.mem.get(b, {}).get(st.red(off)) is not None: return
        o, e, ln = (gget(eng, st, i) for i in range(3))
        v = None
        if st.cons.entails_eq(sub(off, o)): v = I(61) if k == "nameless" else ("i", sym(fsym("character", 62, 127)))
        elif st.cons.entails_eq(sub(off, add(o, ln))): v = I(0)
        elif k in ("pair", "empty"):
            if st.cons.entails_eq(sub(off, add(o, e))): v = I(61)
            elif st.cons.entails_eq(sub(off, addc(add(o, e), 1))): v = ("i", sym(fsym("character", 1, 127)))
        if v is not None: eng.put_cell(st, b, st.red(off), v, 1)

    def know(self, eng, st, p):
        """the length of a text inside the current token"""
        sp, k = st.ts.get("split"), st.ts.get("tok")
        if not sp or k in (None, "none") or p[0] != "p": return
        p = st.canon(p)
        if p[1] != sp.get("copy") or st.ts.get("parted") == "spoilt": return
        o, e, ln = (gget(eng, st, i) for i in range(3))
        kk = (p[1], st.red(p[2]), st.cep.get(p[1], 0))
        if st.cons.entails_eq(sub(p[2], o)): st.slen[kk] = e if st.ts.get("parted") else ln
        elif k in ("pair", "empty") and st.cons.entails_eq(sub(p[2], addc(add(o, e), 1))): st.slen[kk] = st.red(sub(ln, addc(e, 1)))
        elif st.cons.entails_eq(sub(p[2], add(o, ln))): st.slen[kk] = ZERO

    def wanted(self, eng, st):
        """the pair that is to be put now"""
        sp, k = st.ts.get("split"), st.ts.get("tok")
        if sp is None or not st.ts.get("pair"): return st.ts.get("pair")
        o, e, ln = (gget(eng, st, i) for i in range(3))
        src = sp["copy"]
        if k == "plain": return (src, o, ln, "whole token"), (src, st.red(add(o, ln)), ZERO, "empty")
        v = addc(e, 1)
        return (src, o, e, "part in front of the equals sign"), (src, st.red(add(o, v)), st.red(sub(ln, v)), "a copy of what is behind the first equals sign")

    # ---- the map
    def on_call(self, eng, st, ins, name, args):
        for a in args: self.know(eng, st, a)
        h = getattr(self, "call_" + name.replace("__isoc23_", ""), None)
        return h(eng, st, ins, args) if h else None

    def themap(self, eng, st, ins, p):
        p = st.canon(p)
        m = st.ts.get("map")
        if m is None: return False
        if p[1] != m or st.red(p[2]) != ZERO: self.failed(eng, st, ins, "another map than the one of the object is used", "map"); return None
        if freed(st, m): self.failed(eng, st, ins, "the map is used after its release", "map"); return None
        return True

    def askedkey(self, eng, st, ins, p):
        p = st.canon(p)
        k = st.ts["key"]
        if p[1] == k[0] and st.red(p[2]) == k[1]: return True
        L = st.slen.get((p[1], st.red(p[2]), st.cep.get(p[1], 0)))
        if L is not None and st.cons.entails_eq(sub(L, k[2])) and comes_from(st, p[1], p[2], L, k[0], k[1]): return True
        self.failed(eng, st, ins, "another key than the one asked for is used", "key")
        return False

    def call_hashmap_create(self, eng, st, ins, args):
        if st.ts.get("newmap") is not True: return None
        f = st.copy()
        models.alloc_failed(eng, f)
        b = heap(eng, st, "map", 64)
        st.ts["map"] = b
        out = [(f, NULL)]
        fns = [st.canon(a) for a in args[1:5]]
        if any(x[1][0] != "fn" for x in fns): self.failed(eng, st, ins, "the map is created without hash, release or comparison of keys and values", "callbacks"); return out
        if args[5][0] == "p" and st.is_null(st.canon(args[5])) is not True and st.canon(args[5])[1][0] != "fn": pass
        sts = [st]
        for what, cb in (("key", fns[1]), ("value", fns[2])):
            nx = []
            for s in sts:
                o = heap(eng, s, "some %s" % what, 16)
                s.setobj(o, kind="heap", state="live", fam="libc", size=const(16))
                for x, r in eng.call_in_context(s, self.fun(eng, cb), [("p", o, ZERO)], ins):
                    if not freed(x, o): self.failed(eng, x, ins, "a %s the map lets go of is not released" % what, "free " + what)
                    else: nx.append(x)
            sts = nx
        nx = []
        for s in sts:
            a, b2 = ("s", fsym("one key")), ("s", fsym("other key"))
            s.nn[a] = s.nn[b2] = True
            s.ts["compare"] = (a, b2)
            for x, r in eng.call_in_context(s, self.fun(eng, fns[3]), [("p", a, ZERO), ("p", b2, ZERO)], ins):
                eq = x.ts.pop("equal", None)
                x.ts.pop("compare", None)
                if eq is None: self.failed(eng, x, ins, "keys are not compared by their texts", "compare"); continue
                for y in eng.assume(x.copy(), r, not eq):
                    if not y.cons.bot: self.failed(eng, y, ins, "keys with %s texts are taken for %s" % (("equal", "different") if eq else ("different", "equal")), "compare")
                nx.append(x)
        sts = nx
        nx = []
        for s in sts:
            a = ("s", fsym("a key"))
            s.nn[a] = True
            text(eng, s, ("p", a, ZERO))
            s.ts["purely"] = (a,)
            for x, r in eng.call_in_context(s, self.fun(eng, fns[0]), [("p", a, ZERO)], ins):
                x.ts.pop("purely", None)
                nx.append(x)
        m = st.ts["map"]
        return out + [(s, ("p", m, ZERO)) for s in nx]

    def fun(self, eng, p):
        f = eng.find_fn(p[1]) if hasattr(eng, "find_fn") else None
        if f is None:
            c = [f for f in eng.prog.all_funcs() if f.name == p[1][1] and (not p[1][2] or f.module.path == p[1][2])]
            if not c: raise ir.AnalysisBroken("callback %s not found" % p[1][1])
            f = c[0]
        return f

    def call_strcmp(self, eng, st, ins, args):
        t = st.ts.get("compare")
        if t is None: return None
        a, b = st.canon(args[0]), st.canon(args[1])
        if {a[1], b[1]} != set(t) or st.red(a[2]) != ZERO or st.red(b[2]) != ZERO: return None
        out = []
        for lo, hi in ((-255, -1), (0, 0), (1, 255)):
            s = st.copy()
            s.ts["equal"] = lo == 0
            out.append((s, I(0) if lo == 0 else ("i", sym(fsym("order", lo, hi)))))
        return out

    def call_hashmap_free(self, eng, st, ins, args):
        if self.themap(eng, st, ins, args[0]) is False: return None
        m = st.ts["map"]
        if st.canon(args[0])[1] == m:
            if freed(st, m): self.failed(eng, st, ins, "the map is released twice", "map"); return []
            st.setobj(m, state="freed")
        return [(st, None)]

    def call_hashmap_get(self, eng, st, ins, args):
        v = self.themap(eng, st, ins, args[0])
        if not v: return None if v is False else []
        if not self.askedkey(eng, st, ins, args[1]): return []
        return [(st, st.ts["entry"] or NULL)]

    def call_hashmap_remove(self, eng, st, ins, args):
        v = self.themap(eng, st, ins, args[0])
        if not v: return None if v is False else []
        if not self.askedkey(eng, st, ins, args[1]): return []
        st.ts["calls"] = st.ts.get("calls", ()) + ("remove",)
        return [(st, st.ts["entry"] or NULL)]

    def call_hashmap_clear(self, eng, st, ins, args):
        v = self.themap(eng, st, ins, args[0])
        if not v: return None if v is False else []
        self.failed(eng, st, ins, "entries nobody asked to remove are removed", "clear")
        return []

    def whole(self, st, p):
        """the length of a text in a block of its own"""
        if p[1][0] != "h" or st.red(p[2]) != ZERO or freed(st, p[1]): return None
        return st.slen.get((p[1], ZERO, st.cep.get(p[1], 0)))

    def is_copy(self, eng, st, p, want):
        if p[1][0] != "h" or st.red(p[2]) != ZERO or freed(st, p[1]): return False
        L = self.whole(st, p)
        if L is None or not st.cons.entails_eq(sub(L, want[2])):
            # the bytes of a text contain no terminator
            z = eng.load_mem(st, None, p[1], st.red(want[2]), 1, ir.int_t(8), False)
            if not st.cons.entails_eq(eng.as_int(st, z, 8)): return False
        return comes_from(st, p[1], ZERO, want[2], want[0], want[1])

    def call_hashmap_put(self, eng, st, ins, args):
        v = self.themap(eng, st, ins, args[0])
        if not v: return None if v is False else []
        k, val = st.canon(args[1]), st.canon(args[2])
        t = self.wanted(eng, st)
        if t is None: self.failed(eng, st, ins, "an entry nobody asked for is put", "put"); return []
        kw, vw = t
        if not self.is_copy(eng, st, k, kw):
            self.failed(eng, st, ins, "the key that is put is not a copy of the %s" % kw[3], "key"); return []
        ok = self.is_copy(eng, st, val, vw) if vw[0] != "number" else self.is_number(eng, st, val, vw)
        if not ok: self.failed(eng, st, ins, "the value that is put is not %s" % (vw[3] if vw[0] != "number" else "the complete number"), "value"); return []
        forget(st, k[1], val[1])
        out = []
        kb, vb = k[1], val[1]
        st.ts["pair"] = None
        for how in ("new", "replaced", "nomem"):
            s = st.copy()
            s.ts["puts"] = (st.ts.get("puts", ()) + (how,))[-1:]
            if how == "nomem":
                s.note("the map does not take the pair")
                models.alloc_failed(eng, s)
                s.ts["mine"] = ((kb, True), (vb, True))
                out.append((s, NULL))
            elif how == "new":
                s.ts["mine"] = ((kb, False), (vb, False))
                out.append((s, NULL))
            else:
                s.note("the map replaces a value")
                s.ts["mine"] = ((kb, True), (vb, False))
                o = heap(eng, s, "old value", 16)
                s.setobj(o, state="freed")
                out.append((s, ("p", o, ZERO)))
        return out

    def settled(self, eng, st, ins, fail=None):
        """what the map took is left alone, what it did not take is released"""
        say = fail or (lambda what, key: self.failed(eng, st, ins, what, key))
        for b, mine in st.ts.get("mine") or ():
            if freed(st, b) != mine:
                say("what the map %s" % ("did not take is not released" if mine else "took is released"), "taken")
                return False
        st.ts["mine"] = None
        return True

    # ---- numbers as text
    def is_number(self, eng, st, p, w):
        n = st.ts.get("num")
        L = self.whole(st, p)
        if n is None or L is None or n[2] == "cut": return False
        b, off, fmt, v, ln = n
        if not st.cons.entails_eq(sub(L, ln)) or not (p[1] == b or comes_from(st, p[1], ZERO, L, b, off)): return False
        if w[1] == "int":
            return fmt in ("%ld", "%lld", "%li", "%lli", "%d", "%i") and st.cons.entails_eq(sub(v, w[2]))
        return fmt == "%.10f" and v == w[2]

    def call_snprintf(self, eng, st, ins, args):
        fmt = models.fmt_of(eng, st, args[2])
        if fmt is None: return None
        pieces, i = [], 0
        if st.ts.get("number"):
            if len(args) != 4 or fmt.count("%") != 1: return None
            wide = "l" in fmt
            vals = [(st, args[3])]
            if fmt[-1] in "di": vals = [(s, ("i", e)) for s, e in eng.scanon(st, st.red(eng.as_int(st, args[3], 64 if wide else 32)), 64 if wide else 32)]
            out = []
            for s, v in vals:
                lo, hi = (1, 20 if wide else 11) if fmt[-1] in "di" else (1, 340)
                ln = s.ts.get("numlen")
                if ln is None: ln = s.ts["numlen"] = sym(fsym("digits", lo, hi))
                for x, tag in self.formatted(eng, s, ins, args, ln):
                    if tag: x.ts["num"] = tag[:2] + (("cut",) if tag[2] else (fmt, v[1] if v[0] == "i" else v, ln))
                    out.append((x, I(-1) if tag == () else ("i", ln)))
            return [(x, r) for x, r in out]
        if not st.ts.get("joining"): return None
        rest = list(args[3:])
        lit = ""
        while i < len(fmt):
            if fmt[i] != "%": lit += fmt[i]; i += 1; continue
            if fmt[i + 1:i + 2] == "%": lit += "%"; i += 2; continue
            if fmt[i + 1:i + 2] not in ("s", "c") or not rest: return None
            if lit: pieces.append(("lit", lit)); lit = ""
            pieces.append((fmt[i + 1], rest.pop(0)))
            i += 2
        if lit: pieces.append(("lit", lit))
        total, pl = ZERO, []
        for k, v in pieces:
            n = const(len(v)) if k == "lit" else const(1) if k == "c" else models.slen_of(eng, st, ins, v)
            pl.append((k, v, st.red(n))); total = add(total, n)
        total = st.red(total)
        out = []
        for x, tag in self.formatted(eng, st, ins, args, total):
            if tag and tag[2]: self.failed(eng, x, ins, "the text is cut", "cut"); continue
            if tag:
                pos = tag[1]
                for k, v, n in pl:
                    if k == "s":
                        q = x.canon(v)
                        for c in eng.clients:
                            if hasattr(c, "on_copy"): c.on_copy(eng, x, ins, tag[0], x.red(pos), q[1], x.red(q[2]), n)
                    elif k == "lit":
                        for j, ch in enumerate(v): eng.put_cell(x, tag[0], x.red(addc(pos, j)), I(ord(ch)), 1)
                    else: eng.put_cell(x, tag[0], x.red(pos), ("i", x.red(eng.as_int(x, v, 32))), 1)
                    pos = add(pos, n)
            out.append((x, I(-1) if tag == () else ("i", total)))
        return out

    def formatted(self, eng, st, ins, args, ln):
        """[(state, None: only counted / (): failed / (object, offset, cut))]"""
        d = st.canon(args[0])
        out = []
        f = st.copy()
        st.assume_le(addc(ln, -INT[1]))
        f.note("formatting fails")
        f.ts["fmtfail"] = True
        same = (args[2],) + tuple(st.canon(a) if a[0] == "p" else a for a in args[3:])
        if same not in st.ts.get("fmts", ()): out.append((f, ()))
        st.ts["fmts"] = st.ts.get("fmts", ()) + ((same,) if same not in st.ts.get("fmts", ()) else ())
        for s, n in eng.ucanon(st, st.red(eng.as_int(st, args[1], 64)), 64):
            isnull = s.is_null(d) is True
            if not isnull or not s.cons.entails_eq(n):
                for c in eng.clients: c.on_range(eng, s, ins, d[1], s.red(d[2]), n, True, "snprintf")
            if isnull: out.append((s, None)); continue
            b, o = d[1], s.red(d[2])
            for cut in (False, True):
                x = s.copy()
                if not x.assume_ge0(addc(sub(n, ln), -1) if not cut else sub(ln, n)): continue
                if cut and x.cons.entails_le(n): out.append((x, None)); continue
                models.put_string(eng, x, b, o, addc(n, -1) if cut else ln)
                out.append((x, (b, o, cut)))
        return out

    # ---- text as numbers
    def call_strtol(self, eng, st, ins, args, real=False):
        t = st.ts.get("text")
        if t is None: return None
        p = st.canon(args[0])
        if p[1] != t[0] or st.red(p[2]) != ZERO: self.failed(eng, st, ins, "another text than the value is read", "text"); return []
        if not real and st.cons.constval(st.red(eng.as_int(st, args[2], 32))) != 0: self.failed(eng, st, ins, "the number is not read in every notation", "base"); return []
        L = t[1]
        ep = st.canon(args[1])
        out = []
        for what in ("none", "part", "all"):
            s = st.copy()
            k = {"none": ZERO, "all": L}.get(what) or sym(fsym("characters read", 1, BIG))
            if what == "none": k = ZERO
            if what == "part" and not s.assume_ge0(addc(sub(L, k), -1)): continue
            if what == "all" and not s.assume_ge0(addc(L, -1)): continue
            s.ts["num"] = (what == "all",)
            s.note("the text is %s a number" % {"none": "not", "part": "only in part", "all": "entirely"}[what])
            if s.is_null(ep) is not True:
                if what == "part": eng.put_cell(s, t[0], s.red(k), ("i", sym(fsym("character", 1, 127))), 1)
                if what == "all": eng.put_cell(s, t[0], s.red(k), I(0), 1)
                eng.store_mem(s, None, ep[1], s.red(ep[2]), ("p", t[0], s.red(k)), 8)
            out.append((s, ("o", "the number") if real else ("i", t[2])))
        return out

    call_strtoll = call_strtol

    def call_strtod(self, eng, st, ins, args): return self.call_strtol(eng, st, ins, args, True)

    # ---- splitting
    def call_strtok_r(self, eng, st, ins, args):
        t = st.ts.get("split")
        if t is None: return None
        a0, dl = st.canon(args[0]), st.canon(args[1])
        tok = st.ts.get("tok")
        own = st.ts.get("map") is not None and st.canon(eng.load_mem(st, None, dl[1], const(t["lay"].map), 8, ir.PTR))[1] == st.ts["map"]
        if not own or st.red(dl[2]) != const(t["lay"].delim[0]): self.failed(eng, st, ins, "the text is not split at the delimiter of the object", "delimiter"); return []
        if tok == "none": self.failed(eng, st, ins, "splitting goes on behind the end", "end"); return []
        if tok is None:
            if not self.is_copy(eng, st, a0, t["text"]): self.failed(eng, st, ins, "what is split is not a copy of the text", "split"); return []
            t = dict(t, copy=a0[1])
            st.ts["split"] = t
        else:
            if st.is_null(a0) is not True: self.failed(eng, st, ins, "splitting starts over", "again"); return []
            if st.ts.get("pair"): self.failed(eng, st, ins, "a pair of the text is left out", "left"); return []
            if st.ts.get("puts") == ("nomem",): self.failed(eng, st, ins, "reading goes on although a pair could not be put", "nomem"); return []
            if not self.settled(eng, st, ins): return []
        src = t["copy"]
        if freed(st, src): self.failed(eng, st, ins, "the text is used after its release", "split"); return []
        if st.ts.get("parted") == "spoilt": self.failed(eng, st, ins, "the text that is split is changed", "split"); return []
        st.ts["copies"] = tuple(x for x in st.ts.get("copies", ()) if x[0] != src or x[2] != ("w",))
        sv = st.canon(args[2])
        eng.put_cell(st, sv[1], st.red(sv[2]), eng.unknown(st, ir.PTR, "save"), 8)
        out = []
        s = st.copy()
        s.ts["tok"] = "none"
        out.append((s, NULL))
        for kind in ("plain", "nameless", "pair", "empty"):
            s = st.copy()
            o, ln, e = sym(fsym("token", 0, BIG)), sym(fsym("length", 1, BIG)), sym(fsym("equals sign", 1, BIG))
            s.ts["tok"] = kind
            s.ts["parted"] = None
            if kind == "pair": s.assume_ge0(addc(sub(ln, e), -2))
            elif kind == "empty": s.assume_eq(sub(ln, addc(e, 1)))
            else: e = ZERO
            s.assume_le(sub(add(o, ln), t["text"][2]))
            for i, x in enumerate((o, e, ln)): gset(eng, s, i, x)
            s.ts["pair"] = None if kind == "nameless" else True
            s.note("next token: %s" % {"plain": "no equals sign", "nameless": "starts with an equals sign", "pair": "key and value", "empty": "key and empty value"}[kind])
            if not s.cons.bot: out.append((s, ("p", src, s.red(o))))
        return out

    call_strtok_s = call_strtok_r

    def call_strchr(self, eng, st, ins, args):
        t, kind = st.ts.get("split"), st.ts.get("tok")
        if t is None or kind in (None, "none") or st.ts.get("parted"): return None
        k = (gget(eng, st, 0), gget(eng, st, 1), kind)
        p = st.canon(args[0])
        if p[1] != t.get("copy") or not st.cons.entails_eq(sub(p[2], k[0])): return None
        if st.cons.constval(st.red(eng.as_int(st, args[1], 32))) != 61: self.failed(eng, st, ins, "key and value are not parted at the equals sign", "equals"); return []
        if k[2] == "plain": return [(st, NULL)]
        return [(st, ("p", p[1], st.red(k[0] if k[2] == "nameless" else add(k[0], k[1]))))]

    # ---- iteration
    def call_hashmap_foreach(self, eng, st, ins, args):
        v = self.themap(eng, st, ins, args[0])
        if not v: return None if v is False else []
        cb = st.canon(args[1])
        if cb[1][0] != "fn": self.failed(eng, st, ins, "no callback", "foreach"); return []
        f = self.fun(eng, cb)
        live, done = [st], []
        for k, v in st.ts["entries"]:
            nx = []
            for s in live:
                s.ts["fmts"] = ()
                for x, r in eng.call_in_context(s, f, [k, v, args[2]], ins):
                    for go in (True, False):
                        for y in eng.assume(x.copy(), r, go):
                            if y.cons.bot: continue
                            if not go: y.ts["calls"] = ("stopped",)
                            (nx if go else done).append(y)
            live = nx
        return [(s, None) for s in live + done]


def p26():
    S_ = Specs("params")

    def build(eng, s, p, entry=None):
        lay = Lay(eng)
        s.set_nn(p, True)
        b = s.canon(p)
        m = heap(eng, s, "map", 64)
        eng.store_mem(s, None, b[1], add(b[2], const(lay.map)), ("p", m, ZERO), 8)
        eng.put_cell(s, b[1], s.red(addc(b[2], lay.delim[0])), ("i", sym(fsym("delimiter", 1, 127))), 1)
        eng.put_cell(s, b[1], s.red(addc(b[2], lay.delim[0] + 1)), I(0), 1)
        s.slen[(b[1], s.red(addc(b[2], lay.delim[0])), s.cep.get(b[1], 0))] = const(1)
        s.ts["map"], s.ts["object"] = m, b[1]
        s.ts["entry"] = entry
        return lay

    def unchanged(c, st):
        b = st.canon(c.args[0])
        m = st.canon(c.eng.load_mem(st, None, b[1], addc(b[2], Lay(c.eng).map), 8, ir.PTR))
        if m[1] != st.ts["map"] or freed(st, m[1]): c.fail("the object's map is gone", "map"); return False
        return True

    # ---- putting
    def pre_add(number=None):
        def pre(eng, s, f, args):
            build(eng, s, args[0])
            out = []
            for x, kl in texts(eng, s, args[1]):
                k = x.canon(args[1])
                kw = (k[1], x.red(k[2]), kl, "key")
                if number is None:
                    for y, vl in texts(eng, x, args[2]):
                        v = y.canon(args[2])
                        y.ts["pair"] = (kw, (v[1], y.red(v[2]), vl, "a copy of the value"))
                        out.append(y)
                elif number == "real":
                    x.ts["number"] = True
                    v = args[2]
                    x.ts["pair"] = (kw, ("number", "real", ("o", ("fpext", v[1])) if "float" in f.name else v))
                    out.append(x)
                else:
                    for y, v in eng.scanon(x, x.red(eng.as_int(x, args[2], number)), number):
                        y.ts["number"] = True
                        y.ts["pair"] = (kw, ("number", "int", y.red(v)))
                        out.append(y)
            for x in out: x.ts["spec"] = (len(repr(x.ts["pair"])), repr(x.ts["pair"])[:0])
            for i, x in enumerate(out): x.ts["spec"] = (i,)
            return out
        return pre

    def post_add(c):
        st = c.st
        put = (st.ts.get("puts") or ("",))[-1]
        good = put in ("new", "replaced")
        if not Par.settled(Par, c.eng, st, None, c.fail): return
        if not unchanged(c, st): return
        for x, r in c.ret(32, True):
            if good:
                if not x.cons.entails_eq(r): c.fail("an error is returned although the pair was put", "result"); return
            elif not x.cons.entails_le(addc(r, 1)):
                c.fail("%s is returned although nothing was put" % show(x.red(r)), "result"); return
            elif not st.ts.get("allocfail") and not st.ts.get("fmtfail"): c.fail("refused although nothing failed", "refused"); return

    S_.add("str_params_add_str", pre_add(), post_add)
    S_.add("str_params_add_long", pre_add(64), post_add)
    S_.add("str_params_add_int", pre_add(32), post_add)
    S_.add(("str_params_add_double", "str_params_add_float"), pre_add("real"), post_add)

    # ---- asking
    def pre_ask(num=None, out=None):
        def pre(eng, s, f, args):
            build(eng, s, args[0])
            s.set_nn(args[1], True)
            k = s.canon(args[1])
            text(eng, s, args[1])
            s.ts["key"] = (k[1], s.red(k[2]), text(eng, s, args[1]))
            res = []
            x = s.copy()
            x.ts["spec"] = ("absent",)
            res.append(x)
            v = ("p", ("s", fsym("value")), ZERO)
            for x, L in texts(eng, s, v):
                x.ts["spec"] = ("present", x.cons.entails_eq(L))
                x.ts["entry"] = v
                x.ts["text"] = (v[1], L, sym(fsym("number", -(1 << 63), (1 << 63) - 1)))
                res.append(x)
            fin = []
            for x in res:
                if out is not None:
                    x.set_nn(args[2], True)
                    x.ts["out"] = x.canon(args[2])[1]
                if f.name.endswith("_str"):
                    x.ts.pop("text", None)
                    x.ts["value"] = (v[1], None)
                    for y, n in eng.ucanon(x, x.red(eng.as_int(x, args[3], 64)), 64):
                        if not need(y, addc(n, -BIG)): continue
                        y.ts["room"] = y.red(n)
                        fin.append(y)
                else: fin.append(x)
            return fin
        return pre

    @S_.fn("str_params_has_key", pre_ask())
    def _(c):
        if not unchanged(c, c.st): return
        for st, r in truth(c):
            if r != (1 if st.ts["entry"] else 0): c.fail("a key that is %s is reported %s" % (("there", "missing") if st.ts["entry"] else ("not there", "there")), "result")

    @S_.fn("str_params_get_str", pre_ask(out=True))
    def _(c):
        st = c.st
        if not unchanged(c, st): return
        n = st.ts["room"]
        p = st.canon(c.args[2])
        for x, r in c.ret(32, True):
            if st.ts["entry"] is None:
                if not x.cons.entails_eq(addc(r, ENOENT)): c.fail("a missing key is not answered with -ENOENT", "absent")
                elif x.ts.get("wrote"): c.fail("the caller's buffer is written although there is no such key", "absent")
                continue
            v = st.ts["entry"]
            L = models.slen_of(c.eng, x, None, v)
            for fits in (True, False):
                y = x.copy()
                if not y.assume_ge0(addc(sub(n, L), -1) if fits else sub(L, n)): continue
                if not fits:
                    if not y.cons.entails_eq(addc(r, ENOMEM)): c.fail("a value that does not fit is not answered with -ENOMEM", "fits")
                    elif y.ts.get("wrote"): c.fail("the caller's buffer is written although the value does not fit", "fits")
                    continue
                if not y.cons.entails_eq(r): c.fail("a value that fits is refused", "fits"); continue
                if not comes_from(y, p[1], p[2], L, v[1], v[2]): c.fail("the caller does not get the whole value", "copy"); continue
                z = c.eng.load_mem(y, None, p[1], y.red(add(p[2], L)), 1, ir.int_t(8), False)
                if not y.cons.entails_eq(c.eng.as_int(y, z, 8)): c.fail("the value is not terminated", "copy")

    def number(kind):
        def post(c):
            st = c.st
            if not unchanged(c, st): return
            p = st.canon(c.args[2])
            for x, r in c.ret(32, True):
                if st.ts["entry"] is None:
                    if not x.cons.entails_eq(addc(r, ENOENT)): c.fail("a missing key is not answered with -ENOENT", "absent")
                    elif x.ts.get("wrote"): c.fail("the caller's variable is written although there is no such key", "absent")
                    continue
                N = st.ts["text"][2]
                whole = (st.ts.get("num") or (False,))[0]
                for fits in (True, False):
                    for side in ((0,) if fits else (-1, 1)):
                        y = x.copy()
                        if kind == "int":
                            if fits:
                                if not (y.assume_le(addc(N, -INT[1])) and y.assume_ge0(addc(N, -INT[0]))): continue
                            elif side < 0:
                                if not y.assume_le(addc(N, 1 - INT[0])): continue
                            elif not y.assume_ge0(addc(N, -INT[1] - 1)): continue
                        elif not fits: continue
                        if whole and fits:
                            if not y.cons.entails_eq(r): c.fail("a value that is a number is refused", "number"); continue
                            v = c.eng.load_mem(y, None, p[1], p[2], {"int": 4, "float": 4}.get(kind, 8), ir.int_t(32 if kind == "int" else 64), False)
                            if kind in ("int", "long"):
                                ok = any(z.cons.entails_eq(sub(e, N)) for z, e in c.eng.scanon(y.copy(), y.red(c.eng.as_int(y, v, 32 if kind == "int" else 64)), 32 if kind == "int" else 64)) if v[0] == "i" else False
                            else:
                                cell = [q for o, (q, sz) in y.mem.get(p[1], {}).items() if o == y.red(p[2])]
                                ok = cell == [("o", ("fptrunc", "the number")) if kind == "float" else ("o", "the number")]
                            if not ok: c.fail("the caller does not get the number", "number")
                        else:
                            if not y.cons.entails_le(addc(r, 1)): c.fail("a value that is not %s is accepted" % ("a number" if fits else "in range"), "accepted" if fits else "range"); continue
                            if y.ts.get("wrote"): c.fail("the caller's variable is written although an error is returned", "left alone")
        return post

    for k in ("int", "long", "double", "float"): S_.add("str_params_get_" + k, pre_ask(out=True), number(k))

    @S_.fn("str_params_del", pre_ask())
    def _(c):
        if unchanged(c, c.st) and c.st.ts.get("calls") != ("remove",): c.fail("the key is not removed exactly once", "remove")

    # ---- life
    def pre_new(eng, s, f, args):
        s.ts["newmap"] = True
        out = []
        n = s.copy()
        if n.set_nn(args[0], False) is not False and not n.cons.bot: n.ts["spec"] = ("default",); out.append(n)
        for x, L in texts(eng, s, args[0]):
            x.ts["spec"] = ("given", x.cons.entails_eq(L))
            x.ts["dl"] = L
            out.append(x)
        return out

    def made(c, st):
        """a complete new object"""
        lay = Lay(c.eng)
        q = st.canon(c.r)
        if q[1][0] != "h" or freed(st, q[1]) or st.red(q[2]) != ZERO: c.fail("something other than a new object is returned", "object"); return False
        m = st.canon(c.eng.load_mem(st, None, q[1], const(lay.map), 8, ir.PTR))
        if m[1] != st.ts.get("map") or freed(st, m[1]): c.fail("the new object has no map", "map"); return False
        d = [st.red(c.eng.as_int(st, c.eng.load_mem(st, None, q[1], const(lay.delim[0] + i), 1, ir.int_t(8), False), 8)) for i in (0, 1)]
        if st.ts["spec"][1] == "default": want = const(59)
        else:
            a = st.canon(c.args[0])
            want = st.red(c.eng.as_int(st, c.eng.load_mem(st, None, a[1], a[2], 1, ir.int_t(8), False), 8))
        copied = st.ts["spec"][1] == "given" and not st.ts["spec"][2] and comes_from(st, q[1], const(lay.delim[0]), const(1), st.canon(c.args[0])[1], st.canon(c.args[0])[2])
        glob = origin(st, q[1], const(lay.delim[0]), const(1))
        if st.ts["spec"][1] == "default" and glob and glob[0][0] == "g":
            g = c.eng.find_global(glob[0])
            copied = g is not None and g.init and g.init[0] == "str" and is_const(glob[1]) and bytes(g.init[1])[glob[1][0]] == 59
        if not copied and not st.cons.entails_eq(sub(d[0], want)): c.fail("the delimiter is not the %s" % ("semicolon" if st.ts["spec"][1] == "default" else "one given"), "delimiter"); return False
        if not (st.cons.entails_eq(d[1]) or st.ts["spec"][1] == "given" and st.ts["spec"][2] and st.cons.entails_eq(d[0])): c.fail("the delimiter is not terminated", "delimiter"); return False
        return True

    def none_left(c, st):
        if not st.ts.get("allocfail"): c.fail("no object although nothing failed", "none"); return
        m = st.ts.get("map")
        if m is not None and not freed(st, m): c.fail("the map is not released", "map")

    @S_.fn("str_params_create", pre_new)
    def _(c):
        if c.st.is_null(c.r) is True: none_left(c, c.st)
        else: made(c, c.st)

    def pre_create_str(eng, s, f, args):
        out = []
        for x in pre_new(eng, s, f, args):
            for y, L in texts(eng, x, args[1]):
                t = y.canon(args[1])
                y.ts["split"] = {"text": (t[1], y.red(t[2]), L, "text"), "lay": Lay(eng)}
                empty = y.cons.entails_eq(L)
                if x.ts["spec"] == ("given", True) or empty and x.ts["spec"][0] != "default": continue
                y.ts["spec"] = tuple(x.ts["spec"]) + (empty,)
                out.append(y)
        return out

    @S_.fn("str_params_create_str", pre_create_str)
    def _(c):
        st = c.st
        if not Par.settled(Par, c.eng, st, None, c.fail): return
        cp = st.ts["split"].get("copy")
        if cp is not None and not freed(st, cp): c.fail("the copy of the text is not released", "copy"); return
        if st.is_null(c.r) is True: none_left(c, st); return
        if st.ts.get("puts") == ("nomem",) or st.ts.get("pair"): c.fail("an object that lacks a pair of the text is returned", "left"); return
        if st.ts.get("tok") != "none": c.fail("the text is not read to its end", "end"); return
        made(c, st)

    # the object strtok_r is asked about is the one create made
    def pre_gone(eng, s, f, args):
        n = s.copy()
        out = []
        if n.set_nn(args[0], False) is not False and not n.cons.bot:
            n.ts["spec"] = ("null",)
            out.append(n)
        build(eng, s, args[0])
        b = heap(eng, s, "object", Lay(eng).size)
        s.ts["spec"] = ("object",)
        out.append(s)
        return out

    @S_.fn("str_params_destroy", pre_gone)
    def _(c):
        if c.st.ts["spec"][1] == "null": return
        if not freed(c.st, c.st.ts["map"]): c.fail("the map is not released", "map")
        b = c.st.canon(c.args[0])[1]
        if (c.st.objs.get(b) or {}).get("state") != "freed": c.fail("the object is not released", "object")

    # ---- to text
    def pre_join(eng, s, f, args):
        out = []
        for k in (0, 1, 2):
            x = s.copy()
            build(eng, x, args[0])
            x.ts["joining"] = True
            ent = []
            for i in range(k):
                kv = []
                for n in ("key", "value"):
                    p = ("p", ("s", fsym("%s %d" % (n, i + 1))), ZERO)
                    text(eng, x, p)
                    kv.append(p)
                ent.append(tuple(kv))
            x.ts["entries"] = tuple(ent)
            x.ts["spec"] = (k,)
            out.append(x)
        return out

    @S_.fn("str_params_to_str", pre_join)
    def _(c):
        st = c.st
        if not unchanged(c, st): return
        if st.is_null(c.r) is True:
            if not st.ts.get("allocfail") and not st.ts.get("fmtfail"): c.fail("no text although nothing failed", "none")
            return
        q = st.canon(c.r)
        if q[1][0] != "h" or freed(st, q[1]) or st.red(q[2]) != ZERO: c.fail("something other than a new text is returned", "new"); return
        if st.ts.get("calls") == ("stopped",): c.fail("a text that lacks entries is returned", "stopped"); return
        pos, k = ZERO, len(st.ts["entries"])
        lay = Lay(c.eng)
        for i, (kp, vp) in enumerate(st.ts["entries"]):
            if i:
                if not comes_from(st, q[1], pos, const(1), st.ts["object"], const(lay.delim[0])): c.fail("%d entries: there is no delimiter between them" % k, "delimiter"); return
                pos = addc(pos, 1)
            for what, p in (("key", kp), ("value", vp)):
                L = models.slen_of(c.eng, st, None, p)
                if not comes_from(st, q[1], pos, L, p[1], p[2]): c.fail("%d entries: %s %d is not in its place" % (k, what, i + 1), what); return
                pos = add(pos, L)
                if what == "key":
                    v = origin(st, q[1], pos, const(1))
                    e = st.red(c.eng.as_int(st, c.eng.load_mem(st, None, v[0], v[1], 1, ir.int_t(8), False), 8)) if v else None
                    if v and v[0][0] == "g":
                        g = c.eng.find_global(v[0])
                        if g is not None and g.init and g.init[0] == "str" and is_const(v[1]): e = const(bytes(g.init[1])[v[1][0]])
                    if e is None or st.cons.constval(e) != 61: c.fail("%d entries: there is no equals sign behind key %d" % (k, i + 1), "equals"); return
                    pos = addc(pos, 1)
        z = c.eng.load_mem(st, None, q[1], st.red(pos), 1, ir.int_t(8), False)
        if not st.cons.entails_eq(c.eng.as_int(st, z, 8)): c.fail("the text is not terminated behind its last entry", "terminator")
    return S_


CLIENTS = [Par]
OPTS = {"merge_cap": 100, "ret_cap": 100, "loop_entry_cap": 64, "loop_parts": 100, "errno": True}
