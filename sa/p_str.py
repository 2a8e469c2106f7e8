"""P15: string helpers produce exactly the text they promise inside the room they are given; the string builder is concatenation."""
from . import ir, models
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, dsym, fsym
from .spec import Specs, Ob, Case, last_ret, size_of, need
from .p_queue import mod_of
from .p_cont import heap, freed

STR, SB = "src/mem/strings.c", "src/mem/stringbuilder.c"
GH = ("g", "%ghost", "")
BIG = 1 << 40


def gget(eng, st, i): return st.red(eng.as_int(st, eng.load_mem(st, None, GH, const(8 * i), 8, ir.int_t(64), False), 64))
def gset(eng, st, i, e): eng.put_cell(st, GH, const(8 * i), ("i", st.red(e)), 8)


def length(eng, st, p, name="length"):
    """a string argument of any length"""
    st.set_nn(p, True)
    e = models.slen_of(eng, st, None, p)
    st.assume_le(addc(e, -BIG))
    return st.red(e)


def cell(eng, st, p, k, n=8):
    return eng.load_mem(st, None, p[1], st.red(add(p[2], k)), n, ir.int_t(8 * n) if n < 8 else ir.PTR, False)


class Text(Client):
    """how much of a text has arrived at its place: ghost cell 0 counts the leading characters of
    ts["track"] = (destination, start, source, start) that are in place; ts["room"] = (object, bytes) bounds every write to the object"""
    name = "text"
    rule = "strings"

    def bound(self, eng, st, ins, b, off, n, write, what):
        for ob, lo, room, ro in st.ts.get("room", ()):
            if b != ob or ro and not write: continue
            if st.cons.entails_le(n): continue
            if not st.cons.entails_ge0(sub(off, lo)) or not st.cons.entails_ge0(sub(room, add(off, n))):
                eng.report("spec", st, ins, self.rule, "%s: %s outside the room that was given (bytes [%s, %s) of %s)" % (ins.fn.name if ins is not None else "?", "a write" if write else "a read", show(st.red(off)), show(st.red(add(off, n))), show(st.red(room))), key=what)

    def on_access(self, eng, st, ins, b, off, size, write, val=None):
        self.bound(eng, st, ins, b, off, const(size), write, "write" if write else "read")
        if write and b == st.ts.get("ends") and ins is not None:
            z = gget(eng, st, 5)
            if val is not None and val[0] == "i" and size == 1 and st.cons.constval(st.red(eng.as_int(st, val, 8))) == 0: gset(eng, st, 5, off)
            elif not st.cons.entails_ge0(addc(sub(off, z), -1)) and not st.cons.entails_le(sub(add(off, const(size)), z)): gset(eng, st, 5, const(-1))
        t = st.ts.get("track")
        if t and not write and b == t[2] and ins is not None: gset(eng, st, 4, sub(addc(off, size), t[3]))
        if t and write and b == t[0] and ins is not None:
            g, rel = gget(eng, st, 0), st.red(sub(off, t[1]))
            le = st.cons.entails_ge0(rel) and st.cons.entails_ge0(sub(g, rel))
            if le and size == 1 and val is not None and val[0] == "i":
                want = eng.as_int(st, eng.load_mem(st, None, t[2], st.red(add(t[3], rel)), 1, ir.int_t(8), False), 8)
                d = st.red(sub(want, st.red(eng.as_int(st, val, 8))))
                if st.cons.entails_eq(d) or is_const(d) and d[0] % 256 == 0:
                    if st.cons.entails_eq(sub(g, rel)): gset(eng, st, 0, addc(g, 1))
                    return
                gset(eng, st, 0, rel)
            elif le: gset(eng, st, 0, rel)
            elif not st.cons.entails_ge0(sub(rel, g)) and not st.cons.entails_le(addc(rel, size)): gset(eng, st, 0, ZERO)
        if write and b == st.ts.get("tokens") and ins is not None and val is not None: self.token(eng, st, ins, off, size, val)

    def on_range(self, eng, st, ins, b, off, ln, write, what):
        if ln is not None: self.bound(eng, st, ins, b, off, ln, write, what)
        if write and b == st.ts.get("ends"):
            z = gget(eng, st, 5)
            if ln is None or not st.cons.entails_ge0(addc(sub(off, z), -1)) and not st.cons.entails_le(sub(add(off, ln), z)): gset(eng, st, 5, const(-1))
        t = st.ts.get("track")
        if t and write and b == t[0] and what not in ("memcpy dst", "strcpy dst", "strcat dst", "strlcpy dst") and ln is not None:
            g, rel = gget(eng, st, 0), st.red(sub(off, t[1]))
            if not st.cons.entails_ge0(sub(rel, g)) and not st.cons.entails_le(add(rel, ln)) and not st.cons.entails_le(ln): gset(eng, st, 0, ZERO)

    def on_string(self, eng, st, b, off, ln):
        """a terminated text was written"""
        if b == st.ts.get("ends"): gset(eng, st, 5, add(off, ln))

    def on_copy(self, eng, st, ins, db, doff, sb, soff, n):
        t = st.ts.get("track")
        if not t or db != t[0]: return
        g, rel = gget(eng, st, 0), st.red(sub(doff, t[1]))
        ok = sb == t[2] and st.cons.entails_eq(sub(sub(soff, t[3]), rel))
        if ok and st.cons.entails_ge0(rel) and st.cons.entails_ge0(sub(g, rel)):
            if not st.cons.entails_ge0(sub(g, add(rel, n))): gset(eng, st, 0, add(rel, n))
        elif not ok and not st.cons.entails_ge0(sub(rel, g)): gset(eng, st, 0, ZERO)

    # ---- searching: what is found is part of the entry case
    def call_strstr(self, eng, st, ins, args):
        o = st.ts.get("occ")
        if o is None: return None
        h, n = st.canon(args[0]), st.canon(args[1])
        if h[1] != o["text"] or n[1] != o["pattern"] or st.red(n[2]) != ZERO: return None
        for c in eng.clients: c.on_range(eng, st, ins, h[1], h[2], None, False, "strstr")
        for i, frm in enumerate([ZERO] + [add(x, o["plen"]) for x in o["at"]]):
            if st.cons.entails_eq(sub(h[2], frm)):
                if i == len(o["at"]): return [(st, NULL)]
                return [(st, ("p", h[1], st.red(o["at"][i])))]
        eng.report("spec", st, ins, self.rule, "%s: the search does not continue behind what was found" % ins.fn.name, key="search")
        return []

    def call_strchr(self, eng, st, ins, args):
        t = st.ts.get("trim")
        if t is None: return None
        cs = st.canon(args[0])
        if cs[1] != t["set"] or st.red(cs[2]) != ZERO: return None
        v = st.red(eng.as_int(st, args[1], 32))
        g, n = gget(eng, st, 0), t["len"]
        back = sub(addc(n, -1), gget(eng, st, 1))
        out = []
        for yes in (True, False):
            s = st.copy()
            for k, pos in ((0, g), (1, back)):
                if not s.cons.entails_ge0(pos) or not s.cons.entails_ge0(addc(sub(n, pos), -1)): continue
                w = eng.load_mem(s, None, t["text"], s.red(pos), 1, ir.int_t(8), False)
                d = s.red(sub(eng.as_int(s, w, 8), v))
                if not (s.cons.entails_eq(d) or any(s.cons.entails_eq(addc(d, k2)) for k2 in (-256, 256))): continue
                if yes: gset(eng, s, k, addc(gget(eng, s, k), 1))
                else: gset(eng, s, 2 + k, addc(pos, 1))
            out.append((s, ("p", cs[1], sym(fsym("member", 0, BIG))) if yes else NULL))
        return out

    call_memchr = call_strchr

    def call_strtok_r(self, eng, st, ins, args):
        t = st.ts.get("split")
        if t is None: return None
        first = gget(eng, st, 2)
        a0, dl = st.canon(args[0]), st.canon(args[1])
        if dl[1] != t["delim"]: return None
        if st.cons.entails_eq(first):
            if a0[1] != t["text"]: eng.report("spec", st, ins, self.rule, "%s: the text is not the one split" % ins.fn.name, key="other"); return []
        elif st.cons.entails_ge0(addc(first, -1)):
            if st.is_null(a0) is not True: eng.report("spec", st, ins, self.rule, "%s: splitting starts over" % ins.fn.name, key="again"); return []
        sv = st.canon(args[2])
        for c in eng.clients: c.on_access(eng, st, ins, sv[1], st.red(sv[2]), 8, True, None)
        out = []
        s = st.copy()
        gset(eng, s, 2, const(2))            # nothing left
        eng.put_cell(s, sv[1], s.red(sv[2]), eng.unknown(s, ir.PTR, "save"), 8)
        out.append((s, NULL))
        eng.put_cell(st, sv[1], st.red(sv[2]), eng.unknown(st, ir.PTR, "save"), 8)
        k = ("p", t["text"], sym(fsym("token", 0, BIG)))
        gset(eng, st, 2, const(1))
        eng.put_cell(st, GH, const(8), k, 8)     # the token to be recorded next
        out.append((st, k))
        return out

    call_strtok = None

    def token(self, eng, st, ins, off, size, val):
        n = gget(eng, st, 0)
        want = st.canon(eng.load_mem(st, None, GH, const(8), 8, ir.PTR))
        v = st.canon(val)
        if not st.cons.entails_eq(sub(off, scale(n, 8))): eng.report("spec", st, ins, self.rule, "%s: tokens are not recorded one after the other" % ins.fn.name, key="place")
        elif v[0] != "p" or v[1] != want[1] or not st.cons.entails_eq(sub(v[2], want[2])): eng.report("spec", st, ins, self.rule, "%s: something other than the next token is recorded" % ins.fn.name, key="token")
        gset(eng, st, 0, addc(n, 1))
        eng.put_cell(st, GH, const(8), NULL, 8)

    # ---- formatting
    def call_vsnprintf(self, eng, st, ins, args):
        t = st.ts.get("format")
        if t is None: return None
        if st.canon(args[2])[1] != t["fmt"]: return None
        d = st.canon(args[0])
        out = []
        for s, n in eng.ucanon(st.copy(), st.red(eng.as_int(st, args[1], 64)), 64):
            if s.is_null(d) is not True or not s.cons.entails_eq(n):
                if s.cons.entails_ge0(addc(n, -1)) is False and s.is_null(d) is True: pass
                for c in eng.clients: c.on_range(eng, s, ins, d[1], s.red(d[2]), n, True, "vsnprintf")
            bad = s.copy()
            if bad.ts.get("fmtok") is not True:
                bad.ts["fmtok"] = False
                if s.is_null(d) is not True: eng.invalidate(bad, d[1], bad.red(d[2]), n)
                out.append((bad, I(-1)))
            if s.ts.get("fmtok") is False: continue
            s.ts["fmtok"] = True
            if s.is_null(d) is not True:
                for x, full in ((s.copy(), True), (s.copy(), False)):
                    if full:
                        if not x.assume_ge0(addc(sub(n, t["len"]), -1)): continue
                        models.put_string(eng, x, d[1], d[2], t["len"])
                        x.ts["fmts"] = x.ts.get("fmts", ()) + ((d[1], x.red(d[2])),)
                    else:
                        if not x.assume_le(sub(n, t["len"])): continue
                        y = x.copy()
                        if y.assume_eq(n): out.append((y, ("i", t["len"])))
                        if not x.assume_ge0(addc(n, -1)): continue
                        models.put_string(eng, x, d[1], d[2], addc(n, -1))
                        x.ts["fmts"] = x.ts.get("fmts", ()) + ((d[1], "cut"),)
                    out.append((x, ("i", t["len"])))
            else: out.append((s, ("i", t["len"])))
        return out

    def call_snprintf(self, eng, st, ins, args):
        t = st.ts.get("hex")
        if t is None: return None
        f = models.fmt_of(eng, st, args[2])
        if f != t["one"] or len(args) != 4: return None
        d = st.canon(args[0])
        out = []
        for s, n in eng.ucanon(st.copy(), st.red(eng.as_int(st, args[1], 64)), 64):
            for c in eng.clients: c.on_range(eng, s, ins, d[1], s.red(d[2]), n, True, "snprintf")
            g = gget(eng, s, 0)
            w = eng.load_mem(s, None, t["bytes"], s.red(g), 1, ir.int_t(8), False)
            for x, e in eng.ucanon(s.copy(), eng.as_int(s, w, 8), 8):
                for y, v in eng.ucanon(x, x.red(eng.as_int(x, args[3], 32)), 32):
                    if not y.cons.entails_eq(sub(v, y.red(e))): eng.report("spec", y, ins, self.rule, "%s: something other than the next byte is written" % ins.fn.name, key="byte")
                    if not y.cons.entails_ge0(addc(sub(n, const(3)), -1)): 
                        eng.report("spec", y, ins, self.rule, "%s: a byte is written in part" % ins.fn.name, key="part"); continue
                    models.put_string(eng, y, d[1], d[2], const(3))
                    gset(eng, y, 0, addc(g, 1))
                    out.append((y, I(3)))
        return out

    def on_call(self, eng, st, ins, name, args):
        h = getattr(self, "call_" + name, None)
        return h(eng, st, ins, args) if h else None

    def state_key(self, eng, st):
        """copying keeps up with reading / has fallen behind"""
        if st.ts.get("split"): return st.cons.constval(gget(eng, st, 2))
        if not st.ts.get("track"): return None
        return st.cons.entails_eq(sub(gget(eng, st, 0), gget(eng, st, 4)))

    def key(self, ts): return repr((ts.get("fmtok"), ts.get("fmts")))


def terminated(c, st, b, at, what):
    v = c.eng.load_mem(st, None, b, st.red(at), 1, ir.int_t(8), False)
    if st.cons.constval(st.red(c.eng.as_int(st, v, 8))) != 0 and not st.cons.entails_eq(c.eng.as_int(st, v, 8)): c.fail("%s is not terminated" % what, "terminator"); return False
    return True


def p15():
    S_ = Specs("strings")

    # ---- bounded copy
    def pre_copy(cat):
        def pre(eng, s, f, args):
            L = length(eng, s, args[1])
            d, src = s.canon(args[0]), s.canon(args[1])
            s.set_nn(args[0], True)
            out = []
            for x, n, empty in [(y, n, e) for x, n in eng.ucanon(s, s.red(eng.as_int(s, args[2], 64)), 64) for y, e in ((x.copy(), True), (x, False))]:
                if not x.assume_le(addc(n, -BIG)): continue
                if not (x.assume_eq(n) if empty else x.assume_ge0(addc(n, -1))): continue
                n = x.red(n)
                D = ZERO
                if cat:
                    D = length(eng, x, args[0])
                for y in (x.copy(), x):
                    if cat and y is not x:
                        if not y.assume_ge0(addc(sub(n, D), -1)): continue
                        start = D
                    elif cat:
                        if not y.assume_ge0(sub(D, n)): continue      # not a string inside the buffer
                        start = n
                    else:
                        if y is not x: continue
                        start = D
                    y.ts["room"] = ((d[1], d[2], n, False),)
                    y.ts["track"] = (d[1], start, src[1], src[2])
                    y.ts["arg"] = (L, start, n)
                    y.ts["spec"] = (y is x, empty)
                    gset(eng, y, 0, ZERO); gset(eng, y, 4, ZERO)
                    if cat: y.ts["keep"] = start
                    out.append(y)
            return out
        return pre

    def post_copy(c):
        L, D, n = c.st.ts["arg"]
        for st, r in c.ret(64):
            if not c.eq(r, add(L, D), "the length of the text that was to be created is returned", "result", mod=1 << 64, st=st): continue
            d = st.canon(c.args[0])
            g = gget(c.eng, st, 0)
            a = st.copy()
            if a.assume_le(sub(n, D)): pass                 # no room at all
            for fits in (True, False):
                x = st.copy()
                if not x.assume_ge0(addc(sub(n, D), -1)): continue
                m = L if fits else addc(sub(n, D), -1)
                if not (x.assume_ge0(addc(sub(sub(n, D), L), -1)) if fits else x.assume_ge0(sub(L, sub(n, D)))): continue
                if not x.cons.entails_ge0(sub(g, m)): c.fail("%s: not all of it is in place (%s of %s)" % ("a text that fits" if fits else "a text that does not fit", show(x.red(g)), show(x.red(m))), "content"); break
                if not terminated(c, x, d[1], add(d[2], add(D, m)), "the text"): break

    S_.add("strlcpy", pre_copy(False), post_copy)
    S_.add("strlcat", pre_copy(True), post_copy)

    # ---- replace
    def pre_replace(eng, s, f, args):
        N, p, r = length(eng, s, args[0]), length(eng, s, args[1]), length(eng, s, args[2])
        o, q = s.canon(args[0]), s.canon(args[1])
        out = []
        for k in (-1, 0, 1, 2, 3):
            x = s.copy()
            x.ts["spec"] = (k,)
            if k < 0:
                if x.assume_eq(p): 
                    x.ts["occ"] = {"text": o[1], "pattern": q[1], "plen": x.red(p), "at": (), "args": (N, p, r)}
                    out.append(x)
                continue
            x.assume_ge0(addc(p, -1))
            at, prev = [], ZERO
            for i in range(k):
                y = sym(fsym("occurrence %d" % (i + 1), 0, BIG))
                x.assume_ge0(sub(y, prev))
                prev = add(y, p)
                at.append(y)
            if k: x.assume_ge0(sub(N, prev))
            x.ts["occ"] = {"text": o[1], "pattern": q[1], "plen": p, "at": tuple(at), "args": (N, p, r)}
            if not x.cons.bot: out.append(x)
        return out

    @S_.fn("strreplace", pre_replace)
    def _(c):
        st = c.st
        o = st.ts["occ"]
        N, p, r = o["args"]
        if st.is_null(c.r) is True:
            if not st.ts.get("allocfail"): c.fail("no result although nothing failed", "none")
            return
        b = st.canon(c.r)
        if b[1][0] != "h" or freed(st, b[1]) or b[2] != ZERO: c.fail("something other than a new string is returned", "new"); return
        k = len(o["at"])
        total = add(N, scale(sub(r, p), k)) if k else N
        size = c.eng.obj_size(st, b[1])
        if size is None or not st.cons.entails_ge0(addc(sub(size, total), -1)): c.fail("the new string has %s bytes, %s are needed" % (show(st.red(size)), show(st.red(addc(total, 1)))), "size"); return
        segs, pos, frm = [], ZERO, ZERO
        rb = st.canon(c.args[2])[1]
        for at in o["at"]:
            segs.append((pos, o["text"], frm, sub(at, frm))); pos = add(pos, sub(at, frm))
            segs.append((pos, rb, ZERO, r)); pos = add(pos, r)
            frm = add(at, p)
        segs.append((pos, o["text"], frm, sub(N, frm)))
        cp = [x for x in st.ts.get("copies", ()) if x[0] == b[1]]
        for n, (pos, src, so, ln) in enumerate(segs):
            if st.cons.entails_le(ln): continue
            # nothing may be written over it afterwards
            hit = [i for i, x in enumerate(cp) if st.cons.entails_eq(sub(x[1], pos)) and x[2] == src and st.cons.entails_eq(sub(x[3], so)) and st.cons.entails_ge0(sub(x[4], ln))]
            if not hit: c.fail("%d occurrences: part %d of the new string is not in its place" % (k, n + 1), "part"); return
            for x in cp[hit[-1] + 1:]:
                if not st.cons.entails_ge0(sub(x[1], add(pos, ln))) and not st.cons.entails_le(x[4]): c.fail("%d occurrences: part %d of the new string is overwritten" % (k, n + 1), "over"); return
        terminated(c, st, b[1], total, "the new string")

    # ---- trim
    def pre_trim(eng, s, f, args):
        n = length(eng, s, args[0])
        s.set_nn(args[1], True)
        t = s.canon(args[0])
        s.ts["trim"] = {"text": t[1], "set": s.canon(args[1])[1], "len": n}
        s.ts["room"] = ((t[1], t[2], addc(n, 1), True),)
        for i in range(4): gset(eng, s, i, ZERO)
        return [s]

    @S_.fn("strtrim", pre_trim)
    def _(c):
        st = c.st
        t = st.ts["trim"]
        n = t["len"]
        front, back, nf, nb = (gget(c.eng, st, i) for i in range(4))
        cp = [x for x in st.ts.get("copies", ()) if x[0] == t["text"]]
        if len(cp) > 1: c.fail("the text is moved more than once", "moves"); return
        if cp:
            i, m = cp[0][3], cp[0][4]
            if cp[0][2] != t["text"] or not st.cons.entails_eq(cp[0][1]): c.fail("something else is moved to the start", "move"); return
        else: i, m = ZERO, None
        # where does the text end now
        if m is None:
            ends = [o for o, (v, sz) in st.mem.get(t["text"], {}).items() if sz == 1 and v[0] == "i" and st.cons.constval(v[1]) == 0]
            m = next((o for o in ends if not any(st.cons.entails_ge0(addc(sub(o, x), -1)) for x in ends if x != o)), None)
            if m is None: c.fail("the text is not terminated", "terminator"); return
        if not terminated(c, st, t["text"], m, "the text"): return
        if st.cons.entails_le(m):
            if not st.cons.entails_ge0(sub(front, n)) and not st.cons.entails_ge0(sub(add(front, back), n)): c.fail("characters that are not to be trimmed are removed (everything)", "all")
            return
        if not st.cons.entails_ge0(addc(m, -1)):
            z = st.copy()
            if z.assume_eq(m) and not z.cons.entails_ge0(sub(front, n)): c.fail("characters that are not to be trimmed are removed (everything)", "all"); return
            if not st.assume_ge0(addc(m, -1)): return
        if not st.cons.entails_ge0(sub(front, i)): c.fail("characters that are not to be trimmed are removed at the start", "front"); return
        if not st.cons.entails_ge0(sub(add(i, m), sub(n, back))): c.fail("characters that are not to be trimmed are removed at the end", "back"); return
        if not st.cons.entails_eq(sub(nf, addc(i, 1))): c.fail("a character that is to be trimmed is left at the start", "front"); return
        if not st.cons.entails_eq(sub(nb, add(i, m))) and not st.cons.entails_eq(addc(m, -1)): c.fail("a character that is to be trimmed is left at the end", "back")

    # ---- split
    def pre_split(eng, s, f, args):
        cap = sym(fsym("capacity", 0, 1 << 32))
        for a in args: s.set_nn(a, True)
        p = s.canon(args[1])
        length(eng, s, args[2])
        eng.store_mem(s, None, p[1], p[2], ("i", cap), 8)
        r = s.canon(args[0])
        s.ts["split"] = {"text": s.canon(args[2])[1], "delim": s.canon(args[3])[1], "cap": cap}
        s.ts["room"] = ((r[1], r[2], scale(cap, 8), False),)
        s.ts["tokens"] = r[1]
        gset(eng, s, 0, ZERO); gset(eng, s, 2, ZERO)
        eng.put_cell(s, GH, const(8), NULL, 8)
        return [s]

    @S_.fn("strsplit", pre_split)
    def _(c):
        st = c.st
        t = st.ts["split"]
        p = st.canon(c.args[1])
        n = gget(c.eng, st, 0)
        v = st.red(c.eng.as_int(st, c.eng.load_mem(st, None, p[1], p[2], 8, ir.int_t(64), False), 64))
        if not c.eq(v, n, "the number of tokens recorded is reported", "number"): return
        if not st.cons.entails_eq(addc(gget(c.eng, st, 2), -2)) and not st.cons.entails_eq(sub(n, t["cap"])): c.fail("tokens are left out although there is room", "left")

    # ---- hex
    def pre_hex(eng, s, f, args):
        for a in (args[0], args[2]): s.set_nn(a, True)
        out = []
        d, src = s.canon(args[0]), s.canon(args[2])
        for x, cap in eng.ucanon(s, s.red(eng.as_int(s, args[1], 64)), 64):
            for y, n in eng.ucanon(x, x.red(eng.as_int(x, args[3], 64)), 64):
                if not need(y, addc(cap, -BIG), addc(n, -BIG), addc(scale(cap, -1), 1)): continue
                y.ts["room"] = ((d[1], d[2], cap, False), (src[1], src[2], n, False))
                y.ts["hex"] = {"one": " %02x", "bytes": src[1], "cap": cap, "count": n}
                gset(eng, y, 0, ZERO); gset(eng, y, 5, const(-1))
                y.ts["ends"] = d[1]
                out.append(y)
        return out

    @S_.fn("str_char2hex", pre_hex)
    def _(c):
        h = c.st.ts["hex"]
        for st, r in c.ret(64):
            g = gget(c.eng, st, 0)
            d = st.canon(c.args[0])
            if not st.cons.entails_eq(sub(gget(c.eng, st, 5), add(d[2], r))): c.fail("the text does not end where the returned length says", "terminator"); continue
            a = st.copy()
            if a.assume_ge0(addc(sub(h["cap"], scale(h["count"], 3)), -1)):
                if not a.cons.entails_eq(sub(a.red(g), h["count"])): c.fail("bytes are left out although there is room", "left"); continue
                if not a.cons.entails_eq(sub(a.red(r), scale(h["count"], 3))): c.fail("another length is returned", "length"); continue
            if not st.cons.entails_ge0(sub(h["count"], g)): c.fail("more bytes are written than there are", "more")

    # ---- string builder
    class B:
        def __init__(self, eng, st, base): self.o = Ob(eng, st, mod_of(eng, SB), base, "stringbuilder")

    def builder(eng, s, p):
        """a builder holding any text"""
        s.set_nn(p, True)
        q = s.canon(p)
        return builder_at(eng, s, q[1], q[2])

    def builder_at(eng, s, base, off=ZERO):
        o = Ob(eng, s, mod_of(eng, SB), base, "stringbuilder", off)
        bb = heap(eng, s, "buffer", 0)
        cap, n = sym(fsym("allocated", 2, BIG)), sym(fsym("length", 0, BIG))
        s.assume_ge0(addc(sub(cap, n), -1))
        s.setobj(bb, size=cap)
        o.set(s, "buffer", ("p", bb, ZERO)); o.set(s, "allocated", ("i", cap)); o.set(s, "length", ("i", n))
        eng.put_cell(s, bb, n, I(0), 1)
        s.ts["sb"] = s.ts.get("sb", frozenset())
        s.ts["builder"] = {"base": base, "off": off, "buf": bb, "cap": cap, "len": n}
        s.ts["room"] = ((bb, ZERO, cap, False),)
        return o

    def sound(c, st, n, what):
        """the builder is consistent and holds n characters; returns its buffer"""
        t = st.ts["builder"]
        o = Ob(c.eng, st, mod_of(c.eng, SB), t["base"], "stringbuilder", t["off"])
        b = o.p(st, "buffer")
        if b[1][0] != "h" or freed(st, b[1]) or b[2] != ZERO: c.fail("%s: the builder has no buffer" % what, "buffer"); return None
        if not c.eq(o.i(st, "length"), n, "%s: length of the text" % what, "length", st=st): return None
        size = c.eng.obj_size(st, b[1])
        al = o.i(st, "allocated")
        if size is None or not st.cons.entails_ge0(sub(size, al)): c.fail("%s: the buffer is smaller than the builder believes" % what, "size"); return None
        if not st.cons.entails_ge0(addc(sub(al, n), -1)): c.fail("%s: no room for the terminator" % what, "room"); return None
        if not terminated(c, st, b[1], n, "%s: the text" % what): return None
        return b[1]

    def with_builder(also=None):
        def pre(eng, s, f, args):
            builder(eng, s, args[0])
            return also(eng, s, args) if also else [s]
        return pre

    def kept(c, st, what):
        t = st.ts["builder"]
        b = sound(c, st, t["len"], what)
        return b

    def moved(c, st, b, what):
        """the old text is in the buffer"""
        t = st.ts["builder"]
        if b == t["buf"]: return True
        if not freed(st, t["buf"]): c.fail("%s: the old buffer is kept" % what, "old"); return False
        if st.objs.get(b, {}).get("from_realloc") == t["buf"]: return True
        for x in st.ts.get("moves", ()):
            if x == (t["buf"], b): return True
        for x in st.ts.get("copies", ()):
            if x[0] == b and x[2] == t["buf"] and st.cons.entails_eq(x[1]) and st.cons.entails_eq(x[3]) and st.cons.entails_ge0(sub(x[4], t["len"])): return True
        c.fail("%s: the old text is lost" % what, "lost")
        return False

    def results(c):
        for st, r in c.ret(32, True):
            v = st.cons.constval(r)
            for k in ((v,) if v is not None else (0, None)):
                x = st.copy()
                if k == 0 and v is None:
                    if not x.assume_eq(r): continue
                elif k is None:
                    for y in (st.copy(), st.copy()):
                        if y.assume_ge0(addc(r, -1)) if y is not st else False: yield y, 1
                    x = st.copy()
                    if not x.assume_le(addc(r, 1)): continue
                    k = -1
                yield x, k

    def appended(what, size, content, allow=None):
        def post(c):
            for st, r in results(c):
                t = st.ts["builder"]
                if r != 0:
                    kept(c, st, what + " fails")
                    if allow and not st.ts.get("allocfail") and not allow(c, st): c.fail("%s is refused although nothing failed" % what, "refused")
                    continue
                for s2, n in size(c, st):
                    b = sound(c, s2, add(t["len"], n), what)
                    if b is None or not moved(c, s2, b, what): continue
                    content(c, s2, b, n)
        return post

    def char_content(c, st, b, n):
        t = st.ts["builder"]
        v = c.eng.load_mem(st, None, b, t["len"], 1, ir.int_t(8), False)
        d = st.red(sub(c.eng.as_int(st, v, 8), c.eng.as_int(st, c.args[1], 8)))
        if not (st.cons.entails_eq(d) or is_const(d) and d[0] % 256 == 0): c.fail("another character is appended", "content")

    def str_content(c, st, b, n):
        t, p = st.ts["builder"], st.canon(c.args[1])
        for x in st.ts.get("copies", ()):
            if x[0] == b and x[2] == p[1] and st.cons.entails_eq(sub(x[1], t["len"])) and st.cons.entails_eq(sub(x[3], p[2])) and st.cons.entails_ge0(sub(x[4], n)): return
        c.fail("something other than the text is appended", "content")

    S_.add("stringbuilder_appendchar", with_builder(), appended("appending a character", lambda c, st: [(st, const(1))], char_content, lambda c, st: False))

    def pre_str(eng, s, args):
        length(eng, s, args[1])
        return [s]

    def slen(c, st): return models.slen_of(c.eng, st, None, c.args[1])

    def nothing(c, st): return st.cons.entails_le(slen(c, st))
    S_.add("stringbuilder_appendstr", with_builder(pre_str), appended("appending a text", lambda c, st: [(st, slen(c, st))], str_content, nothing))

    def pre_nstr(eng, s, args):
        out = []
        n = length(eng, s, args[1])
        b = s.canon(args[1])
        for x, m in eng.ucanon(s, s.red(eng.as_int(s, args[2], 64)), 64):
            for short in (True, False):
                y = x.copy()
                if not (y.assume_le(sub(n, m)) if short else y.assume_ge0(addc(sub(n, m), -1))): continue
                y.ts["spec"] = (short,)
                y.ts["nstr"] = m
                # what may be read: the text with its terminator, or its first m characters
                z = y.copy()
                if z.assume_eq(m):
                    out.append(z)
                    z.ts["spec"] = (short, 0)
                if not y.assume_ge0(addc(m, -1)): continue
                y.ts["room"] = y.ts["room"] + ((b[1], b[2], addc(n, 1) if short else m, False),)
                out.append(y)
        return out

    def nlen(c, st):
        m, L = st.ts["nstr"], slen(c, st)
        out = []
        z = st.copy()
        if z.assume_eq(m): out.append((z, z.red(L)))
        z = st.copy()
        if z.assume_ge0(addc(m, -1)) and z.assume_le(sub(L, m)): out.append((z, z.red(L)))
        z = st.copy()
        if z.assume_ge0(addc(m, -1)) and z.assume_ge0(addc(sub(L, m), -1)): out.append((z, m))
        return out
    S_.add("stringbuilder_appendnstr", with_builder(pre_nstr), appended("appending a part of a text", nlen, str_content, nothing))

    def pre_fmt(eng, s, args):
        length(eng, s, args[1])
        s.ts["format"] = {"fmt": s.canon(args[1])[1], "len": sym(fsym("formatted length", 0, (1 << 31) - 1))}
        return [s]

    def fmt_content(c, st, b, n):
        t = st.ts["builder"]
        if st.ts.get("fmtok") is not True: c.fail("success is reported although formatting failed", "format"); return
        fm = [x for x in st.ts.get("fmts", ()) if x[0] == b]
        if not fm or fm[-1][1] == "cut" or not st.cons.entails_eq(sub(fm[-1][1], t["len"])): c.fail("the formatted text is not appended in full", "content")

    def no_text(c, st): return st.ts.get("fmtok") is not True or st.cons.entails_le(st.ts["format"]["len"])
    S_.add("stringbuilder_appendf", with_builder(pre_fmt), appended("appending a formatted text", lambda c, st: [(st, st.ts["format"]["len"])], fmt_content, no_text))

    @S_.fn("stringbuilder_clear", with_builder())
    def _(c):
        for st, r in results(c):
            if r != 0: c.fail("clearing is refused", "refused")
            else: sound(c, st, ZERO, "clearing")

    @S_.fn("stringbuilder_len", with_builder())
    def _(c):
        if kept(c, c.st, "asking") is None: return
        for st, r in c.ret(64): c.eq(r, st.ts["builder"]["len"], "the length is returned", "length", st=st)

    @S_.fn("stringbuilder_to_string", with_builder())
    def _(c):
        b = kept(c, c.st, "asking")
        if b is not None and (c.st.canon(c.r)[1] != b or c.st.canon(c.r)[2] != ZERO): c.fail("another text is returned", "text")

    @S_.fn("stringbuilder_create", None)
    def _(c):
        st = c.st
        if st.is_null(c.r) is True:
            if not st.ts.get("allocfail"): c.fail("no builder although nothing failed", "none")
            return
        q = st.canon(c.r)
        st.ts["builder"] = {"base": q[1], "off": q[2]}
        b = sound(c, st, ZERO, "a new builder")
        if b is None: return
        al = Ob(c.eng, st, mod_of(c.eng, SB), q[1], "stringbuilder", q[2]).i(st, "allocated")
        if not st.cons.entails_ge0(addc(al, -1)): c.fail("a new builder without room", "room")

    def pre_destroy(eng, s, f, args):
        s.set_nn(args[0], True)
        p = s.canon(args[0])
        b = heap(eng, s, "builder", size_of(mod_of(eng, SB), "stringbuilder"))
        builder_at(eng, s, b)
        eng.store_mem(s, None, p[1], p[2], ("p", b, ZERO), 8)
        return [s]

    @S_.fn("stringbuilder_destroy", pre_destroy)
    def _(c):
        st, t = c.st, c.st.ts["builder"]
        if not freed(st, t["base"]) or not freed(st, t["buf"]): c.fail("a part of the builder is not released", "kept")
        p = st.canon(c.args[0])
        if st.is_null(c.eng.load_mem(st, None, p[1], p[2], 8, ir.PTR)) is not True: c.fail("the caller's handle is not cleared", "handle")
    return S_


class Moves(Client):
    """blocks that took over the content of another one"""
    name = "moves"

    def on_realloc(self, eng, st, ins, old, new): st.ts["moves"] = st.ts.get("moves", ()) + ((old, new),)


CLIENTS = [Text, Moves]
OPTS = {"merge_cap": 100, "ret_cap": 100, "loop_entry_cap": 64, "loop_parts": 100, "unroll": 8, "enumerate": 0, "snprintf_fails": False}
