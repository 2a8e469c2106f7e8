"""P19: Base64 encoding and decoding character by character.

The source is cut into groups of three bytes (four characters). Ghost cell 0 counts the groups whose characters are in place, cell 1
is the set of characters of the current group that are. Each stored byte is a term over the loaded source bytes (shifts, masks,
disjunctions, constant tables); the finite function it denotes is tabulated and compared with the specified one."""
from . import ir
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import I, Client, fsym
from .spec import Specs, need
from .p_str import gget, gset

MAXLEN = 1 << 30
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
VAL = {c: i for i, c in enumerate(ALPHA)}
ENC = (lambda a, b, c: ALPHA[a >> 2], lambda a, b, c: ALPHA[(a & 3) << 4 | b >> 4], lambda a, b, c: ALPHA[(b & 15) << 2 | c >> 6], lambda a, b, c: ALPHA[c & 63])
ENC_OF = ((0,), (0, 1), (1, 2), (2,))
DEC = (lambda a, b, c, d: (VAL[a] << 2 | VAL[b] >> 4) & 255, lambda a, b, c, d: (VAL[b] << 4 | VAL[c] >> 2) & 255, lambda a, b, c, d: (VAL[c] << 6 | VAL[d]) & 255)
DEC_OF = ((0, 1), (1, 2), (2, 3))


class Unknown(Exception): pass


def code(eng, e, src, leaves, tabs, w=64):
    """the term of expression e as Python source; leaves: symbol -> name of the loaded source byte"""
    out = [str(e[0])]
    for s, k in e[1]:
        if s in leaves: t = leaves[s]
        else:
            key = S.keys[s]
            c = lambda x: code(eng, x, src, leaves, tabs)
            if key[0] == "init" and key[1] == src and key[4] == 1:
                leaves[s] = "x%d" % len(leaves); t = leaves[s]
            elif key[0] == "div": t = "((%s)//%d)" % (c(key[1]), key[2])
            elif key[0] == "and" and len(key) == 3: t = "((%s)&%d)" % (c(key[1]), key[2])
            elif key[0] in ("and", "or", "xor") and len(key) == 4: t = "((%s)%s(%s))" % (c(key[2]), {"and": "&", "or": "|", "xor": "^"}[key[0]], c(key[3]))
            elif key[0] == "urem": t = "((%s)%%(%s))" % (c(key[2]), c(key[3]))
            elif key[0] == "tab":
                g = eng.find_global(key[1])
                n = "t%d" % len(tabs)
                size = g.ty.el.w // 8
                tabs[n] = [x for x in eng.global_elems(g, g.ty.el.w)]
                t = "%s[(%s)//%d]" % (n, c(key[2]), size)
            else: raise Unknown(S.name(s))
        out.append("%d*%s" % (k, t))
    return "+".join(out)


def bits(eng, e, src, dec):
    """the bits of a non-negative expression, lowest first: 0, 1 or (symbol, bit of it)"""
    for s, k in e[1]:
        key = S.keys[s]
        if key[0] == "div" and k == -key[2] and key[2] & (key[2] - 1) == 0 and add(key[1], scale(sym(s), k)) == e:      # remainder
            return bits(eng, key[1], src, dec)[:key[2].bit_length() - 1]
    if e[0] < 0: raise Unknown()
    out = [int(c) for c in bin(e[0])[:1:-1]]
    for s, k in e[1]:
        if k <= 0 or k & (k - 1): raise Unknown()
        out = merge(out, [0] * (k.bit_length() - 1) + sbits(eng, s, src, dec))
    return out


def merge(a, b):
    n = max(len(a), len(b))
    a, b = a + [0] * (n - len(a)), b + [0] * (n - len(b))
    if any(x != 0 and y != 0 for x, y in zip(a, b)): raise Unknown()
    return [x if y == 0 else y for x, y in zip(a, b)]


def sbits(eng, s, src, dec):
    key = S.keys[s]
    if key[0] == "init" and key[1] == src and key[4] == 1:
        if S.info[s][1] != 0: raise Unknown()
        return [(s, i) for i in range(8)]
    if key[0] == "tab" and dec: return [(s, i) for i in range(6)]       # of a character of the alphabet
    if key[0] == "div" and key[2] & (key[2] - 1) == 0: return bits(eng, key[1], src, dec)[key[2].bit_length() - 1:]
    if key[0] == "and" and len(key) == 3: return [x if key[2] >> i & 1 else 0 for i, x in enumerate(bits(eng, key[1], src, dec))]
    if key[0] in ("or", "xor") and len(key) == 4: return merge(bits(eng, key[2], src, dec), bits(eng, key[3], src, dec))
    raise Unknown()


def slim(eng, e, src, dec, n, leaves, tabs):
    """the lowest n bits of e, mentioning only the source bytes they come from"""
    out = []
    for i, x in enumerate(bits(eng, e, src, dec)[:n]):
        if x == 0 or x == 1: out.append(str(x << i))
        else: out.append("(((%s)>>%d&1)<<%d)" % (code(eng, sym(x[0]), src, leaves, tabs), x[1], i))
    return "+".join(out) or "0"


_table = {}


class Base64(Client):
    name = "base64"
    rule = "codec"

    def fail(self, eng, st, ins, what, key=None):
        eng.report("spec", st, ins, self.rule, "%s: %s" % (ins.fn.name, what), key=key or what)

    def key(self, ts): return ts.get("b64mask")

    def on_range(self, eng, st, ins, b, off, ln, write, what):
        t = st.ts.get("b64")
        if t and write and b == t["dst"] and ins is not None and not (ln is not None and st.cons.entails_le(ln)):
            self.fail(eng, st, ins, "the output is written as a block (%s)" % what, "block")

    def on_access(self, eng, st, ins, b, off, size, write, val=None):
        t = st.ts.get("b64")
        if not t or not write or b != t["dst"] or ins is None: return
        j, mask = gget(eng, st, 0), gget(eng, st, 1)
        rel = st.red(sub(off, t["at"]))
        r = st.cons.constval(st.red(sub(rel, scale(j, t["out"]))))
        if size != 1 or val is None or val[0] != "i" or r is None or not is_const(mask):
            return self.fail(eng, st, ins, "a character is not written behind those already there (at %s, %s groups done)" % (show(rel), show(j)), "place")
        v = st.red(eng.as_int(st, val, 8))
        done = bin(mask[0]).count("1")
        if st.cons.constval(v) is not None and st.cons.constval(v) % 256 == 0 and r == done and mask[0] == (1 << done) - 1 and not self.more(st, t, j, r):
            gset(eng, st, 2, rel)
            return
        if r < 0 or r >= t["out"] or mask[0] >> r & 1:
            return self.fail(eng, st, ins, "a character is not written behind those already there (at %s, %s groups done)" % (show(rel), show(j)), "place")
        gset(eng, st, 2, const(-1))
        self.content(eng, st, ins, t, j, r, v)
        m = mask[0] | 1 << r
        if m == (1 << t["out"]) - 1: m = 0; gset(eng, st, 0, addc(j, 1))
        gset(eng, st, 1, const(m))
        st.ts["b64mask"] = m

    def more(self, st, t, j, r):
        """is there still something to be written at place r of group j?"""
        if t["kind"] == "dec":      # needs the characters of DEC_OF[r]
            return r < 3 and st.cons.entails_ge0(sub(t["n"], addc(scale(j, 4), DEC_OF[r][1] + 1)))
        return r != 0 or st.cons.entails_ge0(addc(sub(t["n"], scale(j, 3)), -1))

    def content(self, eng, st, ins, t, j, r, v):
        per, of, fn = (3, ENC_OF, ENC) if t["kind"] == "enc" else (4, DEC_OF, DEC)
        base = scale(j, per)
        have = lambda s, k: s.cons.entails_ge0(sub(t["n"], addc(base, k + 1)))
        lack = lambda s, k: s.cons.entails_ge0(sub(addc(base, k), t["n"]))
        if t["kind"] == "dec":
            for k in of[r]:
                if not have(st, k): return self.fail(eng, st, ins, "a byte is decoded from characters that are not part of the text", "beyond")
            return self.value(eng, st, ins, t, base, r, v, of[r], fn[r])
        if not have(st, 0): return self.fail(eng, st, ins, "a character is written for bytes that are not there", "beyond")
        states = [st]
        for k in (1, 2):
            nx = []
            for s in states:
                if have(s, k) or lack(s, k): nx.append(s); continue
                for yes in (True, False):
                    x = s.copy()
                    if x.assume_ge0(sub(t["n"], addc(base, k + 1))) if yes else x.assume_ge0(sub(addc(base, k), t["n"])): nx.append(x)
            states = nx
        for s in states:
            w = s.red(v)
            there = [k for k in (0, 1, 2) if have(s, k)]
            need_ = [k for k in of[r] if k in there]
            if not need_ or (r == 3 and 2 not in there):
                if s.cons.constval(w) is None or s.cons.constval(w) % 256 != 61: self.fail(eng, s, ins, "the last group is not filled up with '='", "padding")
                continue
            self.value(eng, s, ins, t, base, r, w, need_, fn[r])

    def value(self, eng, st, ins, t, base, r, v, bytes_, want):
        bad = lambda: self.fail(eng, st, ins, "character %d of a group is not the one its source says" % r if t["kind"] == "enc" else "byte %d of a group is not the one its characters say" % r, "value%d" % r)
        leaves, tabs = {}, {}
        try:
            src = code(eng, v, t["src"], leaves, tabs)
            if len(leaves) > len(bytes_):       # bits of other bytes are shifted or masked out again
                leaves, tabs, k = {}, {}, S.keys[v[1][0][0]]
                if t["kind"] == "dec": src = slim(eng, v, t["src"], True, 8, leaves, tabs)
                elif k[0] == "tab" and v == sym(v[1][0][0]):
                    tabs["t"] = eng.global_elems(eng.find_global(k[1]), 8)
                    src = "t[%s]" % slim(eng, k[2], t["src"], False, 64, leaves, tabs)
        except Unknown: return bad()
        arg, dom, names = {}, {}, []
        for s, n in leaves.items():
            d = st.cons.constval(st.red(sub(sub(S.keys[s][2], t["from"]), base)))
            if d is None or d not in bytes_: return bad()
            lo, hi = st.cons.bounds(sym(s))
            vals = []
            for c in (range(256) if t["kind"] == "enc" else ALPHA):
                x = c if (lo is None or c >= lo) and (hi is None or c <= hi) else c - 256
                if (lo is None or x >= lo) and (hi is None or x <= hi): vals.append((c, x))
            if d in arg: return bad()        # one byte, one symbol
            arg[d] = n; dom[d] = vals
        for d in bytes_:
            if d not in arg: arg[d], dom[d] = "x%d" % len(arg), [(c, c) for c in (range(256) if t["kind"] == "enc" else ALPHA)]
        key = (src, repr(sorted(tabs.items())), t["kind"], r, tuple(bytes_), tuple(sorted((d, n) for d, n in arg.items())), tuple(sorted((d, x[0] if x else None, x[-1] if x else None, len(x)) for d, x in dom.items())))
        ok = _table.get(key)
        if ok is None:
            f = eval("lambda %s: %s" % (",".join(arg[d] for d in bytes_), src), dict(tabs))
            ok = True
            full = [0] * (3 if t["kind"] == "enc" else 4)
            try:
                for c0, x0 in dom[bytes_[0]]:
                    full[bytes_[0]] = c0
                    if len(bytes_) == 1: ok = f(x0) % 256 == want(*full)
                    else:
                        for c1, x1 in dom[bytes_[1]]:
                            full[bytes_[1]] = c1
                            if f(x0, x1) % 256 != want(*full): ok = False; break
                    if not ok: break
            except (IndexError, ZeroDivisionError, KeyError): ok = False
            _table[key] = ok
        if not ok: bad()

    def on_branch(self, eng, st, ins, cond, taken):
        """a character found to be (not) one of the alphabet lies in (behind) the text"""
        t = st.ts.get("b64")
        if not t or t["kind"] != "dec": return
        for v, off, b, size in st.ts.get("tab", ()):
            e = st.red(off) if len(off[1]) != 1 else off
            if len(e[1]) != 1: continue
            k = S.keys[e[1][0][0]]
            if k[0] != "init" or k[1] != t["src"]: continue
            lo, hi = st.cons.bounds(v)
            pos = st.red(sub(k[2], t["from"]))
            el = eng.global_elems(eng.find_global(b), 8 * size)
            # what the table says about characters of the alphabet, and about the others
            inside, outside = {el[c] for c in ALPHA}, {x for i, x in enumerate(el) if i not in VAL}
            poss = lambda xs: any((lo is None or x >= lo) and (hi is None or x <= hi) for x in xs)
            i, o = poss(inside), poss(outside)
            if i and not o: st.assume_ge0(addc(sub(t["n"], pos), -1))
            elif o and not i and st.cons.entails_ge0(sub(t["n"], pos)): st.assume_eq(sub(t["n"], pos))


SAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.-*_")
HEX = b"0123456789ABCDEF"
DIGIT = {c: int(chr(c), 16) for c in b"0123456789abcdefABCDEF"}
ESC = frozenset(range(256)) - SAFE - {32}


class Url(Client):
    """Ghost cell 0: source bytes done, cell 1: output bytes in place, cell 2: place inside an escape. For the source bytes looked at
    since then, the set of values the branches taken leave open is kept (and keeps states apart)."""
    name = "url"
    rule = "codec"

    def fail(self, eng, st, ins, what, key=None):
        Base64.fail(self, eng, st, ins, what, key)
        st.assume_eq(const(1))          # nothing more to be learnt on this path

    def key(self, ts):
        d = ts.get("adm")
        return repr((sorted((k, hash(v)) for k, v in d.items()), ts.get("urlsub"))) if d or ts.get("urlsub") else None

    def leaf(self, eng, st, k):
        """the loaded source byte k behind those done: symbol"""
        t = st.ts["url"]
        at = add(t["from"], addc(gget(eng, st, 0), k))
        for o, (v, sz) in st.mem.get(t["src"], {}).items():
            if sz == 1 and v[0] == "i" and len(v[1][1]) == 1 and v[1][0] == 0 and st.cons.entails_eq(sub(o, at)): return v[1][1][0][0]
        return None

    def values(self, eng, st, s):
        """byte -> value of the symbol, for all values still possible"""
        adm = st.ts.get("adm", {}).get(s)
        lo, hi = st.cons.bounds(sym(s))
        no = {-d[0] * d[1][0][1] for d in st.cons.ne if len(d[1]) == 1 and d[1][0][0] == s and abs(d[1][0][1]) == 1}
        out = {}
        for c in (range(256) if adm is None else adm):
            x = c if (lo is None or c >= lo) and (hi is None or c <= hi) else c - 256
            if (lo is None or x >= lo) and (hi is None or x <= hi) and x not in no: out[c] = x
        for v, off, b, size in st.ts.get("tab", ()):
            if len(off[1]) != 1 or S.keys[v[1][0][0]][0] != "tab": continue
            leaves, tabs = {}, {}
            try: f = code(eng, v, st.ts["url"]["src"], leaves, tabs)
            except Unknown: continue
            if list(leaves) != [s]: continue
            l, h = st.cons.bounds(v)
            f = eval("lambda x0: " + f, dict(tabs))
            ok = {}
            for c, x in out.items():
                try: y = f(x)
                except IndexError: continue
                if (l is None or y >= l) and (h is None or y <= h): ok[c] = x
            out = ok
        return out

    def refine(self, eng, st):
        adm = {}
        for k in range(3):
            s = self.leaf(eng, st, k)
            if s is None: continue
            a = frozenset(self.values(eng, st, s))
            if len(a) < 256: adm[s] = a
        st.ts["adm"] = adm

    def on_branch(self, eng, st, ins, cond, taken):
        if st.ts.get("url") and not st.cons.bot: self.refine(eng, st)

    def on_range(self, eng, st, ins, b, off, ln, write, what):
        t = st.ts.get("url")
        if t and write and b == t["dst"] and ins is not None and not (ln is not None and st.cons.entails_le(ln)):
            self.fail(eng, st, ins, "the output is written as a block (%s)" % what, "block")

    def advance(self, eng, st, n):
        gset(eng, st, 0, addc(gget(eng, st, 0), n))
        gset(eng, st, 2, ZERO)
        st.ts["adm"] = {}
        st.ts["urlsub"] = 0

    def table(self, eng, st, v, which, want):
        """does v denote the wanted function of the source bytes which (indexes behind those done)?"""
        t = st.ts["url"]
        syms = [self.leaf(eng, st, k) for k in which]
        if None in syms: return False
        leaves, tabs = {}, {}
        try: src = code(eng, v, t["src"], leaves, tabs)
        except Unknown: return False
        if not set(leaves) <= set(syms): return False
        dom = [self.values(eng, st, s) for s in syms]
        f = eval("lambda %s: %s" % (",".join(leaves.get(s, "_%d" % i) for i, s in enumerate(syms)), src), dict(tabs))
        try:
            if len(which) == 1: return all(f(x) % 256 == want(c) for c, x in dom[0].items())
            return all(f(x, y) % 256 == want(c, d) for c, x in dom[0].items() for d, y in dom[1].items())
        except (IndexError, KeyError, ZeroDivisionError): return False

    def on_access(self, eng, st, ins, b, off, size, write, val=None):
        t = st.ts.get("url")
        if not t or not write or b != t["dst"] or ins is None: return
        i, o, sb = gget(eng, st, 0), gget(eng, st, 1), gget(eng, st, 2)
        if size != 1 or val is None or val[0] != "i" or not st.cons.entails_eq(sub(sub(off, t["at"]), o)):
            return self.fail(eng, st, ins, "a character is not written behind those already there (at %s, %s there)" % (show(st.red(sub(off, t["at"]))), show(o)), "place")
        v = st.red(eng.as_int(st, val, 8))
        if st.cons.constval(v) == 0 and sb == ZERO:
            gset(eng, st, 3, o)                 # the end, unless more follows
            if not t["dec"]: return
            s = self.leaf(eng, st, 0)
            if s is None: return
            if not st.cons.entails_ge0(addc(sub(t["n"], i), -1)): return
            if not self.values(eng, st, s).keys() & {37}: return
            if not st.cons.entails_ge0(sub(t["n"], addc(i, 3))): return
        gset(eng, st, 3, const(-1))
        s = self.leaf(eng, st, 0)
        if s is None or not st.cons.entails_ge0(addc(sub(t["n"], i), -1)): return self.fail(eng, st, ins, "a character is written for a source byte not looked at", "nothing")
        c = set(self.values(eng, st, s))
        (self.decoded if t["dec"] else self.encoded)(eng, st, ins, t, i, o, sb, v, c)

    def encoded(self, eng, st, ins, t, i, o, sb, v, c):
        gset(eng, st, 1, addc(o, 1))
        if sb == ZERO:
            if not self.table(eng, st, v, (0,), lambda x: 37 if x in ESC else 43 if x == 32 else x): return self.fail(eng, st, ins, "a byte is not encoded as it should be", "value")
            if not c & ESC: self.advance(eng, st, 1)
            elif c <= ESC: gset(eng, st, 2, const(1)); st.ts["urlsub"] = 1
            else: self.fail(eng, st, ins, "bytes that are to be escaped and others are not told apart", "mixed")
        elif sb == const(1):
            if not self.table(eng, st, v, (0,), lambda x: HEX[x >> 4]): return self.fail(eng, st, ins, "the first digit of an escape is not the one of the byte", "high")
            gset(eng, st, 2, const(2)); st.ts["urlsub"] = 2
        else:
            if not self.table(eng, st, v, (0,), lambda x: HEX[x & 15]): return self.fail(eng, st, ins, "the second digit of an escape is not the one of the byte", "low")
            self.advance(eng, st, 1)

    def decoded(self, eng, st, ins, t, i, o, sb, v, c):
        gset(eng, st, 1, addc(o, 1))
        if c == {37}:
            if not st.cons.entails_ge0(sub(t["n"], addc(i, 3))): return self.fail(eng, st, ins, "an escape is decoded that is not complete", "beyond")
            for k in (1, 2):
                s = self.leaf(eng, st, k)
                if s is None or not set(self.values(eng, st, s)) <= set(DIGIT): return self.fail(eng, st, ins, "an escape is decoded although its digits are not hexadecimal", "digits")
            if not self.table(eng, st, v, (1, 2), lambda x, y: DIGIT[x] << 4 | DIGIT[y]): return self.fail(eng, st, ins, "an escape is not decoded to its byte", "escape")
            return self.advance(eng, st, 3)
        if not c <= SAFE | {43}: return self.fail(eng, st, ins, "a character that may not occur is decoded", "character")
        if not self.table(eng, st, v, (0,), lambda x: 32 if x == 43 else x): return self.fail(eng, st, ins, "a character is not decoded as it should be", "value")
        self.advance(eng, st, 1)


def p19():
    S_ = Specs("codec")

    def pre_enc(eng, s, f, args):
        out = []
        s.set_nn(args[0], True); s.set_nn(args[1], True)
        d, src = s.canon(args[0]), s.canon(args[1])
        for x, n in eng.ucanon(s, s.red(eng.as_int(s, args[2], 64)), 64):
            if not x.assume_le(addc(n, -MAXLEN)): continue
            for i in range(3):
                gset(eng, x, i, const(-1) if i == 2 else ZERO)
            x.ts["b64"] = {"kind": "enc", "dst": d[1], "at": d[2], "src": src[1], "from": src[2], "n": n, "out": 4}
            x.ts["b64mask"] = 0
            out.append(x)
        return out

    @S_.fn("lcu_base64_encode", pre_enc)
    def _(c):
        n = c.st.ts["b64"]["n"]
        for st, r in c.ret(32, True):
            j, m, end = (gget(c.eng, st, i) for i in range(3))
            a = st.copy()
            if a.assume_le(addc(r, 1)):      # refused
                if not a.cons.entails_le(addc(n, -1)): c.fail("bytes are refused", "refused")
                continue
            if m != ZERO or not st.cons.entails_ge0(sub(scale(j, 3), n)): c.fail("bytes are left out", "left"); continue
            if not st.cons.entails_eq(sub(end, scale(j, 4))): c.fail("the encoded text is not terminated", "terminator"); continue
            c.eq(r, addc(scale(j, 4), 1), "the size of the encoded text is returned", "size", st=st)

    def pre_dec(eng, s, f, args):
        s.set_nn(args[0], True); s.set_nn(args[1], True)
        d, src = s.canon(args[0]), s.canon(args[1])
        n = sym(fsym("characters", 0, MAXLEN))
        for i in range(3): gset(eng, s, i, const(-1) if i == 2 else ZERO)
        s.ts["b64"] = {"kind": "dec", "dst": d[1], "at": d[2], "src": src[1], "from": src[2], "n": n, "out": 3}
        s.ts["b64mask"] = 0
        return [s]

    @S_.fn("lcu_base64_decode", pre_dec)
    def _(c):
        n = c.st.ts["b64"]["n"]
        for st, r in c.ret(32, True):
            j, m, end = (gget(c.eng, st, i) for i in range(3))
            if not is_const(m) or m[0] not in (0, 1, 3): c.fail("bytes are left out in the middle", "left"); continue
            cnt = addc(scale(j, 3), bin(m[0]).count("1"))
            over = sub(scale(n, 3), scale(cnt, 4))
            if not st.cons.entails_ge0(over) or not st.cons.entails_le(addc(over, -3)): c.fail("bytes are left out at the end", "left"); continue
            if not st.cons.entails_eq(sub(end, cnt)): c.fail("the decoded bytes are not terminated", "terminator"); continue
            for k in range(5):      # characters behind the last whole group of four read
                x = st.copy()
                if x.assume_eq(addc(sub(n, scale(j, 4)), -k)): c.eq(r, cnt, "the number of decoded bytes is returned", "size", st=x)

    def pre_size(eng, s, f, args):
        out = []
        for x, n in eng.ucanon(s, s.red(eng.as_int(s, args[0], 64)), 64):
            if not x.assume_le(addc(n, -MAXLEN)): continue
            x.ts["n"] = n
            out.append(x)
        return out

    def size_of(name, a, b):
        """a characters or bytes for each started group of b, and the terminator"""
        @S_.fn(name, pre_size)
        def _(c):
            for st, r in c.ret(32, True):
                m, n = addc(r, -1), c.st.ts["n"]
                d = sub(scale(m, b), scale(n, a))
                if not st.cons.entails_ge0(d) or not st.cons.entails_le(addc(d, -a * (b - 1))): c.fail("not the size of the text and its terminator (%s for %s)" % (show(st.red(r)), show(n)), "size"); continue
                q = st.red(m)
                if q[0] % a or any(k % a for _, k in q[1]): c.fail("not a number of whole groups (%s)" % show(q), "groups")

    size_of("lcu_base64_encode_buf_size", 4, 3)
    size_of("lcu_base64_decode_buf_size", 3, 4)
    def pre_url(dec):
        def pre(eng, s, f, args):
            out = []
            s.set_nn(args[0], True); s.set_nn(args[2], True)
            d, src = s.canon(args[0]), s.canon(args[2])
            for x, cap in eng.ucanon(s, s.red(eng.as_int(s, args[1], 64)), 64):
                for y, n in eng.ucanon(x, x.red(eng.as_int(x, args[3], 64)), 64):
                    if not need(y, addc(cap, -MAXLEN), addc(n, -MAXLEN)): continue
                    for i in range(4): gset(eng, y, i, const(-1) if i == 3 else ZERO)
                    y.ts["url"] = {"dec": dec, "dst": d[1], "at": d[2], "src": src[1], "from": src[2], "n": n, "cap": cap}
                    y.ts["adm"] = {}; y.ts["urlsub"] = 0
                    if not dec: out.append(y); continue
                    for there in (True, False):
                        z = y.copy()
                        if z.set_nn(args[4], there): out.append(z)
            return out
        return pre

    def open_(c, st, k):
        """the values source byte k behind those done may have"""
        s = URL.leaf(c.eng, st, k)
        return set(URL.values(c.eng, st, s)) if s is not None else set(range(256))

    @S_.fn("lcu_url_encode", pre_url(False))
    def _(c):
        t = c.st.ts["url"]
        for st, r in c.ret(32, True):
            i, o, sb, end = (gget(c.eng, st, k) for k in range(4))
            a = st.copy()
            if a.assume_le(addc(r, 1)):
                n, cap = t["n"], t["cap"]
                y = a.copy()
                # something to do, and room for a character and the terminator
                if not (y.assume_ge0(addc(n, -1)) and y.assume_ge0(addc(cap, -2))): continue
                if not y.cons.entails_ge0(addc(sub(n, i), -1)): c.fail("an error is returned although everything is encoded", "error"); continue
                if not y.cons.entails_le(sub(cap, addc(o, 1))):
                    if not y.cons.entails_le(sub(cap, addc(o, 3))) or not open_(c, y, 0) <= ESC: c.fail("an error is returned although there is room", "error")
                continue
            if not st.assume_ge0(r): continue
            if sb != ZERO or not st.cons.entails_eq(sub(i, t["n"])): c.fail("bytes are left out", "left"); continue
            if not st.cons.entails_eq(sub(end, o)): c.fail("the encoded text is not terminated", "terminator"); continue
            c.eq(r, o, "the length of the encoded text is returned", "size", st=st)

    @S_.fn("lcu_url_decode", pre_url(True))
    def _(c):
        t = c.st.ts["url"]
        for st, r in c.ret(32, True):
            i, o, sb, end = (gget(c.eng, st, k) for k in range(4))
            n, cap = t["n"], t["cap"]
            a = st.copy()
            if a.assume_le(addc(r, 1)):
                if not (a.assume_ge0(addc(n, -1)) and a.assume_ge0(addc(cap, -2))): continue
                c0 = open_(c, a, 0)
                if a.cons.entails_ge0(addc(sub(n, i), -1)) and not c0 & (SAFE | {43, 37}): continue
                if c0 == {37} and a.cons.entails_ge0(sub(n, addc(i, 3))) and (not open_(c, a, 1) & set(DIGIT) or not open_(c, a, 2) & set(DIGIT)): continue
                c.fail("a text is refused that can be decoded", "error"); continue
            if not st.assume_ge0(r): continue
            if not st.cons.entails_ge0(addc(cap, -2)) or not st.cons.entails_ge0(addc(n, -1)): c.fail("nothing can be decoded, but no error is returned", "nothing"); continue
            if not st.cons.entails_eq(sub(end, o)): c.fail("the decoded text is not terminated", "terminator"); continue
            if not st.cons.entails_eq(sub(i, n)) and not st.cons.entails_ge0(sub(addc(o, 1), cap)):
                if open_(c, st, 0) != {37} or not st.cons.entails_ge0(sub(addc(i, 2), n)): c.fail("decoding stops early", "early"); continue
            c.eq(r, o, "the number of decoded bytes is returned", "size", st=st)
            p = st.canon(c.args[4])
            if st.is_null(p) is True: continue
            q = st.canon(c.eng.load_mem(st, None, p[1], p[2], 8, ir.PTR))
            if q[1] != t["src"] or not st.cons.entails_eq(sub(q[2], add(t["from"], i))): c.fail("the place where decoding stopped is not reported", "stopped")

    return S_


URL = Url()
CLIENTS = [Base64, Url]
OPTS = {"merge_cap": 300, "ret_cap": 300, "loop_parts": 60, "loop_entry_cap": 64}
