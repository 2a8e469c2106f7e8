"""Models of the C library / pthread functions the library calls.

Each model returns [(state, return value)]; allocation models fork success and
failure.  Byte ranges touched are announced to the clients (on_range)."""
from . import lin, ir
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO
from .engine import NULL, NULLB, I, fsym, dsym, expr_syms, base_syms, fresh_id, bname, UNDEF, epdeps
from .ir import loc_str

SZ = (1 << 64) - 1


def rng(eng, st, ins, ptr, length, write, what, need=True):
    """announce an access to [ptr, ptr+length); returns (base, off) or None if the path dies"""
    if ptr[0] == "i": ptr = eng.to_ptr(st, ptr[1])
    ptr = st.canon(ptr)
    if ptr[0] != "p":
        return ("p", ("s", fsym("wild")), ZERO)[1:]
    if ptr[1] == NULLB or st.is_null(ptr) is True:
        if length is not None and st.cons.constval(length) == 0:
            return (NULLB, ZERO)
        for c in eng.clients: c.on_nullderef(eng, st, ins, ptr)
        return None
    b = ptr[1]
    if b[0] == "s" and st.nn.get(b) is None:
        for c in eng.clients:
            if hasattr(c, "on_maybe_null"): c.on_maybe_null(eng, st, ins, ptr)
        st.nn[b] = True
    off = st.red(ptr[2])
    for c in eng.clients: c.on_range(eng, st, ins, b, off, length, write, what)
    if length is None and b[0] == "a" and not write and ins is not None and not terminated(st, b, off):
        for c in eng.clients:
            if hasattr(c, "on_unterminated"): c.on_unterminated(eng, st, ins, b, off)
    return b, off


def argi(eng, st, args, i, w=64):
    return st.red(eng.as_int(st, args[i], w))


def size_arg(eng, st, args, i, w=64):
    return eng.ucanon(st, argi(eng, st, args, i, w), w)


# ------------------------------------------------------------------ heap
def new_obj(eng, st, ins, kind, size=None, fam=None, zero=False, tag="", extra=None):
    site = (ins.fn.name, ins.blk.name, ins.idx, tuple((i.fn.name, i.idx) for i in st.ctx), tag)
    n = 0
    while ("h", site, n) in st.objs or ("h", site, n) in st.mem:
        n += 1
        if n > 6: break
    b = ("h", site, n)
    st.mem.pop(b, None)
    st.fills.pop(b, None)
    st.ep[b] = fresh_id()
    st.cep[b] = fresh_id()
    o = {"kind": kind, "fam": fam, "state": "live", "site": loc_str(ins)}
    if size is not None: o["size"] = size
    if extra: o.update(extra)
    st.objs[b] = o
    if zero and size is not None:
        st.fills[b] = ((ZERO, size, 0),)
    return ("p", b, ZERO)


def alloc_failed(eng, st):
    st.ts["allocfail"] = True
    if eng.opts.get("errno"): eng.store_mem(st, None, ("g", "%errno", ""), ZERO, ("i", const(12)), 4)


def exists(st, size):
    """no object is larger than PTRDIFF_MAX"""
    return st.assume_le(addc(size, 1 - (1 << 63)))


def _alloc(fam, zero, sizef):
    def f(eng, st, ins, args):
        out = []
        for s, size in sizef(eng, st, ins, args):
            fs = s.copy()
            fs.note("%s allocation fails" % loc_str(ins))
            alloc_failed(eng, fs)
            for c in eng.clients:
                if hasattr(c, "on_alloc"): c.on_alloc(eng, s, ins, size, fam)
            if not eng.opts.get("alloc_never_fails"):
                out.append((fs, NULL))
            if not exists(s, size): continue
            p = new_obj(eng, s, ins, "heap", size, fam, zero)
            out.append((s, p))
        return out
    return f


def _msize(eng, st, ins, args):
    raw = argi(eng, st, args, 0)
    for c in eng.clients:
        if hasattr(c, "on_alloc_size"): c.on_alloc_size(eng, st, ins, raw, None)
    return eng.ucanon(st, raw, 64)


def _csize(eng, st, ins, args):
    out = []
    for s, n in size_arg(eng, st, args, 0):
        for s2, m in size_arg(eng, s, args, 1):
            out.append((s2, eng.mulsym(s2, n, m)))    # calloc itself refuses a product that overflows
    return out


def _free(fam):
    def f(eng, st, ins, args):
        p = args[0]
        if p[0] == "i": p = eng.to_ptr(st, p[1])
        p = st.canon(p)
        nul = st.is_null(p)
        out = []
        if nul is not False:
            s = st.copy() if nul is None else st
            if nul is True or s.set_nn(p, False): out.append((s, None))
        if nul is not True:
            s = st if nul is False else st.copy()
            if nul is False or s.set_nn(p, True):
                release(eng, s, ins, p, fam)
                out.append((s, None))
        return out
    return f


def release(eng, st, ins, p, fam):
    p = st.canon(p)
    for c in eng.clients: c.on_free(eng, st, ins, p, fam)
    b = p[1]
    st.setobj(b, state="freed", freed_at=loc_str(ins))
    st.mem[b] = st.mem.get(b, {})


def _realloc(fam):
    def f(eng, st, ins, args):
        out = []
        raw = argi(eng, st, args, 1)
        for c in eng.clients:
            if hasattr(c, "on_alloc_size"): c.on_alloc_size(eng, st, ins, raw, None)
        for s, size in eng.ucanon(st, raw, 64):
            p = s.canon(args[0])
            for c in eng.clients:
                if hasattr(c, "on_alloc"): c.on_alloc(eng, s, ins, size, fam)
            if not eng.opts.get("alloc_never_fails"):
                fs = s.copy()
                fs.note("%s allocation fails" % loc_str(ins))
                alloc_failed(eng, fs)
                out.append((fs, NULL))
            nul = s.is_null(p)
            if nul is not False:
                s1 = s.copy()
                if (nul is True or s1.set_nn(p, False)) and exists(s1, size):
                    out.append((s1, new_obj(eng, s1, ins, "heap", size, fam, tag="new")))
            if nul is not True:
                s2 = s
                if (nul is False or s2.set_nn(p, True)) and exists(s2, size):
                    ob = s2.canon(p)[1]
                    cells = s2.mem.get(ob)
                    osz = s2.osize(ob)
                    release(eng, s2, ins, p, fam)
                    q = new_obj(eng, s2, ins, "heap", size, fam, tag="mv")
                    if cells:
                        keep = {}
                        for o, (v, sz) in cells.items():
                            if s2.cons.entails_le(sub(addc(o, sz), size)): keep[o] = (v, sz)
                        s2.mem[q[1]] = keep
                    for c in eng.clients:
                        if hasattr(c, "on_realloc"): c.on_realloc(eng, s2, ins, ob, q[1])
                    out.append((s2, q))
        return out
    return f


def slen_of(eng, st, ins, ptr):
    """strlen of a NUL terminated string as an Expr (adds facts)"""
    ptr = st.canon(ptr)
    b, off = ptr[1], st.red(ptr[2])
    if b[0] == "g":
        g = eng.find_global(b)
        if g is not None and g.const and g.init and g.init[0] == "str" and is_const(off):
            s = g.init[1][off[0]:]
            if 0 in s: return const(s.index(0))
    cep = st.cep.get(b, 0)
    k = (b, off, cep)
    e = st.slen.get(k)
    if e is None:
        # same content, other offset: len(off2) = len(off) + off - off2 when inside
        for (b2, o2, c2), l2 in list(st.slen.items()):
            if b2 == b and c2 == cep:
                d = st.red(sub(off, o2))
                if st.cons.entails_ge0(d) and st.cons.entails_ge0(sub(l2, d)):
                    e = st.slen[k] = st.red(sub(l2, d))
                    return e
        s = dsym(("len", b, off, cep), list(base_syms(b)) + expr_syms(off) + epdeps(cep), 0, (1 << 62), "strlen(%s%s)" % (bname(b), "" if off == ZERO else "+" + lin.show(off)))
        e = sym(s)
        st.slen[k] = e
        size = eng.obj_size(st, b)
        if size is not None:
            st.assume_le(addc(sub(add(off, e), size), 1))
        for o, (v, sz) in list(st.mem.get(b, {}).items()):
            if sz == 1 and v[0] == "i" and st.cons.constval(v[1]) == 0:
                if st.cons.entails_ge0(sub(o, off)):
                    st.assume_le(sub(e, sub(o, off)))
    return st.red(e)


def terminated(st, b, off):
    """a zero byte is known to lie at or behind off in the object"""
    for o, (v, sz) in st.mem.get(b, {}).items():
        if v[0] == "i" and st.cons.constval(v[1]) == 0 and st.cons.entails_ge0(sub(addc(o, sz - 1), off)): return True
    for lo, ln, by in st.fills.get(b, ()):
        if by == 0 and st.cons.entails_ge0(addc(ln, -1)) and st.cons.entails_ge0(addc(sub(add(lo, ln), off), -1)): return True
    for (b2, o, c), ln in st.slen.items():
        if b2 == b and c == st.cep.get(b, 0) and st.cons.entails_ge0(sub(add(o, ln), off)): return True
    return False


def m_strlen(eng, st, ins, args):
    r = rng(eng, st, ins, args[0], None, False, "strlen")
    if r is None: return []
    e = slen_of(eng, st, ins, args[0])
    for c in eng.clients:
        if hasattr(c, "on_strread"): c.on_strread(eng, st, ins, r[0], r[1], e)
    return [(st, ("i", e))] if not st.cons.bot else []


def m_strnlen(eng, st, ins, args):
    r = rng(eng, st, ins, args[0], None, False, "strnlen")
    if r is None: return []
    out = []
    for s, n in size_arg(eng, st, args, 1):
        b = r[0]
        k = dsym(("strnlen", b, r[1], n, s.cep.get(b, 0)), list(base_syms(b)) + expr_syms(r[1]) + expr_syms(n), 0, SZ, "strnlen(%s,%s)" % (bname(b), lin.show(n)))
        s.assume_le(sub(sym(k), n))
        # exact when the length is known
        kk = (b, r[1], s.cep.get(b, 0))
        if kk in s.slen:
            ln = s.slen[kk]
            t = s.copy()
            if t.assume_le(sub(ln, n)): out.append((t, ("i", t.red(ln))))
            if s.assume_ge0(addc(sub(ln, n), -1)): out.append((s, ("i", s.red(n))))
            continue
        out.append((s, ("i", sym(k))))
    return out


def put_string(eng, st, b, off, ln):
    """content of [off, off+ln] becomes an unknown string of exactly ln characters"""
    eng.invalidate(st, b, off, addc(ln, 1))
    z = st.red(add(off, ln))
    eng.put_cell(st, b, z, I(0), 1)
    st.slen[(b, st.red(off), st.cep.get(b, 0))] = st.red(ln)
    for c in eng.clients:
        if hasattr(c, "on_string"): c.on_string(eng, st, b, off, ln)


def m_memcpy(eng, st, ins, args):
    out = []
    for s, n in size_arg(eng, st, args, 2):
        d = rng(eng, s, ins, args[0], n, True, "memcpy dst")
        if d is None: continue
        r = rng(eng, s, ins, args[1], n, False, "memcpy src")
        if r is None: continue
        if d[0] == NULLB:
            out.append((s, args[0])); continue
        vals = []
        if r[0] != NULLB and is_const(r[1]) and is_const(n) and n[0] <= 4096:
            for o, (v, sz) in s.mem.get(r[0], {}).items():
                if is_const(o) and o[0] >= r[1][0] and o[0] + sz <= r[1][0] + n[0]:
                    vals.append((o[0] - r[1][0], v, sz))
        zero = False
        for lo, ln, by in s.fills.get(r[0], ()):
            if by == 0 and s.cons.entails_le(sub(lo, r[1])) and s.cons.entails_le(sub(add(r[1], n), add(lo, ln))):
                zero = True
        srcstr = None
        if r[0] != NULLB:
            srcstr = s.slen.get((r[0], s.red(r[1]), s.cep.get(r[0], 0)))
        if r[0] != NULLB and r[0][0] in ("g",) and srcstr is None:
            g = eng.find_global(r[0])
            if g is not None and g.const and g.init and g.init[0] == "str" and is_const(r[1]) and 0 in g.init[1][r[1][0]:]:
                srcstr = const(g.init[1][r[1][0]:].index(0))
        eng.invalidate(s, d[0], d[1], n)
        if zero:
            s.fills[d[0]] = s.fills.get(d[0], ()) + ((d[1], n, 0),)
        for k, v, sz in vals:
            eng.put_cell(s, d[0], addc(d[1], k), v, sz)
        if srcstr is not None and s.cons.entails_le(addc(sub(srcstr, n), 1)):
            s.slen[(d[0], s.red(d[1]), s.cep.get(d[0], 0))] = srcstr
            eng.put_cell(s, d[0], s.red(add(d[1], srcstr)), I(0), 1)
        for c in eng.clients:
            if hasattr(c, "on_copy"): c.on_copy(eng, s, ins, d[0], d[1], r[0], r[1], n)
        out.append((s, args[0]))
    return out


def m_memset(eng, st, ins, args):
    out = []
    for s, n in size_arg(eng, st, args, 2):
        d = rng(eng, s, ins, args[0], n, True, "memset")
        if d is None: continue
        if d[0] == NULLB:
            out.append((s, args[0])); continue
        v = s.cons.constval(eng.as_int(s, args[1], 8))
        eng.invalidate(s, d[0], d[1], n)
        if v is not None:
            s.fills[d[0]] = s.fills.get(d[0], ()) + ((d[1], n, v & 255),)
        out.append((s, args[0]))
    return out


def m_memcmp(eng, st, ins, args):
    out = []
    for s, n in size_arg(eng, st, args, 2):
        for i in (0, 1):
            if rng(eng, s, ins, args[i], n, False, "memcmp") is None: break
        else:
            out.append((s, ("i", sym(eng.intsym(s, "memcmp", 32)))))
    return out


def m_strread(nstr, ret="int"):
    def f(eng, st, ins, args):
        key = []
        for i in range(nstr):
            r = rng(eng, st, ins, args[i], None, False, "string read")
            if r is None: return []
            for c in eng.clients:
                if hasattr(c, "on_strread"): c.on_strread(eng, st, ins, r[0], r[1], None)
            key.append((r[0], r[1], st.cep.get(r[0], 0)))
        if ret == "int":
            k = dsym((ins.extra[0][1] if ins.extra[0][0] == "g" else "strfn",) + tuple(key), sum((list(base_syms(x[0])) + expr_syms(x[1]) for x in key), []), -(1 << 31), (1 << 31) - 1, "strcmp")
            return [(st, ("i", sym(k)))]
        return [(st, eng.unknown(st, ins.ty, "str"))]
    return f


def m_strchr(eng, st, ins, args):
    """NULL or a pointer into the string"""
    r = rng(eng, st, ins, args[0], None, False, "string read")
    if r is None: return []
    ln = slen_of(eng, st, ins, args[0])
    name = ins.extra[0][1]
    if name == "strstr":
        r2 = rng(eng, st, ins, args[1], None, False, "string read")
        if r2 is None: return []
        l2 = slen_of(eng, st, ins, args[1])
    out = []
    s0 = st.copy()
    s0.note("%s %s finds nothing" % (loc_str(ins), name))
    out.append((s0, NULL))
    k = fsym("pos", 0, (1 << 62))
    if name == "strstr": st.assume_le(sub(add(sym(k), l2), ln))
    else: st.assume_le(sub(sym(k), ln))
    if not st.cons.bot:
        q = ("p", r[0], st.red(add(r[1], sym(k))))
        # remaining length is known
        st.slen[(r[0], q[2], st.cep.get(r[0], 0))] = st.red(sub(ln, sym(k)))
        out.append((st, q))
    return out


def m_strdup(fam):
    def f(eng, st, ins, args):
        r = rng(eng, st, ins, args[0], None, False, "strdup")
        if r is None: return []
        ln = slen_of(eng, st, ins, args[0])
        name = ins.extra[0][1] if ins.extra[0][0] == "g" else ""
        res = []
        if "strndup" in name:
            for s, n in size_arg(eng, st, args, 1):
                cut = s.copy()
                if cut.assume_ge0(addc(sub(ln, n), -1)): res.append((cut, n, False))
                if s.assume_le(sub(ln, n)): res.append((s, ln, True))
        else:
            res = [(st, ln, True)]
        out = []
        for s, l, whole in res:
            if not eng.opts.get("alloc_never_fails"):
                fs = s.copy()
                fs.note("%s allocation fails" % loc_str(ins))
                alloc_failed(eng, fs)
                out.append((fs, NULL))
            p = new_obj(eng, s, ins, "heap", addc(l, 1), fam)
            if r[0] != NULLB:
                for c in eng.clients:
                    if hasattr(c, "on_copy"): c.on_copy(eng, s, ins, p[1], ZERO, r[0], r[1], s.red(addc(l, 1) if whole else l))
            s.slen[(p[1], ZERO, s.cep.get(p[1], 0))] = l
            eng.put_cell(s, p[1], s.red(l), I(0), 1)
            for c in eng.clients:
                if hasattr(c, "on_string"): c.on_string(eng, s, p[1], ZERO, l)
            out.append((s, p))
        return out
    return f


def check_fmt_args(eng, st, ins, args, i):
    for a in args[i:]:
        if a[0] == "p":
            p = st.canon(a)
            if p[1] != NULLB and st.is_null(p) is not True:
                for c in eng.clients:
                    if hasattr(c, "on_use"): c.on_use(eng, st, ins, p)


def fmt_of(eng, st, v):
    v = st.canon(v) if v[0] == "p" else v
    if v[0] == "p" and v[1][0] == "g" and is_const(v[2]):
        g = eng.find_global(v[1])
        if g is not None and g.const and g.init and g.init[0] == "str":
            s = g.init[1][v[2][0]:]
            return s[:s.index(0)].decode("latin1") if 0 in s else None
    return None


def fmt_len(eng, st, ins, fmt, args, va=False):
    """bounds of the printed length: (lo, hi) Exprs, hi None when unknown"""
    import re
    lo, hi = ZERO, ZERO
    ai = 0
    pos = 0
    for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", fmt):
        lit = m.start() - pos
        lo, hi = addc(lo, lit), (addc(hi, lit) if hi is not None else None)
        pos = m.end()
        fl, width, prec, lenm, cv = m.groups()
        if cv == "%":
            lo, hi = addc(lo, 1), (addc(hi, 1) if hi is not None else None)
            continue
        if width == "*" or prec == "*":
            ai += (width == "*") + (prec == "*")
            hi = None
        a = None
        if not va and ai < len(args): a = args[ai]
        ai += 1
        wmin = int(width) if width and width != "*" else 0
        if cv == "c":
            l = h = const(max(1, wmin))
        elif cv in "diuxXop":
            # digits by value range
            if a is not None and a[0] == "i":
                w = 64 if lenm in ("l", "ll", "z", "j", "t") else 32
                b = st.cons.bounds(a[1])
                if cv in "di":
                    H = 1 << (w - 1)
                    bl, bh = (b[0] if b[0] is not None else -H), (b[1] if b[1] is not None else H - 1)
                    if bl < -H or bh >= H: bl, bh = -H, H - 1
                    mx = max(len(str(bl)), len(str(bh)))
                    if bl < 0 and bh >= 0: mx = max(mx, len(str(bl)))
                    mn = 1
                    if bl >= 0: mn = len(str(bl))
                elif cv == "u":
                    M = 1 << w
                    bl, bh = b
                    if bl is None or bl < 0 or bh is None or bh >= M: bl, bh = 0, M - 1
                    mn, mx = len(str(bl)), len(str(bh))
                else:
                    M = 1 << w
                    if lenm == "hh": M = 256
                    if lenm == "h": M = 65536
                    bl, bh = b
                    if bl is None or bl < 0 or bh is None or bh >= M: bl, bh = 0, M - 1
                    f = "%o" if cv == "o" else "%x"
                    mn, mx = len(f % bl), len(f % bh)
                if "+" in (fl or ""): mn, mx = mn + 1, mx + 1
            else:
                mn, mx = 1, 24
            l, h = const(max(mn, wmin)), const(max(mx, wmin))
        elif cv == "s":
            if a is not None and a[0] == "p" and st.is_null(a) is not True:
                sl = slen_of(eng, st, ins, a)
                if prec and prec != "*":
                    l, h = ZERO, const(int(prec))
                    if h is not None and wmin: l, h = const(wmin), const(max(wmin, int(prec)))
                else:
                    l = h = sl
                    if wmin: l, h = const(wmin), None
            else:
                l, h = ZERO, None
        else:
            l, h = ZERO, None
        lo = add(lo, l)
        hi = add(hi, h) if hi is not None and h is not None else None
    rest = len(fmt) - pos
    return addc(lo, rest), (addc(hi, rest) if hi is not None else None)


def m_snprintf(va):
    def f(eng, st, ins, args):
        out = []
        for s, n in size_arg(eng, st, args, 1):
            fmt = fmt_of(eng, s, args[2])
            check_fmt_args(eng, s, ins, args, 3)
            lo, hi = (ZERO, None)
            if fmt is not None:
                lo, hi = fmt_len(eng, s, ins, fmt, args[3:], va)
            dst = s.canon(args[0])
            isnull = s.is_null(dst) is True
            if not isnull:
                d = rng(eng, s, ins, dst, n, True, "snprintf dst")
                if d is None: continue
            # failure
            fs = s.copy()
            e = fsym("fmterr", -(1 << 31), -1)
            fs.note("%s formatting fails" % loc_str(ins))
            if not isnull:
                eng.invalidate(fs, d[0], d[1], n)
                if fs.cons.entails_ge0(addc(n, -1)):          # what was written up to the failure is terminated
                    k = fsym("partial", 0, SZ)
                    fs.assume_le(addc(sub(sym(k), n), 1))
                    z = fs.red(add(d[1], sym(k)))
                    eng.put_cell(fs, d[0], z, I(0), 1)
                    fs.slen[(d[0], fs.red(d[1]), fs.cep.get(d[0], 0))] = fs.red(sym(k))
            if fmt is None or va or any(x in fmt for x in ("%l", "%f", "%.", "%S")) or eng.opts.get("snprintf_fails", True):
                out.append((fs, ("i", sym(e))))
            k = fsym("fmtlen", 0, (1 << 31) - 1)
            r = sym(k)
            s.assume_ge0(sub(r, lo))
            if hi is not None: s.assume_le(sub(r, hi))
            if s.cons.bot: continue
            for c in eng.clients:
                if hasattr(c, "on_format"): c.on_format(eng, s, ins, n, r)
            if isnull:
                out.append((s, ("i", s.red(r)))); continue
            b, o = d
            s1 = s.copy()
            if s1.assume_le(addc(sub(r, n), 1)):        # fits
                put_string(eng, s1, b, o, r)
                out.append((s1, ("i", s1.red(r))))
            s2 = s
            if s2.assume_ge0(sub(r, n)):                # truncated (or n==0)
                z = s2.copy()
                if z.assume_eq(n):
                    out.append((z, ("i", z.red(r))))
                if s2.assume_ge0(addc(n, -1)):
                    s2.note("%s output truncated" % loc_str(ins))
                    put_string(eng, s2, b, o, addc(n, -1))
                    out.append((s2, ("i", s2.red(r))))
        return out
    return f


def m_sprintf(eng, st, ins, args):
    fmt = fmt_of(eng, st, args[1])
    lo, hi = (ZERO, None)
    if fmt is not None: lo, hi = fmt_len(eng, st, ins, fmt, args[2:])
    k = fsym("fmtlen", 0, (1 << 31) - 1)
    st.assume_ge0(sub(sym(k), lo))
    if hi is not None: st.assume_le(sub(sym(k), hi))
    d = rng(eng, st, ins, args[0], addc(sym(k), 1), True, "sprintf dst")
    if d is None or st.cons.bot: return []
    put_string(eng, st, d[0], d[1], sym(k))
    return [(st, ("i", sym(k)))]


def m_strcpy(eng, st, ins, args):
    r = rng(eng, st, ins, args[1], None, False, "string read")
    if r is None: return []
    ln = slen_of(eng, st, ins, args[1])
    d = rng(eng, st, ins, args[0], addc(ln, 1), True, "strcpy dst")
    if d is None: return []
    put_string(eng, st, d[0], d[1], ln)
    for c in eng.clients:
        if hasattr(c, "on_copy"): c.on_copy(eng, st, ins, d[0], d[1], r[0], r[1], st.red(addc(ln, 1)))
    return [(st, args[0])]


def m_strcat(eng, st, ins, args):
    r = rng(eng, st, ins, args[1], None, False, "string read")
    if r is None: return []
    l2 = slen_of(eng, st, ins, args[1])
    l1 = slen_of(eng, st, ins, args[0])
    d = rng(eng, st, ins, args[0], addc(add(l1, l2), 1), True, "strcat dst")
    if d is None: return []
    put_string(eng, st, d[0], d[1], add(l1, l2))
    for c in eng.clients:
        if hasattr(c, "on_copy"): c.on_copy(eng, st, ins, d[0], st.red(add(d[1], l1)), r[0], r[1], st.red(addc(l2, 1)))
    return [(st, args[0])]


# the repository's own bounded copies (their bodies are checked separately)
def m_strlcpy(eng, st, ins, args, at=None):
    """bounded copy; at: {base, offset} where the text is put when it is not the start of the destination"""
    out = []
    for s, n in size_arg(eng, st, args, 2):
        r = rng(eng, s, ins, args[1], None, False, "string read")
        if r is None: continue
        ln = slen_of(eng, s, ins, args[1])
        skip = ZERO
        if at == "end":
            p = s.canon(args[0])
            D = slen_of(eng, s, ins, args[0])
            z = s.copy()
            if z.assume_ge0(sub(D, n)): out.append((z, ("i", z.red(add(n, ln)))))      # nothing ends inside the buffer
            if not s.assume_ge0(addc(sub(n, D), -1)): continue
            skip = D
        z = s.copy()
        if at is None and z.assume_eq(n): out.append((z, ("i", z.red(ln))))
        if not s.assume_ge0(addc(n, -1)): continue
        room = s.red(sub(n, skip))
        dst = s.canon(args[0])
        if dst[0] == "p" and skip != ZERO: dst = ("p", dst[1], s.red(add(dst[2], skip)))
        d = rng(eng, s, ins, dst, room, True, "strlcpy dst")
        if d is None: continue
        a = s.copy()
        for x, fits in ((a, True), (s, False)):
            if not (x.assume_le(addc(sub(ln, room), 1)) if fits else x.assume_ge0(sub(ln, room))): continue
            if not fits: x.note("%s copy truncated" % loc_str(ins))
            k = x.red(ln) if fits else x.red(addc(room, -1))
            put_string(eng, x, d[0], d[1], k)
            for c in eng.clients:
                if hasattr(c, "on_copy"): c.on_copy(eng, x, ins, d[0], d[1], r[0], r[1], addc(k, 1) if fits else k)
            out.append((x, ("i", x.red(add(ln, skip)))))
    return out


def m_strlcat(eng, st, ins, args): return m_strlcpy(eng, st, ins, args, "end")


# ------------------------------------------------------------------ files
def m_open(kind, fails=True):
    def f(eng, st, ins, args):
        out = []
        if args and args[0][0] == "p":
            if rng(eng, st, ins, args[0], None, False, "path read") is None: return []
        fs = st.copy()
        fs.note("%s fails" % loc_str(ins))
        out.append((fs, NULL))
        p = new_obj(eng, st, ins, "res", None, kind)
        out.append((st, p))
        return out
    return f


def m_freopen(eng, st, ins, args):
    """re-targets an existing stream: the stream object stays the property of its owner"""
    fs = st.copy()
    fs.note("%s fails" % loc_str(ins))
    b = ("s", fsym("stream"))
    st.nn[b] = True
    return [(fs, NULL), (st, ("p", b, ZERO))]


def escape_tree(eng, st, v, havoc=True):
    """v and everything reachable from it is known to somebody else from now on"""
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if x[0] != "p": continue
        b = st.canon(x)[1]
        if b in seen or b[0] not in ("h", "a"): continue
        seen.add(b)
        o = st.objs.get(b) or {}
        if o.get("state") == "freed": continue
        st.weaken(("p", b, ZERO))
        for c, sz in list(st.mem.get(b, {}).values()): todo.append(c)
    if havoc:
        for b in seen: eng.escape(st, b)


def m_thread(eng, st, ins, args):
    escape_tree(eng, st, args[3], havoc=False)
    f = st.copy()
    return [(f, I(11)), (st, I(0))]


def use_handle(eng, st, ins, v):
    v = st.canon(v)
    if v[0] != "p": return True
    if st.is_null(v) is True:
        for c in eng.clients: c.on_nullderef(eng, st, ins, v)
        return False
    for c in eng.clients:
        if hasattr(c, "on_use"): c.on_use(eng, st, ins, v)
    if v[1][0] == "s" and st.nn.get(v[1]) is None: st.nn[v[1]] = True
    return True


def m_close(kind):
    def f(eng, st, ins, args):
        if not use_handle(eng, st, ins, args[0]): return []
        release(eng, st, ins, args[0], kind)
        fs = st.copy()
        return [(st, I(0)), (fs, I(-1))] if eng.opts.get("close_fails") else [(st, ("i", sym(eng.intsym(st, "close", 32))))]
    return f


def m_fread(eng, st, ins, args):
    out = []
    for s, sz in size_arg(eng, st, args, 1):
        for s2, n in size_arg(eng, s, args, 2):
            tot = eng.mulsym(s2, sz, n)
            if not use_handle(eng, s2, ins, args[3]): continue
            d = rng(eng, s2, ins, args[0], tot, True, "fread dst")
            if d is None: continue
            eng.invalidate(s2, d[0], d[1], tot)
            k = fsym("fread", 0, SZ)
            s2.assume_le(sub(sym(k), n))
            out.append((s2, ("i", sym(k))))
    return out


def m_rw(write):
    """read/write: moves up to the given number of bytes, or fails"""
    def f(eng, st, ins, args):
        out = []
        for s, n in size_arg(eng, st, args, 2):
            d = rng(eng, s, ins, args[1], n, not write, "write src" if write else "read dst")
            if d is None: continue
            if not write and d[0] != NULLB: eng.invalidate(s, d[0], d[1], n)
            k = fsym("moved", -1, SZ)
            s.assume_le(sub(sym(k), n))
            if not s.cons.bot: out.append((s, ("i", sym(k))))
        return out
    return f


def m_fwrite(eng, st, ins, args):
    out = []
    for s, sz in size_arg(eng, st, args, 1):
        for s2, n in size_arg(eng, s, args, 2):
            tot = eng.mulsym(s2, sz, n)
            if not use_handle(eng, s2, ins, args[3]): continue
            d = rng(eng, s2, ins, args[0], tot, False, "fwrite src")
            if d is None: continue
            k = fsym("fwrite", 0, SZ)
            s2.assume_le(sub(sym(k), n))
            out.append((s2, ("i", sym(k))))
    return out


def m_fgets(eng, st, ins, args):
    n = argi(eng, st, args, 1, 32)
    out = []
    for s, m in eng.scanon(st, n, 32):
        if not use_handle(eng, s, ins, args[2]): continue
        d = rng(eng, s, ins, args[0], m, True, "fgets dst")
        if d is None: continue
        f = s.copy()
        eng.invalidate(f, d[0], d[1], m)
        out.append((f, NULL))
        k = fsym("linelen", 1, 1 << 31)
        s.assume_le(addc(sub(sym(k), m), 1))
        if s.cons.bot: continue
        eng.invalidate(s, d[0], d[1], m)
        put_string(eng, s, d[0], d[1], sym(k))
        out.append((s, args[0]))
    return out


def m_handle_int(pos=0, lo=None, hi=None, w=32):
    def f(eng, st, ins, args):
        if not use_handle(eng, st, ins, args[pos]): return []
        ty = ins.ty
        if ty.k != "i": return [(st, None)]
        k = fsym(ins.extra[0][1] if ins.extra[0][0] == "g" else "r", lo if lo is not None else -(1 << (ty.w - 1)), hi if hi is not None else (1 << (ty.w - 1)) - 1)
        return [(st, ("i", sym(k)))]
    return f


def m_readdir(eng, st, ins, args):
    if not use_handle(eng, st, ins, args[0]): return []
    s0 = st.copy()
    b = ("s", fsym("dirent"))
    st.nn[b] = True
    st.objs[b] = {"size": const(280), "kind": "const"}
    return [(s0, NULL), (st, ("p", b, ZERO))]


def m_outstruct(idx, size, kind="int"):
    """fills a caller supplied struct: 0 on success"""
    def f(eng, st, ins, args):
        if args[0][0] == "p" and idx != 0:
            if rng(eng, st, ins, args[0], None, False, "read") is None: return []
        d = st.canon(args[idx])
        if st.is_null(d) is not True:
            r = rng(eng, st, ins, d, const(size), True, "out struct")
            if r is None: return []
        if ins.ty.k == "i":
            f0 = st.copy()
            k = fsym("err", -1, -1)
            if st.is_null(d) is not True: eng.invalidate(st, r[0], r[1], const(size))
            return [(st, I(0)), (f0, I(-1))]
        eng.invalidate(st, r[0], r[1], const(size))
        if ins.ty.k == "p":
            return [(st, d)]
        return [(st, None)]
    return f


def m_ret(lo=None, hi=None, forks=None):
    def f(eng, st, ins, args):
        if forks is not None:
            return [(st.copy() if i else st, I(v)) for i, v in enumerate(forks)]
        if ins.ty.k == "i":
            w = ins.ty.w
            return [(st, ("i", sym(fsym(ins.extra[0][1] if ins.extra[0][0] == "g" else "r", lo if lo is not None else -(1 << (w - 1)), hi if hi is not None else (1 << (w - 1)) - 1))))]
        return [(st, eng.unknown(st, ins.ty, "r") if ins.res else None)]
    return f


def m_noret(eng, st, ins, args):
    for c in eng.clients:
        if hasattr(c, "on_abort"): c.on_abort(eng, st, ins)
    return []


def m_errno(eng, st, ins, args):
    return [(st, ("p", ("g", "%errno", ""), ZERO))]


def m_ctype(eng, st, ins, args):
    b = ("g", "%ctype", "")
    p = ("g", "%ctypetab", "")
    return [(st, ("p", b, ZERO))]


def m_expect(eng, st, ins, args):
    return [(st, args[0])]


def m_nop(eng, st, ins, args):
    return [(st, eng.unknown(st, ins.ty, "r") if ins.res else None)]


def m_time(eng, st, ins, args):
    p = st.canon(args[0]) if args[0][0] == "p" else args[0]
    v = ("i", sym(fsym("time", 0, 1 << 40)))
    if st.is_null(p) is not True:
        r = rng(eng, st, ins, p, const(8), True, "time")
        if r is None: return []
        eng.store_mem(st, ins, r[0], r[1], v, 8)
    return [(st, v)]


def m_gettimeofday(eng, st, ins, args):
    r = rng(eng, st, ins, args[0], const(16), True, "timeval")
    if r is None: return []
    eng.store_mem(st, ins, r[0], r[1], ("i", sym(fsym("tv_sec", 0, 1 << 40))), 8)
    eng.store_mem(st, ins, r[0], addc(r[1], 8), ("i", sym(fsym("tv_usec", 0, 999999))), 8)
    return [(st, I(0))]


TM = [("sec", 0, 60), ("min", 0, 59), ("hour", 0, 23), ("mday", 1, 31), ("mon", 0, 11), ("year", -1900, 2147481747 - 1900), ("wday", 0, 6), ("yday", 0, 365), ("isdst", -1, 1)]


def m_gmtime_r(eng, st, ins, args):
    if rng(eng, st, ins, args[0], const(8), False, "time_t") is None: return []
    r = rng(eng, st, ins, args[1], const(56), True, "tm")
    if r is None: return []
    eng.invalidate(st, r[0], r[1], const(56))
    for i, (n, lo, hi) in enumerate(TM):
        eng.store_mem(st, ins, r[0], addc(r[1], 4 * i), ("i", sym(fsym("tm_" + n, lo, hi))), 4)
    return [(st, args[1])]


def m_va(eng, st, ins, args):
    b = st.canon(args[0])[1] if args[0][0] == "p" else None
    if b is not None: eng.havoc(st, b)
    return [(st, None)]


def m_objectsize(eng, st, ins, args):
    return [(st, ("i", const(SZ)))]


def m_uadd_ov(op):
    def f(eng, st, ins, args):
        a, b = eng.as_int(st, args[0], 64), eng.as_int(st, args[1], 64)
        w = ins.ty.el[0].w
        out = []
        for s1, x in eng.ucanon(st, a, w):
            for s2, y in eng.ucanon(s1, b, w):
                if op == "mul": r = eng.mulsym(s2, x, y)
                elif op == "add": r = add(x, y)
                else: r = sub(x, y)
                M = (1 << w) - 1
                ok = s2.copy()
                if ok.assume_ge0(r) and ok.assume_le(addc(r, -M)):
                    out.append((ok, ("agg", {0: ("i", r), 1: ("bool", 0)})))
                bad = s2
                if op == "sub":
                    f_ = bad.assume_le(addc(r, 1))
                else:
                    f_ = bad.assume_ge0(addc(r, -M - 1))
                if f_:
                    out.append((bad, ("agg", {0: ("i", sym(fsym("ovf", 0, M))), 1: ("bool", 1)})))
        return out
    return f


def m_minmax(op):
    def f(eng, st, ins, args):
        w = ins.ty.w
        cf = eng.ucanon if op[0] == "u" else eng.scanon
        out = []
        for s1, x in cf(st, eng.as_int(st, args[0], w), w):
            for s2, y in cf(s1, eng.as_int(st, args[1], w), w):
                a = s2.copy()
                if a.assume_le(sub(x, y)): out.append((a, ("i", x if op.endswith("min") else y)))
                if s2.assume_ge0(addc(sub(x, y), -1)): out.append((s2, ("i", y if op.endswith("min") else x)))
        return out
    return f


def m_strtok_r(eng, st, ins, args):
    # returns NULL or a pointer into the string; writes NULs inside it; *save updated
    out = []
    sv = st.canon(args[2])
    r = rng(eng, st, ins, sv, const(8), True, "strtok save")
    if r is None: return []
    p = st.canon(args[0])
    s0 = st.copy()
    eng.store_mem(s0, ins, r[0], r[1], eng.unknown(s0, ir.PTR, "save"), 8)
    out.append((s0, NULL))
    if st.is_null(p) is True:
        p = eng.load_mem(st, ins, r[0], r[1], 8, ir.PTR)
        p = st.canon(p)
    b = p[1]
    if b != NULLB:
        size = eng.obj_size(st, b)
        k = fsym("tok", 0, 1 << 62)
        k2 = fsym("tokend", 0, 1 << 62)
        o = st.red(add(p[2], sym(k)))
        eng.havoc(st, b, ZERO, None) if size is None else eng.invalidate(st, b, ZERO, size)
        if size is not None:
            st.assume_le(addc(sub(o, size), 2))
        q = ("p", b, o)
        if size is not None:
            st.assume_le(addc(sub(sym(k2), size), 1))
        eng.store_mem(st, ins, r[0], r[1], ("p", b, sym(k2)), 8)
        if not st.cons.bot: out.append((st, q))
    else:
        out.append((st, eng.unknown(st, ir.PTR, "tok", True)))
    return out


def m_strtol(eng, st, ins, args):
    r = rng(eng, st, ins, args[0], None, False, "string read")
    if r is None: return []
    ep = st.canon(args[1])
    if st.is_null(ep) is not True:
        d = rng(eng, st, ins, ep, const(8), True, "endptr")
        if d is None: return []
        ln = slen_of(eng, st, ins, args[0])
        k = fsym("endpos", 0, 1 << 62)
        st.assume_le(sub(sym(k), ln))
        q = ("p", r[0], st.red(add(r[1], sym(k))))
        st.slen[(r[0], q[2], st.cep.get(r[0], 0))] = st.red(sub(ln, sym(k)))
        eng.store_mem(st, ins, d[0], d[1], q, 8)
    return [(st, eng.unknown(st, ins.ty, "num"))]


WIDTHS = {"m": 2, "d": 2, "H": 2, "M": 2, "S": 2, "I": 2, "y": 2, "j": 3, "Y": 4, "F": 10, "T": 8, "R": 5, "D": 8, "%": 1}


def strftime_len(eng, st, p):
    """length of the text a literal format of fixed width conversions makes (fields in their ranges, years of four digits)"""
    p = st.canon(p)
    off = st.red(p[2])
    g = eng.find_global(p[1]) if p[1][0] == "g" else None
    if g is None or not g.const or not g.init or g.init[0] != "str" or not is_const(off): return None
    t = bytes(g.init[1][off[0]:]) if not isinstance(g.init[1], str) else g.init[1][off[0]:].encode()
    if 0 not in t: return None
    t = t[:t.index(0)].decode("latin1")
    n = i = 0
    while i < len(t):
        if t[i] == "%":
            i += 1
            if i == len(t) or t[i] not in WIDTHS: return None
            n += WIDTHS[t[i]]
        else: n += 1
        i += 1
    return n


def m_strftime(eng, st, ins, args):
    out = []
    ln = strftime_len(eng, st, args[2])
    if ln is not None:
        for s, n in size_arg(eng, st, args, 1):
            d = rng(eng, s, ins, args[0], n, True, "strftime dst")
            if d is None: continue
            if rng(eng, s, ins, args[3], const(56), False, "tm") is None: continue
            f = s.copy()
            if f.assume_le(addc(n, -ln)):
                eng.invalidate(f, d[0], d[1], n)
                out.append((f, I(0)))
            if s.assume_ge0(addc(n, -ln - 1)):
                put_string(eng, s, d[0], d[1], const(ln))
                out.append((s, I(ln)))
        return out
    for s, n in size_arg(eng, st, args, 1):
        d = rng(eng, s, ins, args[0], n, True, "strftime dst")
        if d is None: continue
        if rng(eng, s, ins, args[3], const(56), False, "tm") is None: continue
        f = s.copy()
        eng.invalidate(f, d[0], d[1], n)
        out.append((f, I(0)))
        k = fsym("tflen", 1, 1 << 31)
        s.assume_le(addc(sub(sym(k), n), 1))
        if s.cons.bot: continue
        put_string(eng, s, d[0], d[1], sym(k))
        out.append((s, ("i", sym(k))))
    return out


def m_asprintf_va(eng, st, ins, args):
    d = rng(eng, st, ins, args[0], const(8), True, "asprintf out")
    if d is None: return []
    f = st.copy()
    eng.havoc(f, d[0], d[1], const(8))
    k = fsym("aslen", 0, (1 << 31) - 1)
    p = new_obj(eng, st, ins, "heap", addc(sym(k), 1), "libc")
    eng.store_mem(st, ins, d[0], d[1], p, 8)
    return [(f, I(-1)), (st, ("i", sym(k)))]


MODELS = {
    "malloc": _alloc("libc", False, _msize),
    "calloc": _alloc("libc", True, _csize),
    "realloc": _realloc("libc"),
    "free": _free("libc"),
    "strdup": m_strdup("libc"), "strndup": m_strdup("libc"),
    "strlen": m_strlen, "strnlen": m_strnlen,
    "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset, "memcmp": m_memcmp,
    "llvm.memcpy.p0.p0.i64": m_memcpy, "llvm.memmove.p0.p0.i64": m_memcpy, "llvm.memset.p0.i64": m_memset,
    "strcmp": m_strread(2), "strcasecmp": m_strread(2), "strncmp": m_strread(2), "strncasecmp": m_strread(2),
    "strchr": m_strchr, "strrchr": m_strchr, "strstr": m_strchr,
    "snprintf": m_snprintf(False), "vsnprintf": m_snprintf(True), "sprintf": m_sprintf,
    "strcpy": m_strcpy, "strcat": m_strcat,
    "fopen": m_open("FILE"), "fdopen": m_open("FILE"), "opendir": m_open("DIR"), "tmpfile": m_open("FILE"),
    "fclose": m_close("FILE"), "closedir": m_close("DIR"),
    "fread": m_fread, "fwrite": m_fwrite, "fgets": m_fgets,
    "fflush": m_nop, "fseek": m_handle_int(0), "ftell": m_handle_int(0), "ferror": m_handle_int(0), "feof": m_handle_int(0), "fileno": m_handle_int(0),
    "rewind": m_handle_int(0),
    "readdir": m_readdir,
    "read": m_rw(False), "write": m_rw(True),
    "stat": m_outstruct(1, 144), "lstat": m_outstruct(1, 144), "fstat": m_outstruct(1, 144),
    "access": m_strread(1), "mkdir": m_strread(1), "remove": m_strread(1), "unlink": m_strread(1), "rename": m_strread(2),
    "printf": m_nop, "fprintf": m_nop, "puts": m_nop, "putchar": m_nop, "perror": m_nop, "vprintf": m_nop, "vfprintf": m_nop, "fputs": m_nop, "fputc": m_nop,
    "abort": m_noret, "__assert_fail": m_noret, "exit": m_noret, "_exit": m_noret,
    "__errno_location": m_errno,
    "llvm.expect.i64": m_expect,
    "time": m_time, "gettimeofday": m_gettimeofday, "gmtime_r": m_gmtime_r, "localtime_r": m_gmtime_r,
    "mktime": m_outstruct(0, 56), "difftime": m_nop, "usleep": m_nop, "sleep": m_nop, "prctl": m_nop, "syscall": m_ret(1, (1 << 31) - 1),
    "llvm.va_start": m_va, "llvm.va_end": m_va, "llvm.va_copy": m_va, "llvm.va_start.p0": m_va, "llvm.va_end.p0": m_va, "llvm.va_copy.p0": m_va,
    "llvm.objectsize.i64.p0": m_objectsize,
    "llvm.umul.with.overflow.i64": m_uadd_ov("mul"), "llvm.uadd.with.overflow.i64": m_uadd_ov("add"), "llvm.usub.with.overflow.i64": m_uadd_ov("sub"),
    "llvm.umul.with.overflow.i32": m_uadd_ov("mul"), "llvm.uadd.with.overflow.i32": m_uadd_ov("add"), "llvm.usub.with.overflow.i32": m_uadd_ov("sub"),
    "llvm.umin.i64": m_minmax("umin"), "llvm.umax.i64": m_minmax("umax"), "llvm.smin.i64": m_minmax("smin"), "llvm.smax.i64": m_minmax("smax"),
    "llvm.umin.i32": m_minmax("umin"), "llvm.umax.i32": m_minmax("umax"), "llvm.smin.i32": m_minmax("smin"), "llvm.smax.i32": m_minmax("smax"),
    "strtok_r": m_strtok_r, "strtol": m_strtol, "strtoll": m_strtol, "strtoul": m_strtol, "strtoull": m_strtol, "strtod": m_strtol, "strtof": m_strtol,
    "__isoc23_strtol": m_strtol, "__isoc23_strtoll": m_strtol, "__isoc23_strtoul": m_strtol, "__isoc23_strtoull": m_strtol, "atoi": m_strread(1), "atof": m_strread(1, "o"),
    "strftime": m_strftime, "freopen": m_freopen,
    "asprintf": m_asprintf_va, "vasprintf": m_asprintf_va,
}

# allocation front-end used in the memcheck variant
LCU_ALLOC = {
    "lcu_malloc_trace": _alloc("lcu", False, _msize), "lcu_malloc": _alloc("lcu", False, _msize),
    "lcu_calloc_trace": _alloc("lcu", True, _csize), "lcu_calloc": _alloc("lcu", True, _csize),
    "lcu_realloc_trace": _realloc("lcu"), "lcu_realloc": _realloc("lcu"),
    "lcu_free": _free("lcu"),
    "lcu_strdup_trace": m_strdup("lcu"), "lcu_strdup": m_strdup("lcu"),
    "lcu_strndup_trace": m_strdup("lcu"), "lcu_strndup": m_strdup("lcu"),
}
BOUNDED = {"strlcpy": m_strlcpy, "strlcat": m_strlcat}
LOGGING = {"__xlog_internal_print": m_nop, "__xlog_internal_hex_print": m_nop, "__slog_internal_hex_print": m_nop}
THREADS = {"pthread_create": m_thread}
SYNC = {k: m_nop for k in (
    "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock",
    "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast",
    "sem_init", "sem_destroy", "sem_wait", "sem_post", "sem_getvalue", "sem_trywait",
    "pthread_join", "pthread_detach", "pthread_self", "pthread_kill", "pthread_setname_np",
    "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock",
    "sigemptyset", "sigaction", "sched_yield")}


def standard(**over):
    m = {}
    for d in (MODELS, LCU_ALLOC, BOUNDED, LOGGING, SYNC, THREADS): m.update(d)
    m.update(over)
    return m
