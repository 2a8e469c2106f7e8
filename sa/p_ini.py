"""P24: the ini parser is an ordered two-level map from section and key to value."""
from . import ir, models
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, dsym, fsym
from .spec import Specs, Ob, Case, last_ret, size_of, need
from .p_queue import mod_of
from .p_cont import L, Callbacks, same, newsym, heap, freed, seq_is, events

INI = "src/file/ini_parser.c"
OK, FAILED, INVALID, NOMEM, NOTFOUND = 0, 1, 2, 3, 4

# numbers of keys per section
SHAPES = ((), (0,), (1,), (2,), (0, 2), (2, 1), (1, 2))
TEXTS = {"true": 1, "false": 0, "yes": 1, "no": 0, "TRUE": 1, "No": 0}


class Lay:
    """where the members are"""

    def __init__(self, eng):
        self.mod = m = mod_of(eng, INI)
        sec = {n: (o, sz) for o, (n, sz, t) in ir.struct_fields(m, "%struct.section_info_t").items()}
        kv = {n: (o, sz) for o, (n, sz, t) in ir.struct_fields(m, "%struct.key_value_t").items()}
        p = {n: (o, sz) for o, (n, sz, t) in ir.struct_fields(m, "%struct._ini_parser").items()}
        for d, ns in ((kv, ("key", "value")), (p, ("plist_sections", "p_last_used_section")), (sec, ("section_name", "plist_section"))):
            for n in ns:
                if n not in d: raise ir.AnalysisBroken("member %s of the ini tree not found" % n)
        self.name, self.list = sec["section_name"], sec["plist_section"]
        self.key, self.value = kv["key"], kv["value"]
        self.root, self.cache = p["plist_sections"], p["p_last_used_section"]
        self.secsize, self.kvsize, self.psize = size_of(m, "section_info_t"), size_of(m, "key_value_t"), size_of(m, "_ini_parser")


def release_cb(eng):
    """the release callback the parser gives its lists"""
    from .drive import _gnames
    m, ns = mod_of(eng, INI), set()
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "call" and i.extra and i.extra[0] == ("g", "list_new"): _gnames([x for x in i.extra[1:]] + [i.ops], ns)
    c = [n for n in ns if n != "list_new" and m.funcs.get(n) is not None]
    if len(c) != 1: raise ir.AnalysisBroken("release callback of the ini lists not recognised")
    f = m.funcs[c[0]]
    return ("p", ("fn", c[0], m.path if f.internal else ""), ZERO)


def cstr(eng, st, base, off, empty=False):
    """a string of at least one character"""
    p = ("p", base, off)
    e = models.slen_of(eng, st, None, p)
    if not empty:
        st.assume_ge0(addc(e, -1))
        eng.put_cell(st, base, off, ("i", sym(fsym("first character", 1, 127))), 1)
    return e


def build(eng, st, pbase, shape, cache, match):
    lay, l = Lay(eng), L(eng, st)
    cb = release_cb(eng)
    root = heap(eng, st, "sections", size_of(l.mod, "list_t"))
    nodes, datas = l.build(st, root, len(shape), cb)
    secs = []
    for i, k in enumerate(shape):
        sb = heap(eng, st, "section%d" % i, lay.secsize)
        lb = heap(eng, st, "keys%d" % i, size_of(l.mod, "list_t"))
        # nodes of different lists need different names
        kn, kd = l_build(l, eng, st, lb, k, cb, "section%d key%d", i)
        kvs = []
        for j in range(k):
            kb = heap(eng, st, "key%d.%d" % (i, j), lay.kvsize)
            l.node(st, kn[j]).set(st, "data", ("p", kb, ZERO))
            cstr(eng, st, kb, const(lay.key[0]))
            kvs.append(kb)
        cstr(eng, st, sb, const(lay.name[0]))
        eng.store_mem(st, None, sb, const(lay.list[0]), ("p", lb, ZERO), 8)
        l.node(st, nodes[i]).set(st, "data", ("p", sb, ZERO))
        secs.append((sb, lb, kn, tuple(kvs)))
    eng.store_mem(st, None, pbase, const(lay.root[0]), ("p", root, ZERO), 8)
    eng.store_mem(st, None, pbase, const(lay.cache[0]), NULL if cache is None else ("p", secs[cache][0], ZERO), 8)
    return dict(p=pbase, root=root, nodes=nodes, secs=tuple(secs), match=match, shape=shape, lay=lay)


def l_build(l, eng, st, base, k, cb, name, i):
    o = l.at(st, base)
    nodes = [heap(eng, st, name % (i, j), size_of(l.mod, "list_node_t")) for j in range(k)]
    for j, nb in enumerate(nodes): l.node(st, nb).set(st, "next", ("p", nodes[j + 1], ZERO) if j + 1 < k else NULL)
    o.set(st, "head", ("p", nodes[0], ZERO) if k else NULL)
    o.set(st, "tail", ("p", nodes[-1], ZERO) if k else NULL)
    o.set(st, "length", I(k)); o.set(st, "free_cb", cb)
    o.set(st, "allocator", ("p", ("g", "allocator_calloc", ""), ZERO))
    return tuple(nodes), None


def watched(t):
    return [s[0] for s in t["secs"]] + [k for s in t["secs"] for k in s[3]]


class Ini(Client):
    name = "ini"
    rule = "ini"

    # ---- comparisons
    def which(self, st, t, p):
        """what a compared string is: ("arg", section|key) / ("sec", i) / ("key", i, j)"""
        b, o = p[1], st.red(p[2])
        for n in ("section", "key"):
            if t.get(n) and b == t[n] and o == ZERO: return ("arg", n)
        for i, s in enumerate(t["secs"]):
            if b == s[0] and o == const(t["lay"].name[0]): return ("sec", i)
            for j, k in enumerate(s[3]):
                if b == k and o == const(t["lay"].key[0]): return ("key", i, j)
        return None

    def call_strcasecmp(self, eng, st, ins, args, t):
        a, b = self.which(st, t, st.canon(args[0])), self.which(st, t, st.canon(args[1]))
        if a and b and a[0] != "arg": a, b = b, a
        if not a or not b or a[0] != "arg": return None
        si, ki = t["match"]
        if b[0] == "sec" and a[1] == "section": return [(st, I(0 if b[1] == si else -1 if b[1] == 0 else 1))]
        if b[0] == "key" and a[1] == "key": return [(st, I(0 if b[2] == ki else -1 if b[2] == 0 else 1))]
        self.failed(eng, st, ins, "%s is compared with another kind of name" % a[1], "compare")
        return []

    def failed(self, eng, st, ins, what, key): eng.report("spec", st, ins, self.rule, what, key=key)

    def on_nullderef(self, eng, st, ins, p):
        if (st.ts.get("spec") or ("",))[-1:] and "null" in repr(st.ts.get("spec")): self.failed(eng, st, ins, "a NULL argument is dereferenced", "null")

    # ---- writes
    def note(self, st, ev): st.ts["w"] = st.ts.get("w", ()) + (ev,)

    def call_strlcpy(self, eng, st, ins, args, t):
        d, s = st.canon(args[0]), st.canon(args[1])
        n = st.cons.constval(st.red(eng.as_int(st, args[2], 64)))
        st.ts["quiet"] = True
        out = []
        for x, r in models.m_strlcpy(eng, st, ins, args):
            x.ts.pop("quiet", None)
            self.note(x, ("str", d[1], x.red(d[2]), s[1], x.red(s[2]), n))
            out.append((x, r))
        return out

    def call_snprintf(self, eng, st, ins, args, t):
        if models.fmt_of(eng, st, args[2]) == "%s": return self.call_strlcpy(eng, st, ins, [args[0], args[3], args[1]], t)
        return None

    def on_access(self, eng, st, ins, base, off, size, write, val=None):
        t = st.ts.get("tree")
        if t and write and ins is not None and not st.ts.get("quiet") and base in watched(t): self.note(st, ("raw", base, st.red(off)))

    def on_range(self, eng, st, ins, base, off, length, write, what):
        t = st.ts.get("tree")
        if t and write and not st.ts.get("quiet") and base in watched(t): self.note(st, ("raw", base, st.red(off)))

    # ---- text
    def text(self, st, toks): st.ts["text"] = tuple(toks)

    def append(self, eng, st, ins, toks):
        f = st.copy()
        f.ts["appendfail"] = True
        f.note("%s appending fails" % ir.loc_str(ins))
        cur = list(st.ts.get("text", ()))
        for k in toks:
            if k[0] == "lit" and cur and cur[-1][0] == "lit": cur[-1] = ("lit", cur[-1][1] + k[1])
            elif k != ("lit", ""): cur.append(k)
        self.text(st, cur)
        return [(st, I(0)), (f, ("i", sym(fsym("append error", 1, 100))))]

    def tok(self, eng, st, p):
        p = st.canon(p)
        g = eng.find_global(p[1]) if p[1][0] == "g" else None
        if g is not None and g.init and g.init[0] == "zero": return ("lit", "")
        if g is not None and g.init and g.init[0] == "str" and is_const(st.red(p[2])): return ("lit", bytes(g.init[1])[st.red(p[2])[0]:].split(b"\0")[0].decode("latin1"))
        return ("str", p[1], st.red(p[2]))

    def call_stringbuilder_create(self, eng, st, ins, args, t):
        f = st.copy()
        models.alloc_failed(eng, f)
        b = heap(eng, st, "builder", 64)
        self.text(st, ())
        return [(st, ("p", b, ZERO)), (f, NULL)]

    def call_stringbuilder_destroy(self, eng, st, ins, args, t):
        p = st.canon(args[0])
        v = st.canon(eng.load_mem(st, None, p[1], p[2], 8, ir.PTR))
        if v[1][0] == "h":
            if freed(st, v[1]): self.failed(eng, st, ins, "the text is released twice", "builder")
            st.setobj(v[1], state="freed")
        eng.store_mem(st, None, p[1], p[2], NULL, 8)
        return [(st, None)]

    def call_stringbuilder_appendf(self, eng, st, ins, args, t):
        fmt = models.fmt_of(eng, st, args[1])
        if fmt is None: return None
        toks, rest, i = [], list(args[2:]), 0
        while i < len(fmt):
            if fmt[i] != "%": toks.append(("lit", fmt[i])); i += 1; continue
            d = fmt[i + 1:i + 2]
            if d == "s" and rest: toks.append(self.tok(eng, st, rest.pop(0)))
            elif d == "%": toks.append(("lit", "%"))
            else: toks.append(("?", d))
            i += 2
        return self.append(eng, st, ins, toks)

    def call_stringbuilder_appendstr(self, eng, st, ins, args, t): return self.append(eng, st, ins, [self.tok(eng, st, args[1])])

    def call_stringbuilder_appendchar(self, eng, st, ins, args, t):
        n = st.cons.constval(st.red(eng.as_int(st, args[1], 8)))
        return self.append(eng, st, ins, [("lit", chr(n)) if n is not None else ("?", "char")])

    def call_stringbuilder_clear(self, eng, st, ins, args, t):
        self.text(st, ())
        return [(st, I(0))]

    TEXT = ("s", fsym("the text"))

    def call_stringbuilder_to_string(self, eng, st, ins, args, t):
        b = st.canon(args[0])[1]
        if freed(st, b):
            self.failed(eng, st, ins, "the text is used after its release", "builder")
            return []
        st.nn[self.TEXT] = True
        st.ts["shown"] = st.ts.get("text", ())
        return [(st, ("p", self.TEXT, ZERO))]

    def call_stringbuilder_len(self, eng, st, ins, args, t):
        st.nn[self.TEXT] = True
        return [(st, ("i", models.slen_of(eng, st, ins, ("p", self.TEXT, ZERO))))]

    def dup(self, eng, st, ins, args, t):
        if st.canon(args[0])[1] != self.TEXT or st.red(st.canon(args[0])[2]) != ZERO: return None
        f = st.copy()
        models.alloc_failed(eng, f)
        b = heap(eng, st, "copy", 1 << 20)
        st.ts["dup"] = b
        st.slen[(b, ZERO, st.cep.get(b, 0))] = models.slen_of(eng, st, ins, args[0])
        return [(st, ("p", b, ZERO)), (f, NULL)]

    call_strdup = call_lcu_strdup_trace = call_lcu_strdup = dup

    def call_fwrite(self, eng, st, ins, args, t):
        if not t.get("save"): return None
        p = st.canon(args[0])
        n = st.red(eng.as_int(st, args[2], 64))
        m = st.red(eng.as_int(st, args[1], 64))
        if st.cons.constval(m) != 1: n, m = m, n
        if p[1] != st.ts.get("dup") and p[1] != self.TEXT or st.red(p[2]) != ZERO: self.failed(eng, st, ins, "something other than the dump is written", "saved"); return []
        if not st.cons.entails_eq(sub(n, models.slen_of(eng, st, ins, args[0]))) or st.cons.constval(m) != 1:
            self.failed(eng, st, ins, "not the whole dump is written", "saved"); return []
        st.ts["written"] = st.ts.get("written", 0) + 1
        full = st.red(eng.as_int(st, args[2], 64))
        short = st.copy()
        short.ts["iofail"] = True
        k = fsym("written", 0, None)
        out = [(st, ("i", full))]
        if short.assume_le(addc(sub(sym(k), full), 1)): out.append((short, ("i", sym(k))))
        return out

    def call_fflush(self, eng, st, ins, args, t):
        if not t.get("save"): return None
        f = st.copy()
        f.ts["iofail"] = True
        st.ts["flushed"] = True
        return [(st, I(0)), (f, I(-1))]

    def call_fclose(self, eng, st, ins, args, t):
        """an error that only shows at closing matters when nothing was flushed before"""
        if not t.get("save"): return None
        p = st.canon(args[0])
        if p[1] in st.objs: st.setobj(p[1], state="freed")
        if st.ts.get("flushed") or not st.ts.get("written"): return [(st, I(0))]
        f = st.copy()
        f.ts["iofail"] = True
        return [(st, I(0)), (f, I(-1))]

    # ---- numbers
    def conv(self, eng, st, ins, args, t, name):
        if not t.get("get"): return None
        if not found(t):
            self.failed(eng, st, ins, "a value is converted although the key is not there", "absent"); return []
        p = st.canon(args[0])
        sb, lay = t["secs"][t["match"][0]], t["lay"]
        kb = sb[3][t["match"][1]]
        src = any(c[0] == p[1] and st.red(c[1]) == st.red(p[2]) and c[2] == kb and st.red(c[3]) == const(lay.value[0]) for c in st.ts.get("copies", ()))
        if not src and not (p[1] == kb and st.red(p[2]) == const(lay.value[0])):
            self.failed(eng, st, ins, "the converted text is not the stored value", "source"); return []
        if name == "ll" and st.cons.constval(st.red(eng.as_int(st, args[2], 32))) != 0:
            self.failed(eng, st, ins, "the base of the number is not detected", "base"); return []
        ln = models.slen_of(eng, st, ins, p)
        out = []
        kinds = (True, False) if t["text"] == "number" else (False,)
        for whole in kinds:
            s = st.copy()
            e = st.canon(args[1])
            if whole: end = add(p[2], ln)
            else:
                k = fsym("end", 0, 1 << 62)
                if not s.assume_le(addc(sub(sym(k), ln), 1)): continue
                end = add(p[2], sym(k))
            end = s.red(end)
            eng.put_cell(s, p[1], end, I(0) if whole else ("i", sym(fsym("rest", 1, 127))), 1)
            if s.is_null(e) is not True: eng.store_mem(s, None, e[1], e[2], ("p", p[1], end), 8)
            s.ts["whole"] = whole
            if name == "ll":
                v = ("i", sym(fsym("number", -(1 << 63), (1 << 63) - 1)))
            else: v = ("o", "number %s" % name)
            s.ts["number"] = (name, v)
            out.append((s, v))
        return out

    def call_strtoll(self, eng, st, ins, args, t): return self.conv(eng, st, ins, args, t, "ll")
    call_strtol = call___isoc23_strtoll = call___isoc23_strtol = call_strtoll
    def call_strtod(self, eng, st, ins, args, t): return self.conv(eng, st, ins, args, t, "double")
    def call_strtof(self, eng, st, ins, args, t): return self.conv(eng, st, ins, args, t, "float")

    def words(self, eng, st, ins, args, t, n):
        if not t.get("get"): return None
        for a, b in ((args[0], args[1]), (args[1], args[0])):
            k = self.tok(eng, st, b)
            if k[0] != "lit": continue
            v, w = t["text"].lower(), k[1].lower()
            if n is not None: v, w = v[:n], w[:n]
            if n is not None and n > len(t["text"]) + 1 and n > len(k[1]): v, w = t["text"].lower(), k[1].lower()
            return [(st, I(0 if v == w else 1 if v > w else -1))]
        return None

    def call_strncasecmp(self, eng, st, ins, args, t): return self.words(eng, st, ins, args, t, st.cons.constval(st.red(eng.as_int(st, args[2], 64))))

    # ---- reading
    def call_ini_reader_parse_string(self, eng, st, ins, args, t):
        if "parse" not in t: return None
        if st.canon(args[0])[1] != t["parse"]: self.failed(eng, st, ins, "another text is parsed", "parsed"); return []
        h = st.canon(args[1])
        user = args[2]
        a = [("p", ("s", fsym(n)), ZERO) for n in ("section", "name", "value")]
        for x in a: st.nn[x[1]] = True
        st.ts["handed"] = (st.canon(user)[1],) + tuple(x[1] for x in a)
        m, g = mod_of(eng, INI), None
        for n, x in m.funcs.items():
            if n == h[1][1]: g = x
        if g is None or not g.blocks: self.failed(eng, st, ins, "the entries of the text are not handed to the parser", "parsed"); return []
        out = []
        for s, r in eng.call_in_context(st, g, [user] + a[:3], ins):
            v = s.red(eng.as_int(s, r, 32))
            ok = s.ts.get("put")
            if ok is None: self.failed(eng, s, ins, "an entry of the text is not stored", "entry"); continue
            c = s.cons.constval(v)
            if ok and c == 0 or not ok and not c == 0: self.failed(eng, s, ins, "storing an entry %s but the reader is told otherwise" % ("succeeds" if ok else "fails"), "told"); continue
            good, bad = s, s.copy()
            good.ts["read"] = True; bad.ts["read"] = False
            out += [(good, I(0)), (bad, ("i", sym(fsym("line of the error", 1, 1 << 30)))), ]
            w = bad.copy()
            out.append((w, I(-2)))
        return out

    def call_ini_parser_put_string(self, eng, st, ins, args, t):
        if "parse" not in t or not st.ts.get("handed"): return None
        got = tuple(st.canon(x)[1] for x in args[:4])
        if got != st.ts["handed"] or any(st.red(st.canon(x)[2]) != ZERO for x in args[:4]): self.failed(eng, st, ins, "an entry is stored under something else than it was read as", "entry"); return []
        out = []
        for ok in (True, False):
            s = st.copy()
            s.ts["put"] = ok
            out.append((s, I(0) if ok else ("i", sym(fsym("put error", 1, 4)))))
        return out

    def on_call(self, eng, st, ins, name, args):
        t = st.ts.get("tree")
        if not t: return None
        f = getattr(self, "call_" + name, None)
        return f(eng, st, ins, args, t) if f else None

    def key(self, ts):
        if not ts.get("tree"): return None
        return repr([ts.get(k) for k in ("w", "text", "shown", "appendfail", "dup", "iofail", "flushed", "written", "whole", "read", "put", "allocfail")]) + repr(ts.get("ev"))


# ------------------------------------------------------------------ entry states
def trees(eng, st, base, shapes=SHAPES, matches=None, caches=True):
    out = []
    for shape in shapes:
        ms = []
        for si in [None] + list(range(len(shape))):
            ks = [None] + list(range(max(shape) if shape else 0))
            ms += [(si, ki) for ki in ks]
        if matches: ms = [m for m in ms if matches(shape, m)]
        for m in ms:
            for c in [None] + (list(range(len(shape))) if caches else []):
                s = st.copy()
                s.ts["tree"] = build(eng, s, base, shape, c, m)
                s.ts["spec"] = (("tree", shape, m, c),)
                out.append(s)
    return out


def on_tree(nstr=2, matches=None, shapes=SHAPES, caches=True, prep=None):
    """args: parser, section, key"""
    def pre(eng, s, f, args):
        s.set_nn(args[0], True)
        for a in args[1:1 + nstr]: s.set_nn(a, True)
        out = []
        for x in trees(eng, s, s.canon(args[0])[1], shapes, matches, caches):
            t = dict(x.ts["tree"])
            for n, a in zip(("section", "key"), args[1:1 + nstr]):
                b = x.canon(a)[1]
                cstr(eng, x, b, ZERO)
                t[n] = b
            x.ts["tree"] = t
            out += prep(eng, x, args) if prep else [x]
        return out
    return pre


def null_arg(k, others=()):
    """one pointer argument is NULL: refused, nothing changes"""
    def pre(eng, s, f, args):
        out = []
        for i in range(len(args)):
            if i == k: s.set_nn(args[i], False)
            elif args[i][0] == "p" and i not in others: s.set_nn(args[i], True)
        if k == 0:
            s.ts["spec"] = (("null", k),)
            return [s]
        for x in trees(eng, s, s.canon(args[0])[1], ((1,),), lambda sh, m: m == (0, 0)):
            t = dict(x.ts["tree"])
            for n, i in (("section", 1), ("key", 2)):
                if i < len(args) and i != k and args[i][0] == "p":
                    t[n] = x.canon(args[i])[1]
                    cstr(eng, x, t[n], ZERO)
            x.ts["tree"] = t
            x.ts["spec"] = x.ts["spec"] + (("null", k),)
            out.append(x)
        return out
    return pre


def code(c):
    """[(state, result)] with the possible result codes told apart"""
    out = []
    for st, e in c.ret(32, True):
        v = st.cons.constval(e)
        if v is not None: out.append((st, v)); continue
        for k in range(5):
            s = st.copy()
            if s.assume_eq(addc(e, -k)): out.append((s, k))
    return out


# ------------------------------------------------------------------ final states
def structure(c, st, what):
    """[(section base, list base, [kv base])] of the final tree or None"""
    t, l = st.ts["tree"], L(c.eng, st)
    lay = t["lay"]
    root = st.canon(c.eng.load_mem(st, None, t["p"], const(lay.root[0]), 8, ir.PTR))
    if root[1] != t["root"] or freed(st, root[1]): c.fail("%s: the list of sections is lost" % what, "root"); return None
    out = []
    top = l.walk(c, st, root[1])
    if top is None: return None
    for n, d in top:
        d = st.canon(d)
        if freed(st, d[1]): c.fail("%s: a released section is still listed" % what, "dangling"); return None
        if d[1][0] != "h": c.fail("%s: something else than a section is listed" % what, "section"); return None
        lb = st.canon(c.eng.load_mem(st, None, d[1], const(lay.list[0]), 8, ir.PTR))
        if lb[1][0] != "h" or freed(st, lb[1]): c.fail("%s: a section has no list of keys" % what, "keys"); return None
        kvs = l.walk(c, st, lb[1])
        if kvs is None: return None
        ks = [st.canon(x)[1] for _, x in kvs]
        if any(freed(st, k) for k in ks): c.fail("%s: a released key is still listed" % what, "dangling"); return None
        out.append((d[1], lb[1], ks))
    cache = st.canon(c.eng.load_mem(st, None, t["p"], const(lay.cache[0]), 8, ir.PTR))
    if st.is_null(cache) is not True and cache[1] not in [o[0] for o in out]:
        c.fail("%s: the remembered section is not one of the sections" % what, "cache"); return None
    return out


def before(t): return [(s[0], s[1], list(s[3])) for s in t["secs"]]


def kept(c, st, what, writes=True):
    t = st.ts["tree"]
    now = structure(c, st, what)
    if now is None: return False
    if now != before(t): c.fail("%s: sections or keys changed" % what, "changed"); return False
    if writes and st.ts.get("w"): c.fail("%s: a name or value is overwritten" % what, "overwritten"); return False
    return True


def found(t):
    si, ki = t["match"]
    return si is not None and ki is not None and ki < t["shape"][si]


def p24():
    S_ = Specs("ini")

    # ---- put
    def value_ok(c, st, w, base, lay, varg, what):
        v = [x for x in w if x[1] == base]
        src = st.canon(varg)
        for x in v:
            if x[0] != "str": c.fail("%s: the entry is written other than by copying strings" % what, "raw"); return False
        vs = [x for x in v if x[2] == const(lay.value[0])]
        if len(vs) != 1: c.fail("%s: the value is not stored" % what, "value"); return False
        x = vs[0]
        if x[5] != lay.value[1]: c.fail("%s: the value is cut to %s bytes" % (what, x[5]), "cut"); return False
        if st.is_null(src) is True:
            g = c.eng.find_global(x[3]) if x[3][0] == "g" else None
            if g is None or not g.init or not (g.init[0] == "zero" or g.init[0] == "str" and bytes(g.init[1])[:1] == b"\0"): c.fail("%s: no value is not stored as an empty one" % what, "empty"); return False
        elif x[3] != src[1] or x[4] != ZERO: c.fail("%s: another string than the value is stored" % what, "value"); return False
        return True

    def copied(c, st, w, base, off, size, src, what):
        v = [x for x in w if x[1] == base and x[2] == const(off)]
        if len(v) != 1 or v[0][0] != "str" or v[0][3] != src or v[0][4] != ZERO: c.fail("%s: the name is not stored" % what, "name"); return False
        if v[0][5] != size: c.fail("%s: the name is cut to %s bytes" % (what, v[0][5]), "cut"); return False
        return True

    @S_.fn("ini_parser_put_string", on_tree())
    def _(c):
        for st, r in code(c):
            t = st.ts["tree"]
            lay, w, old = t["lay"], st.ts.get("w", ()), before(t)
            now = structure(c, st, "put")
            if now is None: continue
            if r != OK:
                if not st.ts.get("allocfail"): c.fail("refused although memory was available", "refused"); continue
                if [n for n in now[:len(old)]] != old or any(n[2] for n in now[len(old):]) or len(now) > len(old) + 1: c.fail("a refused entry changes the others", "changed"); continue
                if any(x[1] in watched(t) for x in w): c.fail("a refused entry overwrites another", "overwritten")
                if len(now) > len(old): copied(c, st, w, now[-1][0], lay.name[0], lay.name[1], t["section"], "new section")
                continue
            if found(t):
                si, ki = t["match"]
                kb = t["secs"][si][3][ki]
                if now != old: c.fail("updating a value changes sections or keys", "changed"); continue
                if any(x[1] in watched(t) and x[1] != kb for x in w): c.fail("updating a value overwrites another entry", "overwritten"); continue
                if any(x[1] == kb and x[2] != const(lay.value[0]) for x in w): c.fail("updating a value overwrites its key", "overwritten"); continue
                value_ok(c, st, w, kb, lay, c.args[3], "update")
                continue
            if any(x[1] in watched(t) for x in w): c.fail("a new entry overwrites another", "overwritten"); continue
            si = t["match"][0]
            if si is None:
                if now[:-1] != old or len(now) != len(old) + 1: c.fail("a new section is not added behind the others", "section"); continue
                if not copied(c, st, w, now[-1][0], lay.name[0], lay.name[1], t["section"], "new section"): continue
                had = []
                o = L(c.eng, st).at(st, now[-1][1])
                if o.p(st, "free_cb")[1] != release_cb(c.eng)[1]: c.fail("the keys of a new section would not be released", "callback"); continue
                si = len(now) - 1
            else:
                if len(now) != len(old) or [n[:2] for n in now] != [n[:2] for n in old] or any(n != o for i, (n, o) in enumerate(zip(now, old)) if i != si):
                    c.fail("a new key changes other sections", "changed"); continue
                had = old[si][2]
            if now[si][2][:-1] != had or len(now[si][2]) != len(had) + 1: c.fail("a new key is not added behind the others of its section", "key"); continue
            kb = now[si][2][-1]
            if copied(c, st, w, kb, lay.key[0], lay.key[1], t["key"], "new key"): value_ok(c, st, w, kb, lay, c.args[3], "new key")

    def refuse(c):
        for st, r in code(c):
            if r == OK: c.fail("a NULL argument is accepted", "null"); continue
            if st.ts.get("tree"): kept(c, st, "refused")

    for k in (0, 1, 2): S_.add("ini_parser_put_string", null_arg(k, (3,)), refuse)

    # ---- get
    def asked(c, st, r, hit, what):
        """the code of a lookup that only depends on the presence"""
        if hit and r != OK: c.fail("%s: what is there is not found" % what, "missed")
        elif not hit and r != NOTFOUND: c.fail("%s: what is not there is reported as %d" % (what, r), "absent")

    @S_.fn("ini_parser_get_string", on_tree())
    def _(c):
        for st, r in code(c):
            t = st.ts["tree"]
            if not kept(c, st, "reading"): continue
            cp = [x for x in st.ts.get("copies", ()) if x[0] == st.canon(c.args[3])[1]]
            if not found(t):
                if r != NOTFOUND: c.fail("a key that is not there is reported as %d" % r, "absent")
                if cp or any(x[0] == "str" for x in st.ts.get("w", ())): c.fail("a value is handed out for a key that is not there", "absent")
                continue
            kb, lay = t["secs"][t["match"][0]][3][t["match"][1]], t["lay"]
            n = st.red(c.eng.as_int(st, c.args[4], 64))
            ln = models.slen_of(c.eng, st, None, ("p", kb, const(lay.value[0])))
            if st.is_null(c.args[3]) is True or st.cons.entails_eq(n):
                if r != OK: c.fail("a key that is there is not reported", "missed")
                continue
            if r == OK:
                if not st.cons.entails_ge0(addc(sub(n, ln), -1)): c.fail("a value is handed out into too small a buffer", "small"); continue
                if len(cp) != 1 or cp[0][2] != kb or st.red(cp[0][3]) != const(lay.value[0]) or st.red(cp[0][1]) != ZERO: c.fail("another value is handed out", "value"); continue
                c.eq(cp[0][4], addc(ln, 1), "the value is copied with its terminator", "length", st=st)
            elif r == NOMEM:
                if not st.cons.entails_ge0(sub(ln, n)): c.fail("a buffer that is large enough is refused", "large")
            else: c.fail("a key that is there is reported as %d" % r, "missed")

    for k in (0, 1): S_.add("ini_parser_get_string", null_arg(k), refuse)

    @S_.fn("ini_parser_has_section_key", on_tree())
    def _(c):
        for st, r in code(c):
            if kept(c, st, "asking"): asked(c, st, r, found(st.ts["tree"]), "key")

    @S_.fn("ini_parser_has_section", on_tree(1, lambda sh, m: m[1] is None))
    def _(c):
        for st, r in code(c):
            if kept(c, st, "asking"): asked(c, st, r, st.ts["tree"]["match"][0] is not None, "section")

    # ---- delete
    @S_.fn("ini_parser_delete_by_section_key", on_tree())
    def _(c):
        for st, r in code(c):
            t = st.ts["tree"]
            now = structure(c, st, "deleting")
            if now is None: continue
            asked(c, st, r, found(t), "deleting")
            want = before(t)
            if found(t):
                si, ki = t["match"]
                kb = want[si][2].pop(ki)
                if not freed(st, kb) or not freed(st, t["secs"][si][2][ki]): c.fail("a deleted key is not released", "kept"); continue
            if now != want: c.fail("deleting a key changes others", "changed")
            if st.ts.get("w"): c.fail("deleting a key overwrites another entry", "overwritten")

    for k in (0, 1, 2): S_.add("ini_parser_delete_by_section_key", null_arg(k), refuse)

    @S_.fn("ini_parser_delete_section", on_tree(1, lambda sh, m: m[1] is None))
    def _(c):
        for st, r in code(c):
            t = st.ts["tree"]
            now = structure(c, st, "deleting")
            if now is None: continue
            si = t["match"][0]
            asked(c, st, r, si is not None, "deleting")
            want = before(t)
            if si is not None:
                sb, lb, ks = want.pop(si)
                if any(not freed(st, b) for b in [sb, lb, t["nodes"][si]] + ks + list(t["secs"][si][2])): c.fail("a deleted section is not released with its keys", "kept"); continue
            if now != want: c.fail("deleting a section changes others", "changed")
            if st.ts.get("w"): c.fail("deleting a section overwrites another entry", "overwritten")

    for k in (0, 1): S_.add("ini_parser_delete_section", null_arg(k), refuse)

    # ---- walking
    def pre_foreach(eng, s, f, args):
        for a in args[:2]: s.set_nn(a, True)
        s.ts["fns"] = (("handler", args[1]),)
        return trees(eng, s, s.canon(args[0])[1], SHAPES, lambda sh, m: m == (None, None), False)

    @S_.fn("ini_parser_foreach", pre_foreach)
    def _(c):
        for st, r in code(c):
            t = st.ts["tree"]
            if not kept(c, st, "walking"): continue
            lay = t["lay"]
            want = [(s[0], k) for s in t["secs"] for k in s[3]]
            ev = events(st, "handler")
            for n, (a, v) in enumerate(ev):
                if n >= len(want): c.fail("the handler is called more often than there are entries", "often"); break
                sb, kb = want[n]
                exp = ((sb, lay.name[0]), (kb, lay.key[0]), (kb, lay.value[0]))
                if any(a[i][1] != b or st.red(a[i][2]) != const(o) for i, (b, o) in enumerate(exp)): c.fail("the handler is not given the section, key and value of the next entry", "entry"); break
                if a[3][1] != st.canon(c.args[2])[1]: c.fail("the handler is not given the user's data", "user"); break
                if v and n + 1 < len(ev): c.fail("the handler is called again after it asked to stop", "stop"); break
            else:
                if not (ev and ev[-1][1]) and len(ev) != len(want): c.fail("an entry is left out", "left")
            if r != OK: c.fail("walking is reported as failed", "status")

    # ---- text
    def expected(t):
        lay, out = t["lay"], []

        def lit(x):
            if out and out[-1][0] == "lit": out[-1] = ("lit", out[-1][1] + x)
            else: out.append(("lit", x))
        for sb, lb, kn, ks in t["secs"]:
            lit("["); out.append(("str", sb, const(lay.name[0]))); lit("]\r\n")
            for kb in ks:
                out.append(("str", kb, const(lay.key[0]))); lit(" = "); out.append(("str", kb, const(lay.value[0]))); lit("\r\n")
            lit("\r\n")
        return tuple(out)

    def complete(c, st):
        t = st.ts["tree"]
        if st.ts.get("appendfail"): c.fail("success is reported although a part of the text could not be appended", "partial"); return False
        if st.ts.get("shown") != expected(t): c.fail("the text is not the sections with their keys and values in order", "text"); return False
        return True

    def pre_text(**kw):
        def pre(eng, s, f, args):
            for a in args: 
                if a[0] == "p": s.set_nn(a, True)
            out = trees(eng, s, s.canon(args[0])[1], SHAPES, lambda sh, m: m == (None, None), False)
            for x in out: x.ts["tree"] = dict(x.ts["tree"], **kw)
            return out
        return pre

    @S_.fn("ini_parser_dump", pre_text())
    def _(c):
        st = c.st
        if not kept(c, st, "dumping"): return
        if st.is_null(c.r) is True:
            if not st.ts.get("appendfail") and not st.ts.get("allocfail"): c.fail("no text although nothing failed", "none")
            return
        if st.canon(c.r)[1] != st.ts.get("dup"): c.fail("something other than a copy of the text is returned", "copy"); return
        complete(c, st)

    @S_.fn("ini_parser_dump_to_mem", pre_text())
    def _(c):
        for st, r in code(c):
            if not kept(c, st, "dumping"): continue
            if r != OK: continue
            if not complete(c, st): continue
            mem = st.canon(c.args[1])
            cp = [x for x in st.ts.get("copies", ()) if x[0] == mem[1]]
            ln = models.slen_of(c.eng, st, None, ("p", Ini.TEXT, ZERO))
            if len(cp) != 1 or cp[0][2] != Ini.TEXT or st.red(cp[0][3]) != ZERO or st.red(cp[0][1]) != ZERO: c.fail("the text is not copied to the caller's memory", "copy"); continue
            c.eq(cp[0][4], addc(ln, 1), "the text is copied with its terminator", "length", st=st)
            sp = st.canon(c.args[2])
            v = st.red(c.eng.as_int(st, c.eng.load_mem(st, None, sp[1], sp[2], 8, ir.int_t(64), False), 64))
            c.eq(v, addc(ln, 1), "the size is reported", "size", st=st)
            if not st.cons.entails_ge0(sub(st.ts["room"], addc(ln, 1))): c.fail("the text is copied into too small a memory", "small")

    S_.t["ini_parser_dump_to_mem"][0] = (lambda eng, s, f, args: [room(eng, x, args) for x in pre_text()(eng, s, f, args)], S_.t["ini_parser_dump_to_mem"][0][1])

    def room(eng, s, args):
        n = sym(fsym("room", 0, (1 << 48)))
        sp = s.canon(args[2])
        eng.store_mem(s, None, sp[1], sp[2], ("i", n), 8)
        s.ts["room"] = n
        return s

    @S_.fn("ini_parser_save", pre_text(save=True))
    def _(c):
        for st, r in code(c):
            if not kept(c, st, "saving"): continue
            if r != OK: continue
            if st.ts.get("iofail"): c.fail("success is reported although writing failed", "io")
            if st.ts.get("written") != 1: c.fail("success is reported without the text having been written once", "written")
            elif complete(c, st): pass

    # ---- numbers
    def pre_get(texts):
        def pre(eng, s, f, args):
            out = []
            for m, tx in [((0, 0), x) for x in texts] + [((0, None), "number"), ((None, 0), "number")]:
                def prep(eng, x, args, tx=tx):
                    t = dict(x.ts["tree"], get=True, text=tx)
                    x.ts["tree"] = t
                    x.ts["spec"] = x.ts["spec"] + (tx,)
                    kb = t["secs"][0][3][0]
                    x.set_nn(args[3], True)
                    cstr(eng, x, kb, const(t["lay"].value[0]), empty=(tx == ""))
                    if tx == "":
                        models.slen_of(eng, x, None, ("p", kb, const(t["lay"].value[0])))
                        eng.put_cell(x, kb, const(t["lay"].value[0]), I(0), 1)
                        x.assume_eq(models.slen_of(eng, x, None, ("p", kb, const(t["lay"].value[0]))))
                    else: x.assume_le(addc(models.slen_of(eng, x, None, ("p", kb, const(t["lay"].value[0]))), -200))
                    return [x]
                out += on_tree(2, lambda sh, mm: mm == m, ((1,),), False, prep)(eng, s.copy(), f, args)
            return out
        return pre

    def number(w, kind):
        def post(c):
            for st, r in code(c):
                t = st.ts["tree"]
                if not kept(c, st, "reading"): continue
                p = st.canon(c.args[3])
                ws = [x for x in st.ts.get("out", ())]
                if not found(t):
                    if r != NOTFOUND: c.fail("a key that is not there is reported as %d" % r, "absent")
                    if ws: c.fail("a value is handed out for a key that is not there", "absent")
                    continue
                if t["text"] == "":
                    if r == OK: c.fail("an empty value is handed out as a number", "empty")
                    continue
                if t["text"] in TEXTS:
                    v = TEXTS[t["text"]]
                    if r != OK: c.fail("%s is not understood" % t["text"], "words"); continue
                    cell = c.eng.load_mem(st, None, p[1], p[2], 1, ir.int_t(8), False)
                    if not ws or st.cons.constval(st.red(c.eng.as_int(st, cell, 8))) != v: c.fail("%s is not handed out as %d" % (t["text"], v), "words")
                    continue
                if st.ts.get("whole") is None: c.fail("the value is not converted", "converted"); continue
                k, v = st.ts["number"]
                if k != kind and not (kind == "float" and k == "double"): c.fail("the value is converted as %s" % k, "kind"); continue
                if kind == "ll" and w != 1:
                    n = st.red(v[1])
                    fits = (st.cons.entails_ge0(addc(n, 1 << (8 * w - 1))) and st.cons.entails_ge0(sub(const((1 << (8 * w - 1)) - 1), n))) if w < 8 else True
                if not st.ts["whole"]:
                    if r == OK: c.fail("a value that is not a number is handed out as one", "garbage")
                    elif ws: c.fail("a value that is not a number is handed out", "written")
                    continue
                if r != OK:
                    if kind != "ll" or w in (1, 8): c.fail("a number is refused", "refused"); continue
                    a, b = st.copy(), st.copy()
                    if a.assume_ge0(addc(n, 1 << (8 * w - 1))) and a.assume_le(addc(n, -(1 << (8 * w - 1)) + 1)): c.fail("a number is refused", "refused")
                    elif ws: c.fail("a number that does not fit is handed out", "written")
                    continue
                if not ws: c.fail("success is reported without a value", "nothing"); continue
                cell = c.eng.load_mem(st, None, p[1], p[2], w, ir.int_t(8 * w) if kind == "ll" else ir.PTR, False)
                if kind != "ll": continue
                if w == 1:
                    for s2, e in c.eng.ucanon(st.copy(), st.red(c.eng.as_int(st, cell, 8)), 8):
                        b = s2.cons.constval(s2.red(e))
                        n2 = s2.red(v[1])
                        if b == 0 and not s2.cons.entails_eq(n2): c.fail("a number other than 0 is handed out as false", "truth")
                        elif b == 1:
                            z = s2.copy()
                            if z.assume_eq(n2): c.fail("0 is handed out as true", "truth")
                        elif b is None: c.fail("a number is handed out as neither true nor false", "truth")
                    continue
                if not fits: c.fail("a number that does not fit is handed out", "fits"); continue
                for s2, e in c.eng.scanon(st.copy(), st.red(c.eng.as_int(st, cell, 8 * w)), 8 * w): c.eq(e, s2.red(n), "the number is handed out", "number", st=s2)
        return post

    for n, w, k in (("int", 4, "ll"), ("long", 8, "ll"), ("long_long", 8, "ll"), ("double", 8, "double"), ("float", 4, "float")):
        S_.add("ini_parser_get_" + n, pre_get(["number", ""]), number(w, k))
    S_.add("ini_parser_get_bool", pre_get(["number", ""] + list(TEXTS)), number(1, "ll"))

    # ---- beginning and end
    def pre_parse(eng, s, f, args):
        a, b = s.copy(), s
        b.set_nn(args[0], True)
        b.ts["tree"] = {"parse": b.canon(args[0])[1], "secs": (), "lay": Lay(eng)}
        b.ts["spec"] = ("text",)
        a.set_nn(args[0], False)
        a.ts["tree"] = {"parse": None, "secs": (), "lay": Lay(eng)}
        a.ts["spec"] = ("empty",)
        return [a, b]

    def fresh(c, st):
        lay, l, p = Lay(c.eng), L(c.eng, st), st.canon(c.r)
        root = st.canon(c.eng.load_mem(st, None, p[1], const(lay.root[0]), 8, ir.PTR))
        if freed(st, p[1]): c.fail("a released parser is returned", "released"); return
        if root[1][0] != "h" or freed(st, root[1]): c.fail("the parser has no list of sections", "root"); return
        got = l.walk(c, st, root[1])
        if got is None: return
        if got: c.fail("a new parser is not empty", "empty")
        if l.at(st, root[1]).p(st, "free_cb")[1] != release_cb(c.eng)[1]: c.fail("the sections would not be released", "callback")
        if st.is_null(c.eng.load_mem(st, None, p[1], const(lay.cache[0]), 8, ir.PTR)) is not True: c.fail("a new parser remembers a section", "cache")

    @S_.fn("ini_parser_parse_str", pre_parse)
    def _(c):
        st = c.st
        if st.is_null(c.r) is True:
            if st.ts.get("read") is not False and not st.ts.get("allocfail"): c.fail("no parser although nothing failed", "none")
            return
        if st.ts["tree"]["parse"] is not None:
            if st.ts.get("read") is None: c.fail("the text is not parsed", "parsed"); return
            if not st.ts["read"]: c.fail("a parser is returned although the text has an error", "error"); return
            if st.ts["handed"][0] != st.canon(c.r)[1]: c.fail("the entries are stored in another parser", "other"); return
        fresh(c, st)

    @S_.fn("ini_parser_create", None)
    def _(c):
        if c.st.is_null(c.r) is True:
            if not c.st.ts.get("allocfail"): c.fail("no parser although nothing failed", "none")
        else: fresh(c, c.st)

    def pre_destroy(eng, s, f, args):
        s.set_nn(args[0], True)
        pb = heap(eng, s, "parser", Lay(eng).psize)
        p = s.canon(args[0])
        eng.store_mem(s, None, p[1], p[2], ("p", pb, ZERO), 8)
        return trees(eng, s, pb, SHAPES, lambda sh, m: m == (None, None), True)

    @S_.fn("ini_parser_destroy", pre_destroy)
    def _(c):
        for st, r in code(c):
            t = st.ts["tree"]
            obs = [t["p"], t["root"]] + list(t["nodes"])
            for s in t["secs"]: obs += [s[0], s[1]] + list(s[2]) + list(s[3])
            if any(not freed(st, b) for b in obs): c.fail("a part of the parser is not released", "kept")
            p = st.canon(c.args[0])
            if st.is_null(c.eng.load_mem(st, None, p[1], p[2], 8, ir.PTR)) is not True: c.fail("the caller's handle is not cleared", "handle")
            if r != OK: c.fail("destroying is reported as failed", "status")
    return S_


class Out(Client):
    """what is written to the caller's variable"""
    name = "out"

    def on_access(self, eng, st, ins, base, off, size, write, val=None):
        t = st.ts.get("tree")
        if t and t.get("get") and write and ins is not None and base[0] == "s" and base not in (t["p"], t.get("section"), t.get("key")): st.ts["out"] = st.ts.get("out", ()) + ((base, size),)

    def key(self, ts): return repr(ts["out"]) if ts.get("out") else None


CLIENTS = [Ini, Out, Callbacks]
OPTS = {"merge_cap": 300, "ret_cap": 300, "loop_entry_cap": 64, "loop_parts": 300, "unroll": 8, "recursion": 2, "enumerate": 200}
