"""Compile /repo's current sources to LLVM IR (clang -O0 + sroa) and parse it.

The IR is the resolved program: callees, types, layouts and control flow are
what the compiler sees, so comments, naming and statement layout do not matter.
"""
import os, re, subprocess, sys, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("LCU_REPO", "/repo")
SKIP = ("src/sys/", "src/thread/pthread_win")
BASE_FLAGS = ["-std=gnu11", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-S",
              "-fno-discard-value-names", "-D_DEBUG", "-D_GNU_SOURCE",
              "-D_PLATFORM=linux", "-D_PLATFORM_ABI=x64", "-w",
              "-fPIC", "-U_FORTIFY_SOURCE"]
VARIANTS = {"main": [], "memcheck": ["-D_LCU_MEM_CHECK_FEATURE_ENABLE=1"]}


class AnalysisBroken(Exception):
    pass


def source_files():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith(".c"):
                p = os.path.relpath(os.path.join(root, f), REPO)
                if not p.startswith(SKIP):
                    out.append(p)
    return sorted(out)


# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "w", "el", "n", "name", "packed", "_size", "_align", "_offs")

    def __init__(self, k, w=0, el=None, n=0, name=None, packed=False):
        self.k, self.w, self.el, self.n, self.name, self.packed = k, w, el, n, name, packed
        self._size = self._align = self._offs = None

    def __repr__(self):
        if self.k == "i": return "i%d" % self.w
        if self.k == "a": return "[%d x %r]" % (self.n, self.el)
        if self.k == "s": return self.name or "{%s}" % ",".join(map(repr, self.el))
        return self.k


I1, I8, I16, I32, I64 = (T("i", w) for w in (1, 8, 16, 32, 64))
_ints = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}
PTR = T("p")
VOID = T("v")
F64 = T("f", 64)
F32 = T("f", 32)
META = T("m")
LABEL = T("l")


def int_t(w):
    if w not in _ints:
        _ints[w] = T("i", w)
    return _ints[w]


def layout(t):
    """returns size; fills offsets"""
    if t._size is not None:
        return t._size
    if t.k == "i":
        b = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.w, (t.w + 7) // 8)
        t._size, t._align = b, b
    elif t.k == "p":
        t._size, t._align = 8, 8
    elif t.k == "f":
        t._size = t._align = t.w // 8
    elif t.k == "a":
        s = layout(t.el)
        t._size, t._align = s * t.n, t.el._align
    elif t.k == "s":
        if t.el is None:
            raise AnalysisBroken("layout of opaque struct %s" % t.name)
        off, al, offs = 0, 1, []
        for e in t.el:
            layout(e)
            a = 1 if t.packed else e._align
            off = (off + a - 1) // a * a
            offs.append(off)
            off += e._size
            al = max(al, a)
        t._offs = offs
        t._align = al
        t._size = (off + al - 1) // al * al
    else:
        t._size, t._align = 0, 1
    return t._size


# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''\s*(?:
 (c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|("(?:[^"\\]|\\.)*")|
 ([%@](?:"[^"]*"|[-\w.$]+))|(![\w.]*)|(\#\d+)|
 (-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|
 ([A-Za-z_][\w.]*)|(\.\.\.)|([<>{}()\[\],=*:|]))''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] in " \t":
            i += 1
            continue
        if s[i] == ";":
            break
        m = TOK.match(s, i)
        if not m:
            raise AnalysisBroken("IR tokenizer stuck at: " + s[i:i + 60])
        out.append(m.group(0).strip())
        i = m.end()
    return out


class Instr:
    __slots__ = ("op", "res", "ty", "ops", "extra", "loc", "fn", "idx", "blk")

    def __init__(self, op, res=None, ty=None, ops=(), extra=None):
        self.op, self.res, self.ty, self.ops, self.extra = op, res, ty, ops, extra
        self.loc = None

    def __repr__(self):
        return "%s=%s %s %s %s" % (self.res, self.op, self.ty, self.ops, self.extra)


class Block:
    def __init__(self, name):
        self.name, self.ins = name, []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.vararg = False
        self.blocks = {}
        self.order = []
        self.internal = False
        self.module = None
        self.dbg = None
        self.line = 0
        self.file = None
        self.noreturn = False
        self.dbgvars = {}


class Global:
    def __init__(self, name):
        self.name = name
        self.ty = None
        self.init = None
        self.const = False
        self.internal = False
        self.external = False
        self.module = None


class Module:
    def __init__(self, path):
        self.path = path
        self.structs = {}
        self.funcs = {}
        self.globals = {}
        self.decls = {}
        self.md = {}
        self._fields = {}


class P:
    """recursive-descent reader over a token list"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def nxt(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise AnalysisBroken("IR parse: expected %r at %r" % (x, self.t[self.i:self.i + 8]))

    def type(self):
        x = self.nxt()
        if x == "ptr": t = PTR
        elif x == "void": t = VOID
        elif x == "double": t = F64
        elif x == "float": t = F32
        elif x == "x86_fp80": t = T("f", 128)
        elif x == "metadata": t = META
        elif x == "label": t = LABEL
        elif x == "...": t = T("...")
        elif re.match(r"i\d+$", x): t = int_t(int(x[1:]))
        elif x == "[":
            n = int(self.nxt()); self.need("x"); el = self.type(); self.need("]")
            t = T("a", el=el, n=n)
        elif x == "{":
            els = []
            while not self.eat("}"):
                els.append(self.type()); self.eat(",")
            t = T("s", el=els)
        elif x == "<":
            if self.eat("{"):
                els = []
                while not self.eat("}"):
                    els.append(self.type()); self.eat(",")
                self.need(">")
                t = T("s", el=els, packed=True)
            else:
                n = int(self.nxt()); self.need("x"); el = self.type(); self.need(">")
                t = T("a", el=el, n=n)
        elif x.startswith("%"):
            if x not in self.m.structs:
                self.m.structs[x] = T("s", el=None, name=x)
            t = self.m.structs[x]
        else:
            raise AnalysisBroken("IR parse: type %r" % (self.t[self.i - 1:self.i + 6],))
        # function type in calls: T (args)
        if self.peek() == "(" and t is not META:
            # only treat as a function type when the closing paren is followed by @/% or '*'
            d, j = 0, self.i
            while True:
                if self.t[j] == "(": d += 1
                elif self.t[j] == ")":
                    d -= 1
                    if d == 0: break
                j += 1
            if j + 1 < len(self.t) and (self.t[j + 1][0] in "@%"):
                self.i = j + 1
        return t

    ATTR = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly",
            "readnone", "returned", "inreg", "noreturn", "nounwind", "immarg", "dso_local", "local_unnamed_addr",
            "unnamed_addr", "inbounds", "nsw", "nuw", "exact", "volatile", "nneg", "disjoint", "fast", "nnan",
            "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "noinline", "allocptr"}

    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTR:
                self.i += 1
            elif x in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "memory"):
                self.i += 1
                if self.peek() == "(":
                    d = 0
                    while True:
                        y = self.nxt()
                        if y == "(": d += 1
                        if y == ")":
                            d -= 1
                            if d == 0: break
                else:
                    self.i += 1
            else:
                return

    def value(self, ty):
        """constant or local. Encoded as tuples."""
        x = self.nxt()
        if x[0] == "%": return ("l", x)
        if x[0] == "@": return ("g", x[1:].strip('"'))
        if x == "null": return ("null",)
        if x == "true": return ("c", 1)
        if x == "false": return ("c", 0)
        if x in ("undef", "poison"): return ("undef",)
        if x == "zeroinitializer": return ("zero",)
        if x.startswith('c"'):
            s = x[2:-1]
            b, i = bytearray(), 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\":
                        b.append(92); i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return ("str", bytes(b))
        if x == "getelementptr":
            self.attrs()
            self.need("(")
            sty = self.type()
            ops = []
            while self.eat(","):
                t = self.type(); self.attrs()
                ops.append((t, self.value(t)))
            self.need(")")
            return ("gep", sty, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.need("(")
            t = self.type(); v = self.value(t)
            self.need("to"); t2 = self.type(); self.need(")")
            return ("cast", x, t, v, t2)
        if x in ("sub", "add", "mul", "icmp"):
            if x == "icmp": self.nxt()
            self.attrs(); self.need("(")
            t = self.type(); a = self.value(t); self.need(",")
            t2 = self.type(); b = self.value(t2); self.need(")")
            return ("cbin", x, t, a, b)
        if x in ("{", "["):
            close = "}" if x == "{" else "]"
            els = []
            while not self.eat(close):
                t = self.type()
                els.append((t, self.value(t)))
                self.eat(",")
            return ("agg", els)
        if x == "<":
            self.need("{")
            els = []
            while not self.eat("}"):
                t = self.type()
                els.append((t, self.value(t)))
                self.eat(",")
            self.need(">")
            return ("agg", els)
        if re.match(r"-?\d+$", x):
            return ("c", int(x))
        if re.match(r"-?(0x|\d)", x):
            return ("fc", x)
        if x == "blockaddress":
            raise AnalysisBroken("blockaddress unsupported")
        if x.startswith("!"):
            return ("md", x)
        raise AnalysisBroken("IR parse: value %r in %r" % (x, self.t))


CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptrunc", "fpext", "fptosi", "fptoui", "sitofp", "uitofp", "addrspacecast"}
BINS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}


def parse_instr(mod, line):
    loc = None
    m = re.search(r", !dbg !(\d+)", line)
    if m: loc = int(m.group(1))
    line = re.sub(r", !(?:dbg|tbaa|srcloc|llvm\.loop|prof|nosanitize|range|nonnull|heapallocsite) ![\d]+", "", line)
    toks = tokenize(line)
    p = P(mod, toks)
    res = None
    if len(toks) > 1 and toks[1] == "=":
        res = p.nxt(); p.nxt()
    op = p.nxt()
    while op in ("tail", "musttail", "notail"):
        op = p.nxt()
    ins = None
    if op == "ret":
        t = p.type()
        ins = Instr("ret", None, t, () if t is VOID else (p.value(t),))
    elif op == "br":
        if p.eat("label"):
            ins = Instr("br", None, None, (), [p.nxt()[1:]])
        else:
            t = p.type(); v = p.value(t); p.need(","); p.need("label"); a = p.nxt(); p.need(","); p.need("label"); b = p.nxt()
            ins = Instr("br", None, None, (v,), [a[1:], b[1:]])
    elif op == "switch":
        t = p.type(); v = p.value(t); p.need(","); p.need("label"); d = p.nxt(); p.need("[")
        cases = []
        while not p.eat("]"):
            ct = p.type(); cv = p.value(ct); p.need(","); p.need("label"); cases.append((cv[1], p.nxt()[1:]))
        ins = Instr("switch", None, t, (v,), (d[1:], cases))
    elif op == "unreachable":
        ins = Instr("unreachable")
    elif op == "alloca":
        p.attrs(); t = p.type(); n = None
        if p.eat(","):
            if p.peek() == "align":
                p.attrs()
            else:
                nt = p.type(); n = (nt, p.value(nt))
        ins = Instr("alloca", res, t, (), n)
    elif op == "load":
        p.eat("atomic"); p.attrs(); t = p.type(); p.need(","); pt = p.type(); p.attrs()
        ins = Instr("load", res, t, (p.value(pt),))
        ins.extra = ("atomic" in toks, "volatile" in toks)
    elif op == "store":
        p.eat("atomic"); p.attrs(); t = p.type(); v = p.value(t); p.need(","); pt = p.type(); q = p.value(pt)
        ins = Instr("store", None, t, (v, q))
        ins.extra = ("atomic" in toks, "volatile" in toks)
    elif op == "getelementptr":
        p.attrs(); sty = p.type(); ops = []
        while p.eat(","):
            t = p.type(); ops.append((t, p.value(t)))
        ins = Instr("gep", res, sty, tuple(ops))
    elif op == "phi":
        p.attrs(); t = p.type(); inc = []
        while True:
            p.need("["); v = p.value(t); p.need(","); b = p.nxt(); p.need("]"); inc.append((v, b[1:]))
            if not p.eat(","): break
        ins = Instr("phi", res, t, tuple(inc))
    elif op == "select":
        p.attrs(); ct = p.type(); c = p.value(ct); p.need(","); t = p.type(); a = p.value(t); p.need(","); t2 = p.type(); b = p.value(t2)
        ins = Instr("select", res, t, (c, a, b))
    elif op in ("icmp", "fcmp"):
        p.attrs(); pr = p.nxt(); t = p.type(); a = p.value(t); p.need(","); b = p.value(t)
        ins = Instr(op, res, t, (a, b), pr)
    elif op in BINS:
        p.attrs(); t = p.type(); a = p.value(t); p.need(","); b = p.value(t)
        ins = Instr(op, res, t, (a, b), "nsw" in toks)
    elif op == "fneg":
        p.attrs(); t = p.type(); ins = Instr("fneg", res, t, (p.value(t),))
    elif op in CASTS:
        p.attrs(); t = p.type(); v = p.value(t); p.need("to"); t2 = p.type()
        ins = Instr("cast", res, t2, (v,), (op, t))
    elif op == "freeze":
        t = p.type(); ins = Instr("freeze", res, t, (p.value(t),))
    elif op == "call":
        p.attrs()
        while p.peek() in ("fastcc", "ccc"): p.nxt()
        p.attrs()
        t = p.type()
        p.attrs()
        if p.peek() == "asm":
            ins = Instr("call", res, t, (), (("asm", line), []))
        else:
            callee = p.value(PTR)
            p.need("(")
            args = []
            while not p.eat(")"):
                at = p.type(); p.attrs()
                if at is META:
                    # debug metadata; skip to , or )
                    d = 0
                    start = p.i
                    while not (d == 0 and p.peek() in (",", ")")):
                        y = p.nxt()
                        if y == "(": d += 1
                        if y == ")": d -= 1
                    args.append((META, ("md", p.t[start:p.i])))
                else:
                    args.append((at, p.value(at)))
                p.eat(",")
            ins = Instr("call", res, t, tuple(args), (callee, []))
    elif op == "extractvalue":
        t = p.type(); v = p.value(t); idx = []
        while p.eat(","): idx.append(int(p.nxt()))
        ins = Instr("extractvalue", res, t, (v,), idx)
    elif op == "insertvalue":
        t = p.type(); v = p.value(t); p.need(","); t2 = p.type(); v2 = p.value(t2); idx = []
        while p.eat(","): idx.append(int(p.nxt()))
        ins = Instr("insertvalue", res, t, (v, v2), (idx, t2))
    elif op == "atomicrmw":
        p.attrs(); kind = p.nxt(); pt = p.type(); q = p.value(pt); p.need(","); t = p.type(); v = p.value(t)
        ins = Instr("atomicrmw", res, t, (q, v), kind)
    elif op == "cmpxchg":
        p.eat("weak"); p.attrs(); pt = p.type(); q = p.value(pt); p.need(","); t = p.type(); c = p.value(t); p.need(","); t2 = p.type(); v = p.value(t2)
        ins = Instr("cmpxchg", res, t, (q, c, v))
    elif op == "fence":
        ins = Instr("fence")
    else:
        raise AnalysisBroken("IR parse: unknown op %r in %s" % (op, line))
    ins.loc = loc
    return ins


def parse_module(path, text):
    mod = Module(path)
    lines = text.split("\n")
    # metadata & struct types first
    for ln in lines:
        if ln.startswith("!"):
            m = re.match(r"!(\d+) = (.*)", ln)
            if m:
                mod.md[int(m.group(1))] = m.group(2)
        elif ln.startswith("%") and " = type " in ln:
            name, rest = ln.split(" = type ", 1)
            p = P(mod, tokenize(rest))
            t = mod.structs.setdefault(name, T("s", el=None, name=name))
            if rest.startswith("opaque"):
                continue
            body = p.type()
            t.el, t.packed = body.el, body.packed
    attr_noret = set()
    for ln in lines:
        m = re.match(r"attributes (#\d+) = \{(.*)\}", ln)
        if m and " noreturn" in m.group(2):
            attr_noret.add(m.group(1))
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith("@"):
            m = re.match(r'@("[^"]+"|[-\w.$]+) = (.*)', ln)
            name = m.group(1).strip('"')
            rest = m.group(2)
            g = Global(name)
            g.module = mod
            mm = re.match(r"((?:private|internal|external|dso_local|unnamed_addr|local_unnamed_addr|common|weak|hidden|thread_local(?:\(\w+\))?|global|constant)\s+)+", rest)
            head = mm.group(0).split()
            g.const = "constant" in head
            g.internal = "internal" in head or "private" in head
            g.external = "external" in head
            rest = rest[mm.end():]
            rest = re.sub(r", !dbg !\d+", "", rest)
            rest = re.sub(r", (align \d+|section \"[^\"]*\")", "", rest)
            p = P(mod, tokenize(rest))
            g.ty = p.type()
            if not g.external:
                g.init = p.value(g.ty)
            mod.globals[name] = g
        elif ln.startswith("declare"):
            m = re.match(r"declare .*?@([\w.$]+)\((.*)\)(.*)", ln)
            nm = m.group(1)
            ids = re.findall(r"#\d+", m.group(3))
            mod.decls[nm] = any(a in attr_noret for a in ids)
        elif ln.startswith("define"):
            m = re.match(r"define (.*?)@([\w.$]+)\((.*)\)([^()]*)\{\s*$", ln)
            if not m:
                raise AnalysisBroken("IR parse: define " + ln)
            fn = Func(m.group(2))
            fn.module = mod
            fn.internal = "internal" in m.group(1).split()
            pre = re.sub(r"\b(dso_local|internal|hidden|noundef|signext|zeroext|linkonce_odr|nonnull|noalias|available_externally)\b", "", m.group(1)).strip()
            fn.ret = P(mod, tokenize(pre)).type()
            fn.noreturn = any(a in attr_noret for a in re.findall(r"#\d+", m.group(4)))
            md = re.search(r"!dbg !(\d+)", m.group(4))
            fn.dbg = int(md.group(1)) if md else None
            pt = tokenize(m.group(3))
            p = P(mod, pt)
            while p.i < len(pt):
                if p.eat(","): continue
                if p.peek() == "...":
                    p.nxt(); fn.vararg = True; continue
                t = p.type(); p.attrs()
                fn.params.append((p.nxt(), t))
            i += 1
            blk = None
            while not lines[i].startswith("}"):
                l = lines[i]
                if not l.strip() or l.lstrip().startswith(";"):
                    i += 1; continue
                mm = re.match(r'("[^"]+"|[-\w.$]+):', l)
                if mm and not l.startswith(" "):
                    blk = Block(mm.group(1).strip('"'))
                    fn.blocks[blk.name] = blk; fn.order.append(blk.name)
                else:
                    if blk is None:
                        blk = Block("entry"); fn.blocks["entry"] = blk; fn.order.append("entry")
                    txt = l.strip()
                    if txt.startswith("switch") and "]" not in txt:
                        while "]" not in lines[i]:
                            i += 1
                            txt += " " + lines[i].strip()
                    if "@llvm.dbg.value" in txt or "@llvm.dbg.declare" in txt:
                        mm = re.search(r"metadata (?:(?:ptr|i\d+|double|float) )?([%@\w.$-]+), metadata !(\d+)", txt)
                        if mm and mm.group(1).startswith("%"):
                            fn.dbgvars.setdefault(mm.group(1), int(mm.group(2)))
                        i += 1; continue
                    if "@llvm.dbg." in txt or "@llvm.lifetime" in txt:
                        i += 1; continue
                    ins = parse_instr(mod, txt)
                    ins.fn = fn; ins.blk = blk; ins.idx = len(blk.ins)
                    blk.ins.append(ins)
                i += 1
            for b in fn.blocks.values():
                t = b.ins[-1]
                if t.op == "br": b.succ = list(dict.fromkeys(t.extra))
                elif t.op == "switch": b.succ = list(dict.fromkeys([t.extra[0]] + [c[1] for c in t.extra[1]]))
            for b in fn.blocks.values():
                for s in b.succ: fn.blocks[s].pred.append(b.name)
            mod.funcs[fn.name] = fn
            sp = mod.md.get(fn.dbg, "")
            ml = re.search(r"line: (\d+)", sp)
            fn.line = int(ml.group(1)) if ml else 0
            mf = re.search(r"file: !(\d+)", sp)
            fn.file = file_of(mod, int(mf.group(1))) if mf else path
        i += 1
    return mod


def file_of(mod, n):
    s = mod.md.get(n, "")
    m = re.search(r'filename: "([^"]*)"', s)
    d = re.search(r'directory: "([^"]*)"', s)
    if not m: return "?"
    p = m.group(1)
    if not p.startswith("/") and d: p = os.path.join(d.group(1), p)
    p = os.path.normpath(p)
    if p.startswith(REPO + "/"): p = p[len(REPO) + 1:]
    return p


def loc_str(ins):
    mod = ins.fn.module
    if ins.loc is None:
        return "%s (in %s)" % (ins.fn.file, ins.fn.name)
    s = mod.md.get(ins.loc, "")
    m = re.search(r"line: (\d+)", s)
    sc = re.search(r"scope: !(\d+)", s)
    f = ins.fn.file
    if sc:
        seen = 0
        n = int(sc.group(1))
        while n is not None and seen < 20:
            d = mod.md.get(n, "")
            fm = re.search(r"file: !(\d+)", d)
            if fm:
                f = file_of(mod, int(fm.group(1))); break
            sm = re.search(r"scope: !(\d+)", d)
            n = int(sm.group(1)) if sm else None
            seen += 1
    return "%s:%s (in %s)" % (f, m.group(1) if m else "?", ins.fn.name)


# ---------------------------------------------------------------- debug-info field names
def md_list(mod, n):
    s = mod.md.get(n, "")
    return [int(x) for x in re.findall(r"!(\d+)", s[s.find("{"):])] if "{" in s else []


def struct_fields(mod, sname):
    """{byte offset: (field name, size, di type id)} of %struct.X, from debug info."""
    if sname in mod._fields:
        return mod._fields[sname]
    base = re.sub(r"^%(struct|union)\.", "", sname)
    cand = None
    st = mod.structs.get(sname)
    want = None
    try:
        want = layout(st)
    except Exception:
        pass
    for n, s in mod.md.items():
        if "DICompositeType(tag: DW_TAG_structure_type" in s:
            m = re.search(r'name: "([^"]+)"', s)
            if m and m.group(1) == base:
                cand = n
        elif "DIDerivedType(tag: DW_TAG_typedef" in s:
            m = re.search(r'name: "([^"]+)"', s)
            b = re.search(r"baseType: !(\d+)", s)
            if m and b and m.group(1) == base and "DW_TAG_structure_type" in mod.md.get(int(b.group(1)), ""):
                if cand is None: cand = int(b.group(1))
        if cand is not None: break
    out = {}
    if cand is not None:
        em = re.search(r"elements: !(\d+)", mod.md[cand])
        if em:
            for e in md_list(mod, int(em.group(1))):
                d = mod.md.get(e, "")
                nm = re.search(r'name: "([^"]+)"', d)
                of = re.search(r"offset: (\d+)", d)
                sz = re.search(r"size: (\d+)", d)
                bt = re.search(r"baseType: !(\d+)", d)
                out[int(of.group(1)) // 8 if of else 0] = (nm.group(1) if nm else "?", int(sz.group(1)) // 8 if sz else 0, int(bt.group(1)) if bt else None)
    mod._fields[sname] = out
    return out


def di_signed(mod, n, depth=0):
    """True/False/None for an integer DI type"""
    while n is not None and depth < 12:
        s = mod.md.get(n, "")
        if "DIBasicType" in s:
            if "DW_ATE_signed" in s: return True
            if "DW_ATE_unsigned" in s or "DW_ATE_boolean" in s: return False
            return None
        if "DW_TAG_enumeration_type" in s:
            return False
        if "DIDerivedType" in s and "DW_TAG_pointer_type" not in s:
            b = re.search(r"baseType: !(\d+)", s)
            n = int(b.group(1)) if b else None
            depth += 1
            continue
        return None
    return None


def di_enum(mod, n, depth=0):
    while n is not None and depth < 12:
        s = mod.md.get(n, "")
        if "DW_TAG_enumeration_type" in s:
            em = re.search(r"elements: !(\d+)", s)
            out = {}
            for e in md_list(mod, int(em.group(1))) if em else []:
                d = mod.md.get(e, "")
                out[re.search(r'name: "([^"]+)"', d).group(1)] = int(re.search(r"value: (-?\d+)", d).group(1))
            return out
        b = re.search(r"baseType: !(\d+)", s)
        if "DIDerivedType" not in s or "pointer_type" in s or not b: return None
        n = int(b.group(1)); depth += 1
    return None


# ---------------------------------------------------------------- build
def _mk_generated(tmp):
    d = os.path.join(tmp, "generate", "config")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "inc", "config")
    for f in os.listdir(src):
        if f.endswith(".h.in"):
            t = open(os.path.join(src, f), encoding="utf-8", errors="replace").read()
            t = re.sub(r"@[A-Z_]*MODE@", "0", t)
            t = re.sub(r"@[A-Z_]+@", "x", t)
            open(os.path.join(d, f[:-3]), "w").write(t)
    return os.path.join(tmp, "generate")


def build(files=None, variant="main", extra=()):
    """compile the given repo-relative files; returns Program.  A variant "x+locals" keeps every local variable in memory."""
    variant, _, keep = variant.partition("+")
    files = files or source_files()
    tmp = tempfile.mkdtemp(prefix="lcusa.")
    try:
        gen = _mk_generated(tmp)

        def one(rel):
            o = os.path.join(tmp, rel.replace("/", "_") + ".ll")
            src = rel if rel.startswith("/") else os.path.join(REPO, rel)
            cmd = ["clang"] + BASE_FLAGS + VARIANTS[variant] + list(extra) + ["-I" + os.path.join(REPO, "inc"), "-I" + gen, src, "-o", o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("clang failed on %s: %s" % (rel, r.stderr[-800:]))
            if keep: return rel, open(o).read()
            r = subprocess.run(["opt", "-S", "-passes=sroa", o, "-o", "-"], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("opt failed on %s: %s" % (rel, r.stderr[-800:]))
            return rel, r.stdout
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, files))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prog = Program(variant + ("+" + keep if keep else ""))
    for rel, txt in outs:
        prog.add(parse_module(rel, txt))
    return prog


class Program:
    def __init__(self, variant):
        self.variant = variant
        self.modules = []
        self.funcs = {}     # external name -> Func
        self.globals = {}

    def add(self, mod):
        self.modules.append(mod)
        for f in mod.funcs.values():
            if not f.internal:
                self.funcs[f.name] = f
        for g in mod.globals.values():
            if not g.internal and not g.external:
                self.globals[g.name] = g

    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f: return f
        return self.funcs.get(name)

    def resolve_global(self, mod, name):
        g = mod.globals.get(name)
        if g and not g.external: return g
        return self.globals.get(name) or g

    def all_funcs(self):
        for m in self.modules:
            for f in m.funcs.values():
                yield f

    def func(self, name, file=None):
        for m in self.modules:
            if name in m.funcs and (file is None or m.path == file):
                return m.funcs[name]
        return None


if __name__ == "__main__":
    import time
    t = time.time()
    p = build(variant=sys.argv[1] if len(sys.argv) > 1 else "main")
    print(len(p.modules), "modules", sum(1 for _ in p.all_funcs()), "functions",
          sum(len(b.ins) for f in p.all_funcs() for b in f.blocks.values()), "instructions", time.time() - t)
    for m in p.modules:
        if "hashmap" in m.path:
            print(struct_fields(m, "%struct.Hashmap"))


def ret_di(fn):
    """text of the return type: 'char*', 'void*', 'struct*' or ''"""
    mod = fn.module
    s = mod.md.get(fn.dbg, "") if fn.dbg is not None else ""
    m = re.search(r"\btype: !(\d+)", s)
    if not m: return ""
    m2 = re.search(r"types: !(\d+)", mod.md.get(int(m.group(1)), ""))
    if not m2: return ""
    s = mod.md.get(int(m2.group(1)), "")
    first = s[s.find("{") + 1:].split(",")[0].strip().rstrip("}")
    if first == "null" or not first.startswith("!"): return ""
    n = int(first[1:])
    depth = 0
    ptr = False
    while depth < 12:
        d = mod.md.get(n, "")
        b = re.search(r"baseType: (?:!(\d+)|null)", d)
        if "DW_TAG_pointer_type" in d:
            ptr = True
            if not b or not b.group(1): return "void*"
        elif "DIBasicType" in d:
            nm = re.search(r'name: "([^"]+)"', d)
            return (nm.group(1) if nm else "?") + ("*" if ptr else "")
        elif "DICompositeType" in d:
            return "struct" + ("*" if ptr else "")
        if not b or not b.group(1): return ""
        n = int(b.group(1))
        depth += 1
    return ""
