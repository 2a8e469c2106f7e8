"""P17: what the file utilities and the file logger report is what they did."""
from . import ir, models
from .lin import S, const, sym, add, sub, scale, addc, is_const, ZERO, show
from .engine import NULL, NULLB, I, Client, fsym, bname
from .spec import Specs, Ob, Case, size_of, need
from .p_queue import mod_of
from .p_cont import heap, freed
from .p_par import gget, gset, GH, origin, comes_from, text

LOG = "src/log/file_logger.c"
BIG = 1 << 40
IMAX = (1 << 31) - 1
SLASH = (47, 92)


class Io(Client):
    """files by what was done to them; cells 0 to 3 of the ghost object follow the transfer"""
    name = "io"
    rule = "io"

    def failed(self, eng, st, ins, what, key):
        eng.report("spec", st, ins, self.rule, "%s: %s" % (ins.fn.name, what), key=key)

    def key(self, ts):
        return repr([ts.get(k) for k in ("last", "pos", "opened", "made", "pending", "line", "handled", "pushed", "pushes", "wrote", "closed", "seek", "statbad", "order", "lostok", "room", "fresh", "pend", "copyto")])

    def state_key(self, eng, st):
        """nothing left to move / something left"""
        if st.ts.get("pend") and not self.separator(eng, st): st.ts["pend"] = None
        t = st.ts.get("rw")
        if not t: return None
        return st.cons.entails_eq(sub(gget(eng, st, 0), t["n"]))

    def on_call(self, eng, st, ins, name, args):
        if not st.ts.get("io"): return None
        h = getattr(self, "call_" + name.replace("64", ""), None)
        return h(eng, st, ins, args) if h else None

    # ---- read and write
    def rw(self, eng, st, ins, args, write):
        t = st.ts.get("rw")
        if t is None: return None
        if t["write"] != write: self.failed(eng, st, ins, "the wrong direction", "direction"); return []
        fd = st.red(eng.as_int(st, args[0], 32))
        if not st.cons.entails_eq(sub(fd, t["fd"])): self.failed(eng, st, ins, "another file than the one given is used", "file"); return []
        p = st.canon(args[1])
        done = gget(eng, st, 0)
        if p[1] != t["buf"] or not st.cons.entails_eq(sub(st.red(p[2]), add(t["off"], done))):
            self.failed(eng, st, ins, "the transfer does not go on where it stopped in the buffer", "place"); return []
        out = []
        for s, n in eng.ucanon(st, st.red(eng.as_int(st, args[2], 64)), 64):
            left = sub(t["n"], done)
            if not s.cons.entails_ge0(sub(left, n)): self.failed(eng, s, ins, "more than what is left is asked for", "amount"); continue
            for how in ("error", "end", "some"):
                x = s.copy()
                x.ts["last"] = how
                x.note("the transfer call: %s" % how)
                if how == "error": out.append((x, I(-1))); continue
                if how == "end": out.append((x, I(0))); continue
                k = sym(fsym("moved", 1, IMAX))
                if not x.assume_ge0(sub(n, k)): continue
                gset(eng, x, 0, add(done, k))
                out.append((x, ("i", k)))
        return out

    def call_read(self, eng, st, ins, args): return self.rw(eng, st, ins, args, False)
    def call_write(self, eng, st, ins, args): return self.rw(eng, st, ins, args, True)

    # ---- directories: cell 0 is how much of the path has been copied, 1 the position of the separator met last
    def on_access(self, eng, st, ins, b, off, size, write, val=None):
        if ins is None: return
        t = st.ts.get("path")
        if t and b == t["b"] and not write and size == 1: self.path_char(eng, st, ins, off)
        elif t and write and b[0] in ("a", "h") and size == 1 and val is not None:
            st.ts["at"] = ins
            self.copied_char(eng, st, b, off, val)
        t = st.ts.get("txt")
        if not write and b == ("g", "%ctype", "") or t and not write and b == ("g", "%ctypetab", ""): self.ctype(eng, st, b, off, size)

    def path_char(self, eng, st, ins, off):
        t = st.ts["path"]
        if st.mem.get(t["b"], {}).get(st.red(off)) is not None: return
        st.ts["ask"] = st.red(off)

    def copied_char(self, eng, st, b, off, val):
        t = st.ts["path"]
        g = gget(eng, st, 0)
        if not st.cons.entails_eq(sub(off, g)): return
        self.settle(eng, st, None)
        src = eng.load_mem(st, None, t["b"], st.red(g), 1, ir.int_t(8), False)
        d = st.red(sub(eng.as_int(st, val, 8), eng.as_int(st, src, 8)))
        if st.ts.get("copyto") in (None, b) and st.cons.entails_eq(d):
            st.ts["copyto"] = b
            gset(eng, st, 0, addc(g, 1))
            st.ts["pend"] = True

    def separator(self, eng, st):
        """can the character copied last be a separator?"""
        t = st.ts["path"]
        v = eng.load_mem(st, None, t["b"], st.red(addc(gget(eng, st, 0), -1)), 1, ir.int_t(8), False)
        for c in SLASH:
            for x in eng.assume(st.copy(), ("cmp", "eq", v, I(c), 8), True):
                if not x.cons.bot: return True
        return False

    def settle(self, eng, st, fail):
        if st.ts.get("pend") and self.separator(eng, st):
            (fail or (lambda w, k: self.failed(eng, st, st.ts["at"], w, k)))("a directory of the path is neither found nor made", "left out")
        st.ts["pend"] = None

    def dir_call(self, eng, st, ins, args, what):
        t = st.ts.get("path")
        if t is None: return None
        p = st.canon(args[0])
        n = None
        if p[1] == st.ts.get("copyto") and st.red(p[2]) == ZERO: n = gget(eng, st, 0)
        if n is None:
            L = st.slen.get((p[1], st.red(p[2]), st.cep.get(p[1], 0)))
            if L is not None and comes_from(st, p[1], p[2], L, t["b"], t["off"]): n = L
        if n is None or st.ts.get("copyto") and not st.cons.entails_eq(sub(n, gget(eng, st, 0))):
            self.failed(eng, st, ins, "what is checked or made is not the beginning of the path that ends here", "prefix"); return []
        v = eng.load_mem(st, None, p[1], st.red(add(p[2], n)), 1, ir.int_t(8), False)
        if not st.cons.entails_eq(eng.as_int(st, v, 8)): self.failed(eng, st, ins, "the beginning of the path is not terminated", "prefix"); return []
        st.ts["pend"] = None
        if st.ts.get("made") == "failed": self.failed(eng, st, ins, "goes on although a directory could not be made", "goes on"); return []
        if what == "access":
            a, b = st.copy(), st
            a.ts["made"], b.ts["made"] = "there", "missing"
            a.note("the directory is there"); b.note("the directory is missing")
            return [(a, I(0)), (b, I(-1))]
        a, b = st.copy(), st
        a.ts["made"], b.ts["made"] = "there", "failed"
        a.note("mkdir succeeds"); b.note("mkdir fails")
        return [(a, I(0)), (b, I(-1))]

    def call_access(self, eng, st, ins, args): return self.dir_call(eng, st, ins, args, "access")
    def call_mkdir(self, eng, st, ins, args): return self.dir_call(eng, st, ins, args, "mkdir")

    # ---- files
    def file(self, eng, st, ins, p):
        f = st.ts.get("file")
        p = st.canon(p)
        if f is None: return False
        if p[1] != f: self.failed(eng, st, ins, "another file is used", "file"); return None
        return True

    def call_fopen(self, eng, st, ins, args):
        t = st.ts.get("open")
        if t is None: return None
        p = st.canon(args[0])
        if p[1] != t["b"] or st.red(p[2]) != ZERO: self.failed(eng, st, ins, "another file than the one given is opened", "path"); return []
        m = models.fmt_of(eng, st, args[1])
        if m is None or not m.startswith("r") or "+" in m: self.failed(eng, st, ins, "the file is not opened for reading", "mode"); return []
        if st.ts.get("opened"): self.failed(eng, st, ins, "the file is opened again", "again"); return []
        f = st.copy()
        f.ts["opened"] = "no"
        f.note("the file cannot be opened")
        q = models.new_obj(eng, st, ins, "res", None, "FILE")
        st.ts["opened"], st.ts["file"], st.ts["pos"] = "yes", q[1], "start"
        return [(f, NULL), (st, q)]

    def call_fseek(self, eng, st, ins, args):
        if not st.ts.get("file") or st.ts.get("size") is None: return None
        if not self.file(eng, st, ins, args[0]): return []
        off = st.cons.constval(st.red(eng.as_int(st, args[1], 64)))
        wh = st.cons.constval(st.red(eng.as_int(st, args[2], 32)))
        bad = st.copy()
        bad.ts["seek"] = "failed"
        bad.note("seeking fails")
        out = [(bad, I(-1))]
        if off == 0 and wh in (0, 2): st.ts["pos"] = "start" if wh == 0 else "end"
        else: st.ts["pos"] = "elsewhere"
        gset(eng, st, 0, ZERO)
        out.append((st, I(0)))
        return out

    def call_rewind(self, eng, st, ins, args):
        if not st.ts.get("file") or st.ts.get("size") is None: return None
        if not self.file(eng, st, ins, args[0]): return []
        st.ts["pos"] = "start"
        gset(eng, st, 0, ZERO)
        return [(st, None)]

    def call_ftell(self, eng, st, ins, args):
        if not st.ts.get("file") or st.ts.get("size") is None: return None
        if not self.file(eng, st, ins, args[0]): return []
        bad = st.copy()
        bad.ts["seek"] = "failed"
        bad.note("the position is not known")
        out = [(bad, I(-1))]
        out.append((st, ("i", st.ts["size"] if st.ts.get("pos") == "end" else gget(eng, st, 0) if st.ts.get("pos") == "start" else sym(fsym("position", 0, BIG)))))
        return out

    call_fseeko, call_ftello = call_fseek, call_ftell

    def call_fread(self, eng, st, ins, args):
        if not st.ts.get("file") or st.ts.get("size") is None: return None
        if not self.file(eng, st, ins, args[3]): return []
        p = st.canon(args[0])
        out = []
        for s0, sz in eng.ucanon(st, st.red(eng.as_int(st, args[1], 64)), 64):
            for s, n in eng.ucanon(s0, s0.red(eng.as_int(s0, args[2], 64)), 64):
                tot = eng.mulsym(s, sz, n)
                for c in eng.clients: c.on_range(eng, s, ins, p[1], s.red(p[2]), tot, True, "fread")
                at = gget(eng, s, 0)
                known = s.ts.get("pos") == "start"
                # everything asked for and there / less
                room = sub(s.ts["size"], at)
                eng.invalidate(s, p[1], s.red(p[2]), tot)
                x = s.copy()
                if known and x.assume_ge0(sub(room, tot)):
                    x.note("the file is read")
                    if s.ts.get("into") in (None, p[1]) and (s.ts.get("into") or is_const(at)) and x.cons.entails_eq(sub(p[2], at)):
                        x.ts["into"] = p[1]
                        gset(eng, x, 0, add(at, tot))
                    else: x.ts["pos"] = "elsewhere"
                    out.append((x, ("i", n)))
                s.note("less than asked for is read")
                k = sym(fsym("items", 0, BIG))
                if known: s.ts["seek"] = "failed"
                s.ts["pos"] = "elsewhere"
                if s.assume_ge0(addc(sub(n, k), -1)): out.append((s, ("i", k)))
        return out

    def call_stat(self, eng, st, ins, args):
        t = st.ts.get("stat")
        if t is None: return None
        p = st.canon(args[0])
        if p[1] != t["b"] or st.red(p[2]) != ZERO: self.failed(eng, st, ins, "another file than the one given is asked for", "path"); return []
        d = st.canon(args[1])
        bad = st.copy()
        bad.ts["statbad"] = True
        bad.note("the file does not exist")
        eng.invalidate(st, d[1], st.red(d[2]), const(144))
        eng.put_cell(st, d[1], st.red(addc(d[2], 48)), ("i", t["size"]), 8)
        return [(st, I(0)), (bad, I(-1))]

    # ---- lines: cell 0 counts them
    def call_fgets(self, eng, st, ins, args):
        t = st.ts.get("txt")
        if t is None: return None
        if not self.file(eng, st, ins, args[2]): return []
        if st.ts.get("line") == "full" and st.ts.get("handled") is None: self.failed(eng, st, ins, "a line that is not blank is left out", "left out"); return []
        if st.ts.get("handled") == "stopped": self.failed(eng, st, ins, "reading goes on although the handler asked to stop", "stop"); return []
        n = st.red(eng.as_int(st, args[1], 32))
        d = st.canon(args[0])
        out = []
        for s, m in eng.scanon(st, n, 32):
            for c in eng.clients: c.on_range(eng, s, ins, d[1], s.red(d[2]), m, True, "fgets")
            eng.invalidate(s, d[1], s.red(d[2]), m)
            e = s.copy()
            e.ts["line"] = "end"
            out.append((e, NULL))
            for kind, one in (("full", True), ("full", False), ("other", False)):
                x = s.copy()
                k = const(1) if one else sym(fsym("line length", 1 if kind == "other" else 2, IMAX))
                if not x.assume_le(addc(sub(k, m), 1)): continue
                models.put_string(eng, x, d[1], d[2], k)
                x.ts["line"], x.ts["handled"], x.ts["linebuf"] = kind, None, (d[1], x.red(d[2]))
                x.note("a line starting with a character that is not a space" if kind == "full" else "some line")
                if kind == "full": eng.put_cell(x, d[1], x.red(d[2]), ("i", sym(fsym("character", 33, 126))), 1)
                else: eng.put_cell(x, d[1], x.red(d[2]), ("i", sym(fsym("character", 1, 127))), 1)
                gset(eng, x, 0, addc(gget(eng, x, 0), 1))
                out.append((x, args[0]))
        return out

    def ctype(self, eng, st, b, off, size):
        """visible characters are not spaces"""
        if b == ("g", "%ctype", ""):
            if st.mem.get(b, {}).get(st.red(off)) is None: eng.put_cell(st, b, st.red(off), ("p", ("g", "%ctypetab", ""), ZERO), 8)
            return
        o = st.red(off)
        if st.mem.get(b, {}).get(o) is None and st.cons.entails_ge0(addc(o, -66)) and st.cons.entails_le(addc(o, -252)): eng.put_cell(st, b, o, I(0), size)

    def call___ctype_b_loc(self, eng, st, ins, args):
        if st.ts.get("txt") is None: return None
        b = ("g", "%ctype", "")
        eng.put_cell(st, b, ZERO, ("p", ("g", "%ctypetab", ""), ZERO), 8)
        return [(st, ("p", b, ZERO))]

    def call_isspace(self, eng, st, ins, args):
        if st.ts.get("txt") is None: return None
        e = st.red(eng.as_int(st, args[0], 32))
        if st.cons.entails_ge0(addc(e, -33)) and st.cons.entails_le(addc(e, -126)): return [(st, I(0))]
        return [(st, ("i", sym(fsym("space", 0, 1 << 16))))]

    def call_strchr(self, eng, st, ins, args):
        """the line feed is not in front of a visible character"""
        t = st.ts.get("txt")
        if t is None or st.ts.get("line") != "full": return None
        p = st.canon(args[0])
        if (p[1], st.red(p[2])) != st.ts.get("linebuf"): return None
        L = st.slen.get((p[1], st.red(p[2]), st.cep.get(p[1], 0)))
        c = st.cons.constval(st.red(eng.as_int(st, args[1], 32)))
        if c != 10 or L is None: return None
        f = st.copy()
        out = [(f, NULL)]
        for k in (const(1), sym(fsym("line feed", 2, IMAX))):
            x = st.copy()
            if x.assume_le(addc(sub(k, L), 1)): out.append((x, ("p", p[1], x.red(add(p[2], k)))))
        return out

    def on_icall(self, eng, st, ins, f, args):
        t = st.ts.get("txt")
        if t is not None and st.canon(f)[1] == t["fn"]: return self.line_handler(eng, st, ins, args)
        return None

    def line_handler(self, eng, st, ins, args):
        t = st.ts["txt"]
        if st.ts.get("line") not in ("full", "other"): self.failed(eng, st, ins, "the handler is called without a line", "handler"); return []
        if st.ts.get("handled"): self.failed(eng, st, ins, "a line is handed over twice", "twice"); return []
        n = st.red(eng.as_int(st, args[0], 32))
        if not st.cons.entails_eq(sub(n, addc(gget(eng, st, 0), -1))): self.failed(eng, st, ins, "the number handed over is not the number of the line", "number"); return []
        p = st.canon(args[1])
        lb = st.ts["linebuf"]
        if p[1] != lb[0]: self.failed(eng, st, ins, "something other than the line is handed over", "text"); return []
        if st.ts["line"] == "full" and not st.cons.entails_eq(sub(p[2], lb[1])): self.failed(eng, st, ins, "the beginning of the line is cut off", "text"); return []
        if st.canon(args[2])[1] != t["user"]: self.failed(eng, st, ins, "the user's data is not passed on", "user"); return []
        go = st.copy()
        go.ts["handled"] = "yes"
        st.ts["handled"] = "stopped"
        r = sym(fsym("answer", -(1 << 31), IMAX))
        gset(eng, st, 1, r)
        out = [(go, I(0))]
        for s in eng.assume(st, ("cmp", "ne", ("i", r), I(0), 32), True):
            if not s.cons.bot: out.append((s, ("i", r)))
        return out

    # ---- closing
    def on_free(self, eng, st, ins, p, fam):
        if fam == "FILE" and st.ts.get("file") == p[1]: st.ts["closed"] = True


def p17():
    S_ = Specs("io")

    def start(s, **kw):
        s.ts["io"] = True
        s.ts.update(kw)
        return s

    # ---- descriptors
    def pre_rw(eng, s, f, args):
        s.set_nn(args[1], True)
        out = []
        for x, n in eng.ucanon(s, s.red(eng.as_int(s, args[2], 64)), 64):
            if not need(x, addc(n, -IMAX)): continue
            p = x.canon(args[1])
            x.objs[p[1]] = dict(x.objs.get(p[1], {}), size=n)
            start(x, rw={"write": f.name.endswith("write"), "fd": x.red(eng.as_int(x, args[0], 32)), "buf": p[1], "off": x.red(p[2]), "n": x.red(n)})
            gset(eng, x, 0, ZERO)
            out.append(x)
        return out

    @S_.fn("file_util_read", pre_rw)
    def post_rw(c):
        st = c.st
        t, done = st.ts["rw"], gget(c.eng, st, 0)
        for x, r in c.ret(32, True):
            if not x.cons.entails_eq(sub(r, done)): c.fail("the amount returned is not the amount moved", "amount"); return
            if x.ts.get("last") in ("end", "error"): continue
            y = x.copy()
            if y.assume_ge0(addc(sub(t["n"], done), -1)): c.fail("gives up although neither the end nor an error was met", "short"); return
    S_.add("file_util_write", pre_rw, post_rw)

    # ---- directories
    def pre_mk(eng, s, f, args):
        n = s.copy()
        out = []
        if n.set_nn(args[0], False) is not False and not n.cons.bot:
            n.ts["spec"] = ("null",)
            out.append(start(n))
        L = text(eng, s, args[0])
        p = s.canon(args[0])
        start(s, path={"b": p[1], "off": s.red(p[2]), "len": L})
        s.ts["spec"] = ("path",)
        gset(eng, s, 0, ZERO)
        out.append(s)
        return out

    @S_.fn("file_util_mkdirs", pre_mk)
    def _(c):
        st = c.st
        for x, r in c.ret(32, True):
            zero = x.cons.entails_eq(r)
            if not zero:
                y = x.copy()
                if y.assume_eq(r): c.fail("the result is not settled", "result"); return
            if x.ts["spec"][1] == "null":
                if zero: c.fail("no path is answered with success", "null")
                continue
            m = x.ts.get("made")
            if zero and m in ("failed", "missing"): c.fail("success is reported although a directory could not be made", "status")
            if not zero and m == "there": c.fail("failure is reported although every directory asked for is there", "status")
            if zero:
                Io.settle(CLIENTS[0](), c.eng, x, c.fail)
                if not x.cons.entails_eq(sub(gget(c.eng, x, 0), x.ts["path"]["len"])): c.fail("success is reported without having looked at the whole path", "end")

    # ---- sizes
    def pre_stat(eng, s, f, args):
        text(eng, s, args[0])
        p = s.canon(args[0])
        return [start(s, stat={"b": p[1], "size": sym(fsym("file size", 0, BIG))})]

    @S_.fn("file_util_get_size_by_path", pre_stat)
    def _(c):
        for x, r in c.ret(64, True):
            if x.ts.get("statbad"):
                if not x.cons.entails_le(addc(r, 1)): c.fail("a missing file has a size", "missing"); return
            elif not x.cons.entails_eq(sub(r, x.ts["stat"]["size"])): c.fail("the size of the file is not returned", "size"); return

    def pre_fs(eng, s, f, args):
        n = s.copy()
        out = []
        if n.set_nn(args[0], False) is not False and not n.cons.bot:
            n.ts["spec"] = ("null",)
            out.append(start(n))
        s.set_nn(args[0], True)
        s.ts["spec"] = ("file",)
        gset(eng, s, 0, sym(fsym("position", 0, BIG)))
        out.append(start(s, file=s.canon(args[0])[1], size=sym(fsym("file size", 0, BIG)), pos="elsewhere"))
        return out

    @S_.fn("file_util_get_size_by_fs", pre_fs)
    def _(c):
        st = c.st
        for x, r in c.ret(64, True):
            if st.ts["spec"][1] == "null" or st.ts.get("seek"):
                if not x.cons.entails_le(addc(r, 1)): c.fail("a size is returned although it could not be found out", "failed"); return
                continue
            if not x.cons.entails_eq(sub(r, st.ts["size"])): c.fail("the size of the file is not returned", "size"); return
            if st.ts["pos"] != "start": c.fail("the file is not left at its beginning", "position"); return

    # ---- whole files
    def pre_all(eng, s, f, args):
        out = []
        L = text(eng, s, args[0])
        p = s.canon(args[0])
        for i in (1, 2): s.set_nn(args[i], True)
        gset(eng, s, 0, ZERO)
        return [start(s, open={"b": p[1]}, size=sym(fsym("file size", 0, BIG)), allocfail=None)]

    @S_.fn("file_util_read_all", pre_all)
    def _(c):
        st = c.st
        po, pl = st.canon(c.args[1]), st.canon(c.args[2])
        q = st.canon(c.eng.load_mem(st, None, po[1], po[2], 8, ir.PTR))
        for x, r in c.ret(32, True):
            if x.cons.entails_eq(r):
                n = x.ts["size"]
                if q[1][0] != "h" or freed(x, q[1]) or x.red(q[2]) != ZERO: c.fail("success without a block of its own", "block"); return
                if x.ts.get("into") != q[1] or x.ts.get("pos") != "start" or not x.cons.entails_eq(sub(gget(c.eng, x, 0), n)): c.fail("success although the block does not hold the whole file", "content"); return
                v = c.eng.load_mem(x, None, q[1], x.red(n), 1, ir.int_t(8), False)
                if not x.cons.entails_eq(c.eng.as_int(x, v, 8)): c.fail("the content is not terminated", "terminator"); return
                l = c.eng.load_mem(x, None, pl[1], pl[2], 4, ir.int_t(32), False)
                for y, e in c.eng.scanon(x.copy(), x.red(c.eng.as_int(x, l, 32)), 32):
                    if not y.cons.entails_eq(sub(e, n)): c.fail("the length reported is not the size of the file", "length"); return
            else:
                y = x.copy()
                if y.assume_eq(r): c.fail("the result is not settled", "result"); return
                if x.is_null(q) is not True: c.fail("a block is handed over although an error is returned", "left"); return
                if not x.ts.get("seek") and not x.ts.get("allocfail") and x.ts.get("opened") == "yes":
                    y = x.copy()
                    if y.assume_ge0(addc(x.ts["size"], -1)) and y.assume_le(addc(x.ts["size"], -IMAX)): c.fail("refused although nothing failed", "refused"); return
        if x.ts.get("opened") == "yes" and not x.ts.get("closed"): c.fail("the file is left open", "open")

    # ---- text files
    def pre_txt(eng, s, f, args):
        text(eng, s, args[0])
        s.set_nn(args[1], True)
        gset(eng, s, 0, ZERO)
        gset(eng, s, 1, ZERO)
        return [start(s, open={"b": s.canon(args[0])[1]}, txt={"fn": s.canon(args[1])[1], "user": s.canon(args[2])[1]})]

    @S_.fn("file_util_read_txt", pre_txt)
    def _(c):
        for x, r in c.ret(32, True):
            if x.ts.get("opened") != "yes":
                y = x.copy()
                if y.assume_eq(r): c.fail("success is reported although the file was not opened", "open"); return
                continue
            if not x.ts.get("closed"): c.fail("the file is left open", "open"); return
            if x.ts.get("handled") == "stopped":
                if not x.cons.entails_eq(sub(r, gget(c.eng, x, 1))): c.fail("the answer of the handler that asked to stop is not returned", "answer"); return
            else:
                if not x.cons.entails_eq(r): c.fail("an error is returned although every line was handled", "answer"); return
                if x.ts.get("line") != "end": c.fail("success is reported before the end of the file", "end"); return
    return S_


CLIENTS = [Io]
OPTS = {"merge_cap": 100, "ret_cap": 100, "loop_entry_cap": 64, "loop_parts": 100}


# ---------------------------------------------------------------- the file logger
SUCCESS, NOT_ENOUGH = 0, 6
HDR = 16        # queue_msg_t up to its object


class Logger:
    def __init__(self, eng, st, base):
        self.mod = mod_of(eng, LOG)
        self.o = Ob(eng, st, self.mod, base, "file_logger_s")
        self.c = Ob(eng, st, self.mod, base, "file_logger_cfg", const(self.o.f["cfg"][0]))
        self.k = Ob(eng, st, self.mod, base, "file_logger_lock", addc(self.c.where("lock")[0], 0))
        self.hdr = size_of(self.mod, "queue_msg_t")


def array(eng, st, base, off, cap, name):
    """a text inside an array"""
    n = models.slen_of(eng, st, None, ("p", base, const(off)))
    st.assume_le(addc(n, 1 - cap))
    return n


class FileLog(Client):
    """the queue by its contract (shown by P12), the file by what was printed to it"""
    name = "flog"
    rule = "io"

    def failed(self, eng, st, ins, what, key): eng.report("spec", st, ins, self.rule, "%s: %s" % (ins.fn.name, what), key=key)

    def key(self, ts): return repr([ts.get(k) for k in ("pushes", "status", "lost", "file", "wrote", "closed", "opened", "queue", "qstate", "order", "fmtfail")])

    def on_call(self, eng, st, ins, name, args):
        if not st.ts.get("flog"): return None
        h = getattr(self, "call_" + name.replace("64", ""), None)
        return h(eng, st, ins, args) if h else None

    def call_msg_queue_handler_push(self, eng, st, ins, args):
        t = st.ts.get("msg")
        if t is None: return None
        if st.canon(args[0])[1] != st.ts["queue"]: self.failed(eng, st, ins, "the message is given to another queue", "queue"); return []
        if st.ts.get("status") == SUCCESS: self.failed(eng, st, ins, "a message the queue has taken is given to it again", "twice"); return []
        if st.ts.get("pushes") and not t["keep"]: self.failed(eng, st, ins, "a message that was refused is given to the queue again", "again"); return []
        p = st.canon(args[1])
        f = Ob(eng, st, t["L"].mod, p[1], "queue_msg_t", p[2])
        for s, n in eng.scanon(st, f.i(st, "obj_len"), 32):
            if not s.cons.entails_eq(sub(n, t["n"])): self.failed(eng, s, ins, "the length given to the queue is not the length of the message", "length"); continue
            if not comes_from(s, p[1], addc(p[2], t["L"].hdr), t["n"], t["b"], t["off"]): self.failed(eng, s, ins, "the bytes given to the queue are not those of the message", "content"); continue
            s.ts["pushes"] = min(2, s.ts.get("pushes", 0) + 1)
            for code in ("ok", "refused"):
                x = s.copy()
                k = const(SUCCESS) if code == "ok" else sym(fsym("refusal", 1, 100))
                x.ts["status"] = SUCCESS if code == "ok" else "refused"
                x.note("the queue takes the message" if code == "ok" else "the queue refuses the message")
                gset(eng, x, 0, k)
                yield_ = (x, ("i", k))
                self.out.append(yield_)
        out, self.out = self.out, []
        return out

    out = []

    def call_fopen(self, eng, st, ins, args):
        m = models.fmt_of(eng, st, args[1])
        t = st.ts.get("msg")
        if t is not None:
            if st.ts.get("status") == SUCCESS or not t["keep"]: self.failed(eng, st, ins, "a file for lost messages is opened although the message is not lost", "lost"); return []
            if m is None or m[:1] != "a": self.failed(eng, st, ins, "what was lost before is overwritten", "mode"); return []
        else:
            if st.ts.get("file"): self.failed(eng, st, ins, "a new file is begun while the current one is open", "begin"); return []
            if m is None or m[:1] not in "wa": self.failed(eng, st, ins, "the file is not opened for writing", "mode"); return []
        f = st.copy()
        f.ts["opened"] = "no"
        f.note("the file cannot be opened")
        q = models.new_obj(eng, st, ins, "res", None, "FILE")
        st.ts["opened"], st.ts["file"] = "yes", q[1]
        return [(f, NULL), (st, q)]

    def call_fprintf(self, eng, st, ins, args):
        p = st.canon(args[0])
        t = st.ts.get("msg") or st.ts.get("queued")
        if t is None or st.ts.get("file") is None or p[1] != st.ts["file"]: return None        # diagnostics
        fmt = models.fmt_of(eng, st, args[1])
        if fmt is None or fmt.rstrip("\n") != "%.*s" or not fmt.endswith("\n") or len(args) != 4: self.failed(eng, st, ins, "the line written is not the message", "format"); return []
        if st.ts.get("wrote"): self.failed(eng, st, ins, "the message is written twice", "twice"); return []
        q = st.canon(args[3])
        n = st.red(eng.as_int(st, args[2], 32))
        sts = [(s, e) for s, e in eng.scanon(st, n, 32)]
        out = []
        for s, e in sts:
            ok = q[1] == t["b"] and s.cons.entails_eq(sub(s.red(q[2]), t["off"])) or comes_from(s, q[1], s.red(q[2]), t["n"], t["b"], t["off"])
            if not ok or not s.cons.entails_eq(sub(e, t["n"])): self.failed(eng, s, ins, "the line written is not the message", "content"); continue
            a, b = s.copy(), s
            k = sym(fsym("characters written", 1, (1 << 31) - 1))
            a.ts["wrote"] = "yes"
            gset(eng, a, 1, k)
            b.ts["wrote"] = "failed"
            b.note("writing fails")
            gset(eng, b, 1, ZERO)
            out += [(a, ("i", k)), (b, ("i", sym(fsym("error", -(1 << 31), -1))))]
        return out

    def on_free(self, eng, st, ins, p, fam):
        if fam == "FILE" and st.ts.get("flog") and p[1] == st.ts.get("file"):
            if st.ts.get("qstate") == "running": self.failed(eng, st, ins, "the file is closed while the queue may still write to it", "order")
            st.ts["closed"] = True
        if st.ts.get("qstate") == "running" and p[1] == st.ts.get("cache"): self.failed(eng, st, ins, "the message cache is released before the queue", "order")

    # ---- the queue's life
    def call_msg_queue_handler_create(self, eng, st, ins, args):
        if st.ts.get("new") is None: return None
        f = st.copy()
        models.alloc_failed(eng, f)
        f.note("no queue")
        h = heap(eng, st, "queue", 64)
        st.objs[h] = dict(st.objs[h], state="live", fam="queue")
        st.ts["queue"], st.ts["qstate"] = h, "running"
        p = st.canon(args[1])
        fs = {v[0]: k for k, v in ir.struct_fields(mod_of(eng, LOG), "%struct.msg_queue_handler_init_param_t").items()}
        ld = lambda n: st.canon(eng.load_mem(st, None, p[1], st.red(addc(p[2], fs[n])), 8, ir.PTR))
        st.ts["qinit"] = (st.red(eng.as_int(st, args[0], 32)), ld("user_data")[1], ld("fn_handle_msg")[1])
        return [(f, NULL), (st, ("p", h, ZERO))]

    def call_msg_queue_handler_destroy(self, eng, st, ins, args):
        if st.ts.get("qstate") is None: return None
        p = st.canon(args[0])
        q = st.canon(eng.load_mem(st, None, p[1], st.red(p[2]), 8, ir.PTR))
        if q[1] != st.ts["queue"]: self.failed(eng, st, ins, "another queue is destroyed", "queue"); return []
        if st.ts["qstate"] != "running": self.failed(eng, st, ins, "the queue is destroyed twice", "twice"); return []
        for b in (st.ts.get("cache"), st.ts.get("file"), st.ts.get("object")):
            if b is not None and freed(st, b): self.failed(eng, st, ins, "the queue is stopped only after what it uses was released", "order")
        st.ts["qstate"] = "gone"
        st.setobj(q[1], state="freed")
        eng.put_cell(st, p[1], st.red(p[2]), NULL, 8)
        return [(st, ("i", sym(fsym("destroyed", -1, 0))))]

    def call_file_util_mkdirs(self, eng, st, ins, args): return [(st, ("i", sym(fsym("made", -3, 0))))]

    def call_time_util_get_time_str_for_file_name_current(self, eng, st, ins, args):
        d = st.canon(args[0])
        for c in eng.clients: c.on_range(eng, st, ins, d[1], st.red(d[2]), const(24), True, "file name")
        eng.invalidate(st, d[1], st.red(d[2]), const(24))
        models.put_string(eng, st, d[1], st.red(d[2]), sym(fsym("time text", 1, 22)))
        return [(st, None)]

    def call_strreplace(self, eng, st, ins, args):
        f = st.copy()
        models.alloc_failed(eng, f)
        n = models.slen_of(eng, st, ins, args[0])
        same = all(len(models.fmt_of(eng, st, a) or "") == 1 for a in args[1:3])
        k = n if same else sym(fsym("replaced", 0, BIG))
        q = models.new_obj(eng, st, ins, "heap", addc(k, 1), "libc")
        models.put_string(eng, st, q[1], ZERO, k)
        return [(f, NULL), (st, q)]


def p17log():
    S_ = Specs("io")

    def build(eng, s, p):
        """a logger as file_logger_init leaves it and file_logger_log keeps it"""
        s.set_nn(p, True)
        b = s.canon(p)[1]
        L = Logger(eng, s, b)
        s.ts["flog"], s.ts["object"] = True, b
        q = heap(eng, s, "queue", 64)
        s.objs[q] = dict(s.objs[q], state="live", fam="queue")
        s.ts["queue"] = q
        L.o.set(s, "msg_queue", ("p", q, ZERO))
        return b, L

    def cache(eng, s, L):
        m, cap = ("h", "message cache"), sym(fsym("capacity", 1, 1 << 31))
        s.setobj(m, size=addc(cap, L.hdr), fam="libc", state="live", esc=True)
        s.ts["cache"] = m
        L.o.set(s, "msg_cache_p", ("p", m, ZERO))
        L.o.set(s, "cur_msg_obj_capacity", ("i", cap))

    def texts_in(eng, s, b, L):
        array(eng, s, b, L.c.where("log_folder_path")[0][0], L.c.where("log_folder_path")[1], "folder")
        array(eng, s, b, L.c.where("log_file_name_prefix")[0][0], L.c.where("log_file_name_prefix")[1], "prefix")

    def roomy(c, st, L):
        """the cache has the room its capacity says"""
        m = st.canon(L.o.p(st, "msg_cache_p"))
        sz = c.eng.obj_size(st, m[1]) if m[1] != NULLB else None
        cap = L.o.i(st, "cur_msg_obj_capacity")
        if m[1] == NULLB or sz is None or freed(st, m[1]) or not st.cons.entails_ge0(sub(sz, addc(cap, L.hdr))):
            c.fail("the message cache is smaller than the capacity noted down", "capacity")
            return False
        return True

    def pre_log(eng, s, f, args):
        b, L = build(eng, s, args[0])
        cache(eng, s, L)
        texts_in(eng, s, b, L)
        s.set_nn(args[1], True)
        p = s.canon(args[1])
        out = []
        for x, n in eng.ucanon(s, s.red(eng.as_int(s, args[2], 64)), 64):
            if not need(x, addc(n, -BIG)): continue
            x.objs[p[1]] = dict(x.objs.get(p[1], {}), size=n)
            k = L.c.i(x, "is_try_my_best_to_keep_log")
            for keep in (0, 1):
                y = x.copy()
                L.c.set(y, "is_try_my_best_to_keep_log", I(keep))
                y.ts["msg"] = {"b": p[1], "off": y.red(p[2]), "n": y.red(n), "L": L, "keep": bool(keep)}
                y.ts["spec"] = (keep,)
                gset(eng, y, 0, const(NOT_ENOUGH))
                out.append(y)
        return out

    @S_.fn("file_logger_log", pre_log)
    def _(c):
        st = c.st
        t = st.ts["msg"]
        L = t["L"]
        if not roomy(c, st, L): return
        if L.o.p(st, "msg_queue")[1] != st.ts["queue"]: c.fail("the queue of the logger is lost", "queue"); return
        for x, r in c.ret(32, True):
            if x.ts.get("status") is None:
                y = x.copy()
                if y.assume_eq(r): c.fail("success is reported although the queue was never given the message", "status"); return
                y = x.copy()
                if not x.ts.get("allocfail") and y.assume_le(addc(t["n"], -IMAX)): c.fail("refused although nothing failed", "refused"); return
            elif not x.cons.entails_eq(sub(r, gget(c.eng, x, 0))): c.fail("the queue's answer is not returned", "status"); return
            lost = x.ts.get("status") != SUCCESS and t["keep"]
            y = x.copy()
            if lost and y.assume_le(addc(t["n"], -IMAX)):
                if x.ts.get("opened") is None: c.fail("a message that must be kept is lost", "lost"); return
                if x.ts.get("opened") == "yes" and not x.ts.get("wrote"): c.fail("a message that must be kept is not written down", "lost"); return
            if x.ts.get("opened") == "yes" and not x.ts.get("closed"): c.fail("the file for lost messages is left open", "open"); return

    # ---- writing what was queued
    def pre_handle(eng, s, f, args):
        out = []
        s.set_nn(args[0], True)
        b, L = build(eng, s, args[1])
        texts_in(eng, s, b, L)
        p = s.canon(args[0])
        f2 = Ob(eng, s, L.mod, p[1], "queue_msg_t", p[2])
        n = sym(fsym("length", 1, IMAX))
        s.objs[p[1]] = dict(s.objs.get(p[1], {}), size=addc(n, L.hdr))
        cnt = sym(fsym("written before", 0, BIG))
        L.o.set(s, "cur_log_file_size_counter", ("i", cnt))
        for x, mx in eng.ucanon(s, L.c.i(s, "one_piece_file_max_len"), 64):
            if not need(x, addc(mx, -BIG)): continue
            for empty in (False, True):
                for op in (False, True):
                    y = x.copy()
                    f2.set(y, "obj_len", ("i", sym(fsym("length", -(1 << 31), 0)) if empty else n))
                    if op:
                        h = ("h", "current file")
                        y.setobj(h, kind="res", fam="FILE", state="live", esc=True)
                        y.ts["file"] = h
                        L.o.set(y, "cur_fp", ("p", h, ZERO))
                    else: L.o.set(y, "cur_fp", NULL)
                    y.ts["queued"] = {"b": p[1], "off": y.red(addc(p[2], L.hdr)), "n": n, "L": L, "cnt": cnt if op else ZERO, "max": y.red(mx), "was": cnt}
                    y.ts["spec"] = (empty, op)
                    out.append(y)
        return out

    @S_.fn("@handler:" + LOG, pre_handle)
    def _(c):
        st = c.st
        t = st.ts["queued"]
        L = t["L"]
        empty, op = st.ts["spec"][1:3]
        fp = L.o.p(st, "cur_fp")
        for x, r in c.ret(32, True):
            if not x.cons.entails_eq(r): c.fail("a handled message is answered with an error", "result"); return
        if empty:
            if st.ts.get("wrote") or st.ts.get("opened"): c.fail("something is written for an empty message", "empty")
            return
        if st.ts.get("opened") == "no":
            if st.ts.get("wrote"): c.fail("written without a file", "file")
            if st.is_null(fp) is not True: c.fail("a file that could not be opened is kept", "file")
            return
        if not st.ts.get("wrote"): c.fail("the message is not written to the file", "lost"); return
        w = gget(c.eng, st, 1)
        tot = st.red(add(t["cnt"], w))
        for full in (False, True):
            for y in ([st.copy()] if not full else [st.copy()]):
                # full: a limit is set and reached
                if full and not (y.assume_ge0(addc(t["max"], -1)) and y.assume_ge0(sub(tot, t["max"]))): continue
                cases = [y] if full else []
                if not full:
                    a = st.copy()
                    if a.assume_eq(t["max"]): cases.append(a)
                    a = st.copy()
                    if a.assume_ge0(addc(t["max"], -1)) and a.assume_ge0(addc(sub(t["max"], tot), -1)): cases.append(a)
                for z in cases:
                    if full:
                        if z.is_null(fp) is not True: c.fail("a file that has reached its limit is kept", "limit"); return
                        if not z.ts.get("closed"): c.fail("a file that has reached its limit is not closed", "limit"); return
                    else:
                        if fp[1] != z.ts["file"] or z.ts.get("closed"): c.fail("the file is given up although its limit is not reached", "early"); return
                        for q, e in c.eng.ucanon(z.copy(), L.o.i(z, "cur_log_file_size_counter"), 64):
                            if not q.cons.entails_eq(sub(e, tot)): c.fail("the amount written to the file is not counted", "count"); return

    # ---- life
    def pre_init(eng, s, f, args):
        n = s.copy()
        out = []
        if n.set_nn(args[0], False) is not False and not n.cons.bot:
            n.ts["spec"] = ("null",)
            out.append(n)
        s.set_nn(args[0], True)
        p = s.canon(args[0])
        mod = mod_of(eng, LOG)
        C = Ob(eng, s, mod, p[1], "file_logger_cfg", p[2])
        o, cap = C.where("log_folder_path")
        s.ts["folder"] = array(eng, s, p[1], o[0], cap, "folder")
        o, cap = C.where("log_file_name_prefix")
        array(eng, s, p[1], o[0], cap, "prefix")
        s.ts["flog"] = s.ts["new"] = True
        for x, q in eng.ucanon(s, C.i(s, "log_queue_size"), 64):
            if not need(x, addc(q, -(1 << 21))): continue
            x.ts["spec"] = ("cfg",)
            x.ts["qsize"] = x.red(q)
            out.append(x)
        return out

    @S_.fn("file_logger_init", pre_init)
    def _(c):
        st = c.st
        if st.is_null(c.r) is True:
            if st.ts.get("qstate") == "running": c.fail("the queue is left running", "queue")
            if st.ts["spec"][1] == "null" or st.ts.get("allocfail"): return
            y = st.copy()
            if y.assume_ge0(addc(y.ts["folder"], -2)) and y.assume_ge0(addc(y.ts["qsize"], -2)): c.fail("refused although nothing failed", "refused")
            return
        q = st.canon(c.r)
        if q[1][0] != "h" or freed(st, q[1]): c.fail("something other than a new logger is returned", "object"); return
        L = Logger(c.eng, st, q[1])
        if st.ts.get("qstate") != "running" or L.o.p(st, "msg_queue")[1] != st.ts.get("queue"): c.fail("a logger without a running queue is returned", "queue"); return
        n, ud, fn = st.ts["qinit"]
        if ud != q[1]: c.fail("the queue's worker is not given the logger", "user"); return
        if fn[0] != "fn": c.fail("the queue has no handler", "handler"); return
        for x, e in c.eng.ucanon(st.copy(), n, 32):
            if not x.cons.entails_eq(sub(e, scale(x.ts["qsize"], 1024))): c.fail("the queue does not get the size asked for", "size"); return
        if not roomy(c, st, L): return
        if L.o.p(st, "cur_fp")[1] != NULLB and st.is_null(L.o.p(st, "cur_fp")) is not True: c.fail("the new logger has a file nobody opened", "file"); return
        m = L.c.i(st, "one_piece_file_max_len")

    def pre_deinit(eng, s, f, args):
        out = []
        n = s.copy()
        if n.set_nn(args[0], False) is not False and not n.cons.bot:
            n.ts["spec"] = ("none",)
            out.append(n)
        s.set_nn(args[0], True)
        p = s.canon(args[0])
        e = s.copy()
        eng.put_cell(e, p[1], e.red(p[2]), NULL, 8)
        e.ts["spec"] = ("none",)
        out.append(e)
        for op in (False, True):
            x = s.copy()
            h = ("h", "logger")
            x.setobj(h, size=const(size_of(mod_of(eng, LOG), "file_logger_s")), fam="libc", state="live", esc=True)
            eng.put_cell(x, p[1], x.red(p[2]), ("p", h, ZERO), 8)
            b, L = build(eng, x, ("p", h, ZERO))
            cache(eng, x, L)
            x.ts["qstate"] = "running"
            if op:
                q = ("h", "current file")
                x.setobj(q, kind="res", fam="FILE", state="live", esc=True)
                x.ts["file"] = q
                L.o.set(x, "cur_fp", ("p", q, ZERO))
            else: L.o.set(x, "cur_fp", NULL)
            x.ts["spec"] = ("logger", op)
            out.append(x)
        return out

    @S_.fn("file_logger_deinit", pre_deinit)
    def _(c):
        st = c.st
        for x, r in c.ret(32, True):
            if st.ts["spec"][1] == "none":
                if not x.cons.entails_le(addc(r, 1)): c.fail("no logger is answered with success", "none"); return
            elif not x.cons.entails_eq(r): c.fail("an error is returned although the logger is gone", "result"); return
        if st.ts["spec"][1] == "none": return
        if st.ts["qstate"] != "gone": c.fail("the queue is not destroyed", "queue")
        for n, b in (("message cache", st.ts["cache"]), ("logger", st.ts["object"])):
            if not freed(st, b): c.fail("the %s is not released" % n, n)
        if st.ts["spec"][2] and not st.ts.get("closed"): c.fail("the file is not closed", "file")
        p = st.canon(c.args[0])
        if st.is_null(c.eng.load_mem(st, None, p[1], st.red(p[2]), 8, ir.PTR)) is not True: c.fail("the caller's handle is not cleared", "handle")
    return S_


CLIENTS = [Io, FileLog]
