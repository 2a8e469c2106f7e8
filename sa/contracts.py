"""Module-boundary contracts.

Used in place of a callee's body when *another* module's function is analysed; the callee's own
module is analysed with its real body as an entry of its own.  Each contract over-approximates what
the callee may do to memory the caller can see (ownership, nullness, ranges touched)."""
from . import ir
from .lin import S, const, sym, addc, ZERO
from .engine import NULL, NULLB, I, fsym
from .models import new_obj, escape_tree, rng, argi, slen_of, use_handle, put_string, size_arg
from .ir import loc_str


def ptr_or_null(eng, st, name):
    f = st.copy()
    b = ("s", fsym(name))
    st.nn[b] = True
    return [(f, NULL), (st, ("p", b, ZERO))]


def hm_create(eng, st, ins, args):
    f = st.copy()
    f.note("%s fails" % loc_str(ins))
    p = new_obj(eng, st, ins, "res", None, "hashmap")
    return [(f, NULL), (st, p)]


def closes(fam, nullok=True):
    def m(eng, st, ins, args):
        from .models import _free
        return _free(fam)(eng, st, ins, args)
    return m


def uses(i=0):
    def m(eng, st, ins, args):
        if not use_handle(eng, st, ins, args[i]): return []
        return [(st, eng.unknown(st, ins.ty, "r") if ins.res else None)]
    return m


def hm_put(eng, st, ins, args):
    """takes the key for a new entry, takes the value always, returns the previous value; on exhaustion
    takes nothing, returns NULL and sets errno to ENOMEM"""
    if not use_handle(eng, st, ins, args[0]): return []
    eb = ("g", "%errno", "")
    f = st.copy()
    f.note("%s: no memory for the entry" % loc_str(ins))
    eng.store_mem(f, ins, eb, ZERO, I(12), 4)
    n = st.copy()
    n.note("%s: new key" % loc_str(ins))
    for a in args[1:3]: escape_tree(eng, n, a, havoc=False)
    st.note("%s: existing key" % loc_str(ins))
    escape_tree(eng, st, args[2], havoc=False)
    b = ("s", fsym("oldvalue"))
    st.nn[b] = True
    return [(f, NULL), (n, NULL), (st, ("p", b, ZERO))]


def hm_get(eng, st, ins, args):
    if not use_handle(eng, st, ins, args[0]): return []
    return ptr_or_null(eng, st, "value")


def callbacks(ctx, handle=None):
    """an iterator: the callback (analysed as an entry of its own) may do anything to what ctx leads to"""
    def m(eng, st, ins, args):
        if handle is not None and not use_handle(eng, st, ins, args[handle]): return []
        escape_tree(eng, st, args[ctx])
        return [(st, eng.unknown(st, ins.ty, "r") if ins.res else None)]
    return m


def list_foreach(eng, st, ins, args):
    if not use_handle(eng, st, ins, args[0]): return []
    escape_tree(eng, st, args[2])
    return ptr_or_null(eng, st, "node")


def trk_alloc(eng, st, ins, args):
    """returns ptr unchanged when it is NULL or the tracker is off, else ptr + guard size"""
    p = st.canon(args[1])
    if st.is_null(p) is True: return [(st, NULL)]
    on = st.copy()
    g = ("g", "allocations", "src/mem/allocation_tracker.c")
    return [(st, args[1]), (on, ("p", p[1], on.red(addc(p[2], 8))))]


HASHMAP = {
    "hashmap_create": hm_create, "hashmap_free": closes("hashmap"), "hashmap_put": hm_put, "hashmap_get": hm_get,
    "hashmap_remove": hm_get, "hashmap_clear": uses(), "hashmap_foreach": callbacks(2, 0), "hashmap_size": uses(),
}
READER = {"ini_reader_parse_string": callbacks(2), "ini_reader_parse_file": callbacks(2),
          "ini_reader_parse": callbacks(2), "ini_reader_parse_stream": callbacks(3)}
LIST = {"list_foreach": list_foreach}

def time_str(which):
    """fills the caller's TIME_STR_SIZE bytes with a NUL terminated string and returns its length"""
    def m(eng, st, ins, args):
        d = rng(eng, st, ins, args[which], const(24), True, "time string")
        if d is None: return []
        for i, a in enumerate(args):
            if i != which and a[0] == "p":
                if rng(eng, st, ins, a, const(16), False, "time value") is None: return []
        k = fsym("timelen", 4, 23)
        eng.invalidate(st, d[0], d[1], const(24))
        put_string(eng, st, d[0], d[1], sym(k))
        return [(st, ("i", sym(k)))]
    return m


def pool_alloc(eng, st, ins, args):
    """NULL or a block of the pool with at least the requested size (the pool keeps owning it)"""
    if not use_handle(eng, st, ins, args[0]): return []
    out = []
    for s, n in eng.scanon(st, argi(eng, st, args, len(args) - 1, 32), 32):
        f = s.copy()
        b = ("s", fsym("block"))
        s.nn[b] = True
        s.objs[b] = {"size": n, "kind": "pool"}
        out += [(f, NULL), (s, ("p", b, ZERO))]
    return out


def pool_free(eng, st, ins, args):
    if not use_handle(eng, st, ins, args[0]): return []
    return [(st, None)]


def mk_handle(fam):
    def m(eng, st, ins, args):
        for a in args:
            if a[0] == "p" and st.is_null(a) is not True: rng(eng, st, ins, a, None, False, "read")
        f = st.copy()
        f.note("%s fails" % loc_str(ins))
        return [(f, NULL), (st, new_obj(eng, st, ins, "res", None, fam))]
    return m


def destroy_pp(fam):
    """X_destroy(&handle): releases the handle (if any) and resets the caller's variable"""
    def m(eng, st, ins, args):
        pp = st.canon(args[0])
        if st.is_null(pp) is True: return [(st, None)]
        d = rng(eng, st, ins, pp, const(8), True, "handle variable")
        if d is None: return []
        h = eng.load_mem(st, ins, d[0], d[1], 8, ir.PTR)
        out = []
        for s, r in closes(fam)(eng, st, ins, [h]):
            if s.is_null(h) is not True: eng.store_mem(s, ins, d[0], d[1], NULL, 8)
            out.append((s, None))
        return out
    return m


def q_push(eng, st, ins, args):
    if not use_handle(eng, st, ins, args[0]): return []
    if args[1][0] == "p" and st.is_null(args[1]) is not True:
        if len(args) > 2:
            for s, n in size_arg(eng, st, args, 2, 32):
                rng(eng, s, ins, args[1], n, False, "message"); st = s
        else: rng(eng, st, ins, args[1], None, False, "message")
    return [(st, eng.unknown(st, ins.ty, "rc"))]


def q_pop(eng, st, ins, args):
    """copies at most *size bytes (or one fixed size message) out, may update *size"""
    if not use_handle(eng, st, ins, args[0]): return []
    if len(args) == 2:
        d = rng(eng, st, ins, args[1], None, True, "message")
        if d is None: return []
        eng.havoc(st, d[0], d[1], None)
        return [(st, eng.unknown(st, ins.ty, "popped"))]
    z = rng(eng, st, ins, args[2], const(4), True, "message size")
    if z is None: return []
    cap = eng.load_mem(st, ins, z[0], z[1], 4, ir.I32)
    out = []
    for s, n in eng.ucanon(st, eng.as_int(st, cap, 32), 32):
        d = rng(eng, s, ins, args[1], n, True, "message")
        if d is None: continue
        f = s.copy()
        e = f.copy()
        eng.invalidate(s, d[0], d[1], n)
        out.append((s, I(0)))
        out.append((f, ("i", sym(fsym("code", 1, 5)))))
        eng.store_mem(e, ins, z[0], z[1], ("i", sym(fsym("need", 1, (1 << 32) - 1))), 4)
        out.append((e, I(6)))
    return out


QUEUES = {"msg_queue_create": mk_handle("msg_queue"), "msg_queue_destroy": destroy_pp("msg_queue"),
          "msg_queue_push": q_push, "msg_queue_pop": q_pop, "msg_queue_clear": uses(), "msg_queue_next_msg_size": uses(),
          "msg_queue_available_pop_bytes": uses(), "msg_queue_available_push_bytes": uses()}
FQUEUES = {"fixed_msg_queue_create": mk_handle("fixed_msg_queue"), "fixed_msg_queue_destroy": destroy_pp("fixed_msg_queue"),
           "fixed_msg_queue_push": q_push, "fixed_msg_queue_pop": q_pop, "fixed_msg_queue_clear": uses(),
           "fixed_msg_queue_available_pop_amount": uses(), "fixed_msg_queue_available_push_amount": uses(),
           "fixed_msg_queue_is_empty": uses(), "fixed_msg_queue_is_full": uses()}
TIME = {"time_util_get_time_str": time_str(1), "time_util_get_time_str_current": time_str(0),
        "time_util_get_time_str_for_file_name": time_str(1), "time_util_get_time_str_for_file_name_current": time_str(0)}
def int_text(eng, st, ins, args):
    """decimal text of an int: at most 12 bytes with the terminator, one less without a sign"""
    n = st.red(eng.as_int(st, args[0], 32))
    w = 10 if st.cons.entails_ge0(n) and st.cons.entails_le(addc(n, 1 - (1 << 31))) else 11
    d = rng(eng, st, ins, args[1], const(w + 1), True, "number text")
    if d is None: return []
    k = fsym("digits", 1, w)
    eng.invalidate(st, d[0], d[1], const(w + 1))
    put_string(eng, st, d[0], d[1], sym(k))
    return [(st, ("i", sym(k)))]


# applied inside their own module as well (every function but the callee itself)
INNER = {"my_int2str": int_text, "ini_reader_parse_stream": callbacks(3), "mplite_malloc_unsafe": pool_alloc, "mplite_free_unsafe": pool_free}

# name -> (model, file that holds the real body)
TABLE = {}
for d, f in ((QUEUES, "src/ring/msg_queue.c"), (FQUEUES, "src/ring/fixed_msg_queue.c"), (TIME, "src/time/time_util.c"), (HASHMAP, "src/data/hashmap.c"), (READER, "src/file/ini_reader.c"), (LIST, "src/data/list.c")):
    for k, v in d.items(): TABLE[k] = (v, f)


def models_for(base, f):
    """the model table to use when analysing entry function f"""
    m = dict(base)
    for k, (v, home) in TABLE.items():
        if not f.module.path.endswith(home): m[k] = v
    for k, v in INNER.items():
        if f.name != k: m[k] = v
    return m
