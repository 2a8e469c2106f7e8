"""Run entry functions under clients, in parallel worker processes."""
import sys, os, time, signal, traceback
import multiprocessing as mp
from . import ir, engine, models
from .engine import Engine, State, S, ZERO, NULL
from .lin import sym
from .ir import AnalysisBroken

sys.setrecursionlimit(20000)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def entry_args(eng, st, f):
    args = []
    for n, t in f.params:
        nm = f.argnames.get(n, n[1:]) if hasattr(f, "argnames") else n[1:]
        if t.k == "p": args.append(("p", ("s", S.get(("arg", f.name, n), None, None, nm)), ZERO))
        elif t.k == "i": args.append(("i", sym(eng.intsym(st, nm, t.w, key=("argi", f.name, n)))))
        else: args.append(("o", n))
    return args


OPTS = {"merge_cap": 16, "ret_cap": 8, "loop_entry_cap": 3}


def run_unit(prog, f, mkclients, mdl, opts=None, pre=None, post=None, limit=240):
    """-> dict(fn, reports, stats, error)"""
    o = dict(OPTS)
    o.update(opts or {})
    clients = mkclients()
    from . import contracts
    if o.get("models"): mdl = {**mdl, **o["models"]}
    eng = Engine(prog, clients, contracts.models_for(mdl, f) if o.get('contracts', True) else mdl, o)
    st = State()
    t0 = time.time()
    args = entry_args(eng, st, f)
    err = None
    rets = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        sts = [st]
        if pre: sts = pre(eng, st, f, args) or [st]
        for s in sts:
            given = list(s.ts.get("args", args))        # an entry state may bind parameters itself
            for s2, r in eng.exec_fn(s, f, list(given)):
                rets.append((s2, r))
                for c in clients:
                    if hasattr(c, "at_exit"): c.at_exit(eng, s2, f, r, given)
                if post: post(eng, s2, f, given, r)
    except Timeout:
        err = "timeout"
    except AnalysisBroken as e:
        err = "broken: %s" % e
    except Exception:
        err = "exception: " + traceback.format_exc()
    finally:
        signal.alarm(0)
    sites = {}
    for c in clients:
        for k, v in getattr(c, "sites", {}).items():
            sites["%s.%s" % (c.name, k)] = len(v)
    stt = dict(eng.stats)
    stt["functions"] = sorted("%s:%s" % (os.path.basename(a), b) for a, b in stt["functions"])
    return {"fn": f.name, "file": f.module.path, "reports": list(eng.reports.values()), "stats": stt, "sites": sites,
            "error": err, "wall": time.time() - t0, "rets": len(rets), "unmodelled": sorted(getattr(eng, "unmodelled", ()))}


def _gnames(x, out):
    if isinstance(x, (tuple, list)):
        if len(x) >= 2 and x[0] == "g" and isinstance(x[1], str):
            out.add(x[1])
        for y in x: _gnames(y, out)
    elif isinstance(x, dict):
        for y in x.values(): _gnames(y, out)


def address_taken(prog):
    """(module path, function) pairs used as a value somewhere"""
    res = set()
    for m in prog.modules:
        names = set()
        for f in m.funcs.values():
            for b in f.blocks.values():
                for i in b.ins:
                    _gnames(i.ops, names)
                    if i.op == "call":
                        if i.extra: _gnames(i.extra[1:], names)
                    else: _gnames(i.extra, names)
        for g in m.globals.values(): _gnames(g.init, names)
        for n in names:
            f = prog.resolve(m, n)
            if f is not None: res.add((f.module.path, f.name))
    return res


def entries(prog):
    """analysis entry points: exported functions, callbacks / thread bodies, and functions replaced by a contract"""
    from . import contracts
    at = address_taken(prog)
    return [f for f in prog.all_funcs()
            if f.blocks and (not f.internal or (f.module.path, f.name) in at or f.name in contracts.INNER)]
