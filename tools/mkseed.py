#!/usr/bin/env python3
"""Development helper: mkseed.py SPEC.py — a spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], DEMO (C source or shell).
Writes /verif/seeded/ID/{patch.diff,demo.sh,meta.json,...}."""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = '''#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
b=%(variant)s
gcc -g -O0 -pthread %(cflags)s -I"$d" -I/repo/inc -I/repo/_build/$b/deploy/inc -I/repo/_build/$b/deploy/inc/config -I/repo/_build/$b/generate \\
  %(defs)s "$d/demo.c" -o "$t/demo" /repo/_build/$b/deploy/debug/linux_x64/liblcu_a.a -lm -ldl %(ldflags)s || exit 2
cd "$t" && %(env)s timeout 60 ./demo
'''


WRAP = "".join(" -Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "strdup", "strndup"))


def make(ns):
    d = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", "-q", t + "/w", "HEAD"], check=True)
        for e in ns["EDITS"]:
            p = os.path.join(t, "w", e[0])
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            old, new = e[1], e[2]
            if crlf: old, new = [x.replace("\r\n", "\n").replace("\n", "\r\n") for x in (old, new)]
            n = s.count(old)
            if n == 0 or (n > 1 and len(e) < 4): raise SystemExit("%s: %d matches for %r in %s" % (ns["ID"], n, old, e[0]))
            if len(e) > 3:
                k = -1
                for _ in range(e[3]): k = s.index(old, k + 1)
                s = s[:k] + new + s[k + len(old):]
            else: s = s.replace(old, new)
            open(p, "w", newline="").write(s)
        r = subprocess.run(["git", "-C", t + "/w", "diff"], stdout=subprocess.PIPE, check=True)
        open(os.path.join(d, "patch.diff"), "wb").write(r.stdout)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t, ignore_errors=True)
    v = ns.get("VARIANT", "main")
    if "DEMO" in ns:
        open(os.path.join(d, "demo.c"), "w").write(ns["DEMO"])
        sh = DEMO_SH % dict(variant=v, cflags=ns.get("CFLAGS", ""), defs=ns.get("DEFS", "-D_DEBUG" + (" -D_LCU_MEM_CHECK_FEATURE_ENABLE=1" if v == "memcheck" else "")),
                            ldflags=ns.get("LDFLAGS", "") + (WRAP if '"w.h"' in ns["DEMO"] else ""), env=ns.get("ENV", ""))
    else: sh = ns["SH"]
    for h in ("w.h", "step.h"):
        if '"%s"' % h in ns.get("DEMO", ""): shutil.copy(os.path.join(V, "tools", h), d)
    for n, c in ns.get("FILES", {}).items(): open(os.path.join(d, n), "w").write(c)
    open(os.path.join(d, "demo.sh"), "w").write(sh); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", ns["ID"])


if __name__ == "__main__":
    for f in sys.argv[1:]:
        src = open(f).read()
        base = {}
        for part in src.split("\n#----\n"):
            if not part.strip(): continue
            ns = dict(base)
            exec(compile(part, f, "exec"), ns)
            if "ID" in ns: make(ns)
            else: base = ns
