"""setup_cmd: check the tools the analysis needs and compile its numeric core."""
import sys, shutil
from . import lin


def main():
    for t in ("clang", "opt", "gcc"):
        if not shutil.which(t):
            print("missing tool: " + t); return 2
    if lin._fm is None:
        print("numeric core did not compile"); return 2
    from . import ir
    print("%d source files, tools present" % len(ir.source_files()))
    return 0


if __name__ == "__main__":
    sys.exit(main())
