#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current tree"""
import sys, os, json, importlib, pkgutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump, ir, fw
import props

for m in pkgutil.iter_modules(props.__path__):
    importlib.import_module("props." + m.name)


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    ids = sorted(props.PROPS) if args == ["all"] else args
    rc = 0
    try:
        pth = dump.dump()
        prog = ir.Prog(pth)
        meta = json.load(open(pth + ".meta"))
    except SystemExit:
        prog = None
    for pid in ids:
        d = props.PROPS[pid]
        cx = fw.Ctx(pid, tier, prog, meta if prog else {})
        if prog is None:
            cx.ob("export", False, "the tree does not compile or could not be exported", "src/lib.rs")
        else:
            try:
                d["run"](cx)
            except fw.Missing as e:
                cx.ob("anchor", False, str(e), "")
        rc |= fw.finish(cx, level=d["level"], explanation=d["explanation"], rule=d["rule"], assumptions=d["assumptions"], floor=d["floor"])
    return rc


if __name__ == "__main__":
    import threading
    threading.stack_size(512 << 20)
    r = []
    t = threading.Thread(target=lambda: r.append(main()))
    t.start()
    t.join()
    sys.exit(r[0] if r else 1)
