import sys, time
from core import *
p = load()
for n in sys.argv[1:]:
    b = p.fn(n)
    if b is None:
        print("no", n, [k for k in p.by_path if n.split("::")[-1] in k][:10]); continue
    m = ex.Machine(p)
    t=time.time()
    r = m.extract(b)
    print("==", n, "%.2fs" % (time.time()-t))
    print("ret", show(r.ret, 30)[:3000])
    for k, v in r.outs.items(): print("out", k, show(v, 30)[:2000])
    print("unknown", m.unknown)
