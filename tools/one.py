"""debug: python tools/one.py PROP HARNESS 'params' [query_ms]"""
import sys, time, os
sys.path.insert(0, '/verif')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
from engine import registry, explore, ctx
registry.load_all()
h = registry.find(sys.argv[1], sys.argv[2])
t = time.time()
o = dict(h.opts)
if len(sys.argv) > 4:
    o.update(query_ms=int(sys.argv[4]), final_ms=1000)
if os.environ.get('TRACE'):
    for nm in ('solve', 'solve_nra', 'identical'):
        def mk(f, nm):
            def g(self, *a, **k):
                t = time.time()
                r = f(self, *a, **k)
                if time.time() - t > 0.3:
                    print(nm, round(time.time() - t, 2), r if isinstance(r, bool) else r[0], len(str(a[0])) if nm=='solve_nra' else '')
                return r
            return g
        setattr(ctx.World, nm, mk(getattr(ctx.World, nm), nm))
    od = explore.decide
    def dec(w, c, e, ob, *a):
        t = time.time()
        r = od(w, c, e, ob, *a)
        if time.time() - t > 0.3:
            print('  goal', ob[0], round(time.time() - t, 2))
        return r
    explore.decide = dec
r = explore.run(h.fn, eval(sys.argv[3]), o, seed=1)
print('proved', len(r.proved), 'cand', [(c[0], c[2][-1500:]) for c in r.candidates[:3]], 'inconcl', r.inconclusive[:6], r.stats.asdict(), 'paths', r.paths, time.time() - t)
