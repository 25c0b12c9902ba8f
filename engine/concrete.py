"""Concrete runs of a harness against the real filterpy and real numpy.

  concrete.py replay FILE      re-run a counterexample; exit 1 when it reproduces
  concrete.py batch            JSON jobs on stdin, JSON results on stdout
"""
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
REPO = os.environ.get('VERIF_DEV_REPO', '/repo')      # a scratch copy while developing the checks
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import numpy as np   # noqa: E402

_real_random = {k: getattr(np.random, k) for k in dir(np.random) if not k.startswith('_')}


def run_one(job):
    from engine import registry
    from engine.env import ConcEnv, PreconditionFailed, HarnessSkip
    warnings.simplefilter('ignore')
    h = registry.find(job['property'], job['harness'])
    env = ConcEnv(job['assign'], seed=job.get('seed', 1), tol=h.opts.get('tol', 1e-6))
    for k in [m for m in sys.modules if m == 'filterpy' or m.startswith('filterpy.')]:
        del sys.modules[k]
    env.install_random()
    out = dict(status='ok', mismatches=[], checks=0)
    try:
        h.fn(env, **job['params'])
    except PreconditionFailed as e:
        out['status'] = 'precondition'
        out['why'] = str(e)
    except HarnessSkip:
        out['status'] = 'skip'
    except Exception as e:
        out['status'] = 'raised'
        out['why'] = repr(e)
        out['mismatches'].append(dict(label='raised', detail='%r\n%s' % (e, traceback.format_exc()[-1500:])))
    if out['status'] in ('ok', 'raised'):
        out['mismatches'] += [dict(label=m.label, detail=m.detail[:600]) for m in env.mism]
    out['checks'] = env.nchecks
    out['used'] = {k: float(v) for k, v in env.used.items()}
    if job.get('trace'):
        out['trace'] = [(l, (v.tolist() if hasattr(v, 'tolist') else v)) for l, v in env.trace]
    return out


def main():
    if sys.argv[1] == 'replay':
        with open(sys.argv[2]) as f:
            job = json.load(f)
        r = run_one(job)
        print('replaying %s/%s %s' % (job['property'], job['harness'], json.dumps(job['params'])))
        print('inputs: %s' % json.dumps(job['assign']))
        for m in r['mismatches']:
            print('MISMATCH %s: %s' % (m['label'], m['detail']))
        if r['mismatches']:
            sys.exit(1)
        print('status %s: property not violated at these inputs' % r['status'])
        sys.exit(0)
    elif sys.argv[1] == 'batch':
        jobs = json.load(sys.stdin)
        so = sys.stdout
        sys.stdout = sys.stderr
        res = []
        for j in jobs:
            res.append(run_one(j))
        so.write(json.dumps(res))


if __name__ == '__main__':
    main()
