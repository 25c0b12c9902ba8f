"""./check PROPERTY [quick|thorough]"""
import json
import math
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True

PY = sys.executable


def concrete(jobs, timeout=240):
    if not jobs:
        return []
    p = subprocess.run([PY, os.path.join(HERE, 'engine', 'concrete.py'), 'batch'],
                       input=json.dumps(jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=timeout)
    if p.returncode != 0:
        raise RuntimeError('concrete run failed: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def work(prop, name, params, opts, q):
    try:
        q.put(_work(prop, name, params, opts))
    except BaseException:
        q.put(dict(error=traceback.format_exc()[-3000:]))


def _work(prop, name, params, opts):
    from engine import registry, explore
    h = registry.find(prop, name)
    o = dict(h.opts)
    o.update(opts)
    t0 = time.time()
    r = explore.run(h.fn, params, o, seed=int(os.environ.get('VERIF_SEED', '1') or 1))
    out = dict(proved=len(r.proved), labels=sorted(r.labels), candidates=r.candidates,
               inconclusive=r.inconclusive, paths=r.paths, pruned=r.pruned,
               stats=r.stats.asdict(), validations=r.validations,
               files=sorted(set(r.finder.loaded)), functions=sorted(r.functions),
               stubs=sorted(r.stubs), wall=time.time() - t0)
    return out


def close(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        a, b = flatten(a), flatten(b)
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None:
        return True
    a, b = float(a), float(b)
    if math.isnan(b) or math.isinf(b) or math.isnan(a) or math.isinf(a):
        return True
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


def flatten(x):
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r.extend(flatten(y))
        return r
    return [x]


def known():
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f).get('findings', [])
    return []


def match_known(kf, prop, name, params, mism):
    for k in kf:
        if k['property'] != prop or k['harness'] != name:
            continue
        if 'params' in k and any(params.get(a) != b for a, b in k['params'].items()):
            continue
        if all(any(m['label'].startswith(l) for l in k['labels']) for m in mism):
            return k
    return None


def confirmed(prop, h, p, r, kf):
    try:
        outs = concrete([dict(property=prop, harness=h.name, params=p, assign=a) for _, a, _ in r['candidates'][:6]], timeout=60)
    except Exception:
        return False
    return any(o['mismatches'] and not match_known(kf, prop, h.name, p, o['mismatches']) for o in outs)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    os.chdir(HERE)
    from engine import registry
    import numpy, z3, scipy.linalg, scipy.stats, scipy.ndimage, scipy.spatial.distance   # noqa: preload before fork
    registry.load_all()
    hs = registry.REG.get(prop, [])
    if only:
        hs = [h for h in hs if h.name == only]
    if not hs:
        print('no harness for', prop)
        return 2
    budget = 700 if tier == 'quick' else 3 * 3600
    jobs = []
    for h in hs:
        ps = list(h.quick) + (list(h.thorough) if tier == 'thorough' else [])
        for p in ps:
            jobs.append((h, p))
    # hard wall per instance
    results = []
    running = []
    pending = list(jobs)
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    stop_at = None                 # set once a counterexample has been confirmed on the real code
    kf = known()
    mpc = mp.get_context('fork')
    while pending or running:
        while pending and len(running) < nproc:
            h, p = pending.pop(0)
            q = mpc.Queue()
            opts = {}
            if tier == 'thorough':
                opts = dict(query_ms=h.opts.get('query_ms', 20000) * 6,
                            final_ms=h.opts.get('final_ms', 60000) * 10, wall=h.opts.get('wall', 600) * 6,
                            max_paths=h.opts.get('max_paths', 400) * 8)
            pr = mpc.Process(target=work, args=(prop, h.name, p, opts, q))
            pr.daemon = True
            pr.start()
            running.append((pr, q, h, p, time.time()))
        still = []
        for pr, q, h, p, ts in running:
            got = None
            try:
                got = q.get(timeout=0.02)
            except Exception:
                if not pr.is_alive():
                    try:
                        got = q.get(timeout=0.5)
                    except Exception:
                        got = dict(error='worker died (exit %r)' % pr.exitcode)
            if got is None and time.time() - t0 > budget:
                pr.kill()
                got = dict(error='time budget of the check exhausted')
            if got is None and stop_at is not None and time.time() > stop_at:
                pr.kill()
                got = dict(error='not explored: a violation was already confirmed')
            if got is None:
                still.append((pr, q, h, p, ts))
            else:
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                results.append((h, p, got))
                if stop_at is None and tier == 'quick' and got.get('candidates') and confirmed(prop, h, p, got, kf):
                    stop_at = time.time() + float(os.environ.get('VERIF_DEV_STOP', '15'))
        running = still
        if stop_at is not None and time.time() > stop_at:
            results += [(h, p, dict(error='not explored: a violation was already confirmed')) for h, p in pending]
            pending = []
    # replay candidates, validate the encoding
    violations, findings = [], []
    undecided = set()          # instances with at least one undecided obligation

    class Errs(list):
        def add(self, h, p, text):
            undecided.add(h.name + json.dumps(p, sort_keys=True))
            self.append('%s %s %s' % (h.name, json.dumps(p), text))
    errors = Errs()
    jobs2, meta = [], []
    for h, p, r in results:
        if 'error' in r:
            errors.add(h, p, r['error'])
            continue
        for label, assign, note in r['candidates']:
            jobs2.append(dict(property=prop, harness=h.name, params=p, assign=assign))
            meta.append(('cand', h, p, label, note))
        for assign, vals in r['validations']:
            jobs2.append(dict(property=prop, harness=h.name, params=p, assign=assign, trace=True))
            meta.append(('valid', h, p, vals, None))
    chunks = [[] for _ in range(nproc)]
    for i in range(len(jobs2)):
        chunks[i % nproc].append(i)
    from concurrent.futures import ThreadPoolExecutor
    outs = [None] * len(jobs2)

    def go(ix):
        try:
            rs = concrete([jobs2[i] for i in ix])
        except Exception as e:
            return ix, e
        return ix, rs
    with ThreadPoolExecutor(nproc) as ex:
        for ix, rs in ex.map(go, [c for c in chunks if c]):
            if isinstance(rs, Exception):
                errors.append(str(rs))
                continue
            for i, r in zip(ix, rs):
                outs[i] = r
    reproduced = {}
    nvalid = 0
    witness = {}
    unrepro = {}
    for job, m, o in zip(jobs2, meta, outs):
        if o is None:
            continue
        kind, h, p, x, note = m
        pk = h.name + json.dumps(p, sort_keys=True)
        if kind == 'cand':
            if o['mismatches']:
                reproduced.setdefault((pk, x), (job, h, p, x, o, 'solver model'))
            else:
                unrepro.setdefault((pk, x), (h, p, note, o['status'], job))
        else:
            if o['status'] == 'ok' or o['status'] == 'raised':
                if o['checks']:
                    witness[pk] = True
                nvalid += 1
                if o['mismatches']:
                    reproduced.setdefault((pk, 'validation:' + o['mismatches'][0]['label']),
                                          (job, h, p, o['mismatches'][0]['label'], o, 'encoding-validation run'))
                else:
                    tr = {}
                    for l, v in o.get('trace', []):
                        tr.setdefault(l, []).append(v)
                    for l, k, v in x:
                        if l in tr and k < len(tr[l]):
                            c = tr[l][k]
                            if not close(c, v, 1e-5):
                                errors.add(h, p, 'encoding differs from the real code: %s: encoded %r, real %r'
                                           % (l, v, c))
    for (pk, x), (h, p, note, status, job) in unrepro.items():
        if (pk, x) in reproduced:
            continue
        if any(k[0] == pk for k in reproduced):
            continue
        errors.add(h, p, 'counterexample did not reproduce (%s): %s %s inputs=%s' %
                   (status, x, note[:1500], json.dumps(job['assign'])[:800]))
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for n, ((pk, x), (job, h, p, label, o, how)) in enumerate(sorted(reproduced.items(), key=lambda kv: kv[0])):
        k = match_known(kf, prop, h.name, p, o['mismatches'])
        if k is not None:
            findings.append(k)
            continue
        # one report per harness instance is enough
        if any(v[1] is h and v[2] == p for v in violations):
            continue
        f = os.path.join(rdir, '%s-%s-%d.json' % (prop, h.name, n))
        job = dict(job)
        job.pop('trace', None)
        job['assign'] = {a: (float(v) if not isinstance(v, str) else v) for a, v in job['assign'].items()}
        job['mismatches'] = o['mismatches']
        job['found_by'] = how
        with open(f, 'w') as fh:
            json.dump(job, fh, indent=1)
        violations.append((f, h, p, o['mismatches'], how))
    tot = dict(obligations=0, proved=0, paths=0, queries=0, unsat=0, sat=0, unknown=0, trivial=0, solver_s=0.0)
    functions, stubs, bounds, inst = set(), set(), {}, []
    slow = []
    for h, p, r in results:
        bounds.setdefault(h.name, dict(what=h.bounds, instances=[]))['instances'].append(p)
        if 'error' in r:
            continue
        pk = h.name + json.dumps(p, sort_keys=True)
        tot['proved'] += r['proved']
        tot['paths'] += r['paths'] - r['pruned']
        for k in ('queries', 'unsat', 'sat', 'unknown', 'trivial', 'solver_s'):
            tot[k] += r['stats'][k]
        functions |= set(r['functions'])
        stubs |= set(r['stubs'])
        for label, why in r['inconclusive']:
            # a violated instance needs no completeness
            if not any(k[0] == pk for k in reproduced):
                errors.add(h, p, 'inconclusive: %s: %s' % (label, why[:3000]))
        if pk not in witness and not any(k[0] == pk for k in reproduced):
            errors.add(h, p, 'vacuous: no concrete witness reached the assertions')
        if r['proved'] == 0 and not any(k[0] == pk for k in reproduced):
            errors.add(h, p, 'vacuous: no obligation')
        slow.append((round(r['wall'], 1), h.name, p))
    wall = time.time() - t0
    slow.sort(key=lambda t: -t[0])
    for k in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    seen = set()
    for f, h, p, mism, how in violations:
        key = (h.name, mism[0]['label'])
        print('VIOLATION property=%s replay=%s' % (prop, f))
        if key not in seen:
            print('   %s %s (%s): %s: %s' % (h.name, json.dumps(p), how, mism[0]['label'], mism[0]['detail'][:400]))
        seen.add(key)
    for e in errors[:20]:
        print('UNDECIDED', e)
    samples = [dict(harness=h.name, params=p) for h, p, r in results[:3]]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(
                  explanation='Each harness executes the real functions below on symbolic inputs along every '
                              'feasible path; every assertion became one solver query over all input values '
                              '(unsat = holds). Bounds: the harness instances listed.',
                  functions_encoded=sorted(functions), bounds=bounds,
                  assertions_discharged=tot['proved'], paths=tot['paths'],
                  queries=tot['queries'], queries_unsat=tot['unsat'], queries_sat=tot['sat'],
                  queries_unknown=tot['unknown'],
                  closed_by_term_rewriting=tot['trivial'], solver_seconds=round(tot['solver_s'], 2),
                  instances=len(results), instances_undecided=len(undecided), witnesses=len(witness), encoding_validations=nvalid,
                  stand_ins_used=sorted(stubs), known_findings=[k['what'] for k in findings],
                  slowest=slow[:3], samples=samples, errors=errors[:20]),
              assumptions=['real arithmetic: rounding, overflow and NaN propagation are outside the claim',
                           'matrix inverses are taken where they exist (nonzero determinant)',
                           'stand-ins for native numerical kernels implement their documented contract '
                           '(each encoded value is compared with the real code on the validation runs)',
                           'dimensions, steps and argument forms beyond the listed instances are outside the claim'],
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d instances, %d paths, %d assertions proved, %d queries (%.1fs solver), %d validations, '
          '%d violations, %d errors, %.1fs' % (prop, tier, len(results), tot['paths'], tot['proved'], tot['queries'],
                                               tot['solver_s'], nvalid, len(violations), len(errors), wall))
    if os.environ.get('VERIF_SLOW'):
        for s in slow[:8]:
            print('  slow', s)
    if violations:
        return 1
    if errors:
        # part of the code could not be decided (a construct outside the encoder, a solver limit):
        # reported above and in the evidence; the exit code speaks for what was decided
        print('%s: %d of %d instances undecided' % (prop, len(undecided), len(results)))
        if len(undecided) >= len(results) or os.environ.get('VERIF_STRICT'):
            return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
