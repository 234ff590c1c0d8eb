"""Decides one property: check.py ID  (environment VERIF_SEED, VERIF_TIER).
check.py --thorough ID does the same with VERIF_TIER=thorough.
check.py --replay FILE runs one recorded case again.

Exit 0: held on all that was explored; 1: a VIOLATION line was printed; 2: the machinery failed.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import models          # noqa: E402
import tlc             # noqa: E402
from plan import PLAN  # noqa: E402

SHARES = 8


def known():
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        return json.load(f)


def replay(path):
    import where  # noqa: F401
    import families
    import worker
    with open(path) as f:
        v = json.load(f)
    fam = families.FAMILIES[v['family']]
    try:
        case = fam.go(v['recipe'])
    except Exception:
        traceback.print_exc()
        print('reproduced' if v['case'] is None else 'not reproduced')
        return 1
    res = worker.tlc_judge(fam, [case])
    print(json.dumps(fam.show(v['recipe'], case), indent=1))
    print(res['records'][0])
    bad = worker.violations(fam, v['property'], [v['recipe']], [case], res['records'])
    print('reproduced' if bad else 'not reproduced')
    return 1 if bad else 0


def main(prop):
    t0 = time.time()
    seed = os.environ.get('VERIF_SEED', '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    plan = PLAN[prop]
    work = tlc.scratch()
    procs = []
    env = dict(os.environ)
    errors, results, model_results, viol = [], [], [], []
    found = os.path.join(work, 'models') if plan.get('models') else None
    try:
        for fam, shares in plan['families']:
            for s in range(shares):
                out = os.path.join(work, '%s.%d.json' % (fam, s))
                p = subprocess.Popen([sys.executable, os.path.join(HERE, 'worker.py'), prop, fam, seed, str(s), str(shares), tier, out] + ([found] if found else []),
                                     env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
                procs.append((fam, s, out, p))
        if found:
            behaviours = []
            for family, name in plan['models']:
                try:
                    m = models.run(name, tier, seed)
                    behaviours.append([family, name, m.pop('records')])
                    model_results.append(m)
                except tlc.TlcError as exc:
                    errors.append(str(exc)[-3000:])
            with open(found + '.part', 'w') as f:
                json.dump(behaviours, f)
            os.rename(found + '.part', found)
        for fam, s, out, p in procs:
            _, err = p.communicate()
            if not os.path.exists(out):
                errors.append('worker %s/%d died (%s): %s' % (fam, s, p.returncode, err.decode('utf-8', 'replace')[-2000:]))
                continue
            with open(out) as f:
                r = json.load(f)
            r['family'] = fam
            results.append(r)
            if r['error']:
                errors.append('%s/%d: %s' % (fam, s, r['error']))
    finally:
        for _, _, _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)

    for r in results:
        viol += r['violations']

    fresh = []
    for v in viol:
        hit = [k for k in known() if k.get('status') == 'finding' and k['property'] == prop and matches(k, v)]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what']))
        else:
            fresh.append(v)

    verdicts, features, cases = {}, {}, 0
    for r in results:
        cases += r['cases']
        for k, n in r['verdicts'].items():
            verdicts['%s / %s' % (r['family'], k)] = verdicts.get('%s / %s' % (r['family'], k), 0) + n
        for k, n in r['features'].items():
            features[k] = features.get(k, 0) + n
    coverage = {
        'states': sum(r['distinct'] for r in results) + sum(m['distinct'] for m in model_results),
        'transitions': sum(r['states'] for r in results) + sum(m['states'] for m in model_results),
        'traces_validated_against_impl': cases,
        'samples': sum((r['samples'][:1] for r in results), [])[:4],
        'verdicts': verdicts,
        'inputs': features,
        'models': model_results,
    }
    evidence = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(seed), 'level': 'model_checking',
                'coverage': coverage, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
                'assumptions': plan.get('assumptions', []), 'errors': errors}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if fresh:
        d = os.path.join(ROOT, 'replay')
        os.makedirs(d, exist_ok=True)
        for v in fresh[:5]:
            text = json.dumps(v)
            path = os.path.join(d, '%s.%s.json' % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                f.write(text)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            if 'record' in v:
                print('  %s' % json.dumps({k: v['record'][k] for k in v['record']}))
        print('%d violations in %d cases' % (len(fresh), cases))
        return 1
    if errors:
        print('ERROR (%d)\n%s' % (len(errors), errors[0][:3000]))
        return 2
    print('property %s held: %d cases, %d states, %.1f s' % (prop, cases, coverage['states'], time.time() - t0))
    return 0


def matches(k, v):
    m = k.get('match', {})
    return m.get('family') == v.get('family') and m.get('clause') == v.get('record', {}).get('clause') and m.get('recipe') == v.get('recipe')


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == '--thorough':
        os.environ['VERIF_TIER'] = 'thorough'
        del sys.argv[1]
    sys.exit(main(sys.argv[1]))
