"""One share of a check: makes cases, runs them through the code under test and has TLC
compare the recordings with the specification.  Writes its result as JSON.

usage: worker.py PROPERTY FAMILY SEED SHARE SHARES TIER OUT [MODELS]
MODELS is a file that will hold the behaviours found by the models: [[family, model, records]...].
"""
import itertools
import json
import os
import random
import re
import sys
import time
import traceback

import where  # noqa: F401
import fam_base
import families
import tlc


def tlc_judge(fam, cases, timeout=840):
    """Has TLC judge the cases.  A recording that the specification cannot even be applied to
    (a value of another kind where it promises one) is rejected like one that it contradicts."""
    odd = {}
    left = list(range(len(cases)))
    while True:
        try:
            res = tlc_run(fam, [cases[k] for k in left], timeout)
            break
        except tlc.TlcError as exc:
            m = re.search(r'Error: (?:Evaluating|Attempted|TLC threw|The (?:first|second) argument|In applying)', str(exc))
            i = re.findall(r'^/\\ i = (\d+)$', exc.output, re.M)
            if not m or not i:
                raise
            k = left.pop(int(i[-1]) - 1)
            if len(odd) > 3:
                return {'states': 0, 'distinct': 0, 'records': list(odd.values())}
            odd[k] = {'i': k + 1, 'v': 'reject', 'clause': 'an answer of another kind', 'why': '', 'op': 1}
    for r in res['records']:
        r['i'] = left[r['i'] - 1] + 1
    res['records'] += odd.values()
    return res


def tlc_run(fam, cases, timeout):
    work = tlc.scratch()
    path = os.path.join(work, 'cases.json')
    try:
        with open(path, 'w') as f:
            json.dump(cases, f)
        res = tlc.run(fam.module, 'SPECIFICATION Spec\n', {'CASES': path}, workers=1, timeout=timeout, heap='3g')
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)
    seen = sorted(r['i'] for r in res['records'])
    if seen != list(range(1, len(cases) + 1)):
        missing = sorted(set(range(1, len(cases) + 1)) - set(seen))[:5]
        raise tlc.TlcError('no single verdict for cases %r of %s' % (missing, fam.module))
    return res


def violations(fam, prop, recipes, cases, records):
    """The rejected cases that count against prop."""
    out = []
    rejects = [r for r in records if r['v'] == 'reject' and fam.counts(prop, recipes[r['i'] - 1], r)]
    bases = [fam.baseline(prop, recipes[r['i'] - 1]) for r in rejects]
    need = [k for k, b in enumerate(bases) if b is not None]
    bad = set()
    if need:
        bc = [fam.go(bases[k]) for k in need]
        for r in tlc_judge(fam, bc)['records']:
            if r['v'] == 'reject':
                bad.add(need[r['i'] - 1])
    for k, r in enumerate(rejects):
        if k not in bad:
            i = r['i'] - 1
            out.append({'property': prop, 'family': fam.name, 'recipe': recipes[i], 'case': cases[i], 'record': r})
    return out


def unusable(fam, prop, recipe, exc):
    """The code raised where a run only prepares what it needs, or gave what no run can be made of."""
    return {'property': prop, 'family': fam.name, 'recipe': recipe, 'case': None,
            'record': {'i': 1, 'v': 'reject', 'clause': 'the run could not be made', 'op': 0,
                       'why': '%s: %s' % (type(exc).__name__, ''.join(traceback.format_tb(exc.__traceback__)[-3:]))[:1500]}}


def scripts(fam, prop, path, share, shares):
    """What the models' behaviours are for this family, once they are known."""
    if path is None:
        return
    while not os.path.exists(path):
        time.sleep(.2)
    with open(path) as f:
        found = json.load(f)
    for family, model, records in found:
        if family == fam.name:
            for rec in records[share::shares]:
                for recipe in fam.script(prop, model, rec):
                    yield recipe


def main():
    prop, famname, seed, share, shares, tier, out = sys.argv[1:8]
    models = sys.argv[8] if len(sys.argv) > 8 else None
    share, shares = int(share), int(shares)
    fam = families.FAMILIES[famname]
    ctx = random.Random('%s/%s/%s/%d/context' % (seed, prop, famname, share))
    rng = random.Random('%s/%s/%s/%d' % (seed, prop, famname, share))
    result = {'states': 0, 'distinct': 0, 'cases': 0, 'verdicts': {}, 'violations': [], 'samples': [], 'seconds_code': 0.0,
              'seconds_tlc': 0.0, 'error': None, 'features': {}}
    try:
        t0 = time.time()
        batch, cases = [], []

        def flush():
            if not batch:
                return
            t1 = time.time()
            res = tlc_judge(fam, cases)
            result['seconds_tlc'] += time.time() - t1
            result['states'] += res['states']
            result['distinct'] += res['distinct']
            result['cases'] += len(cases)
            for r in res['records']:
                key = '%s: %s' % (r['v'], r['clause'])
                result['verdicts'][key] = result['verdicts'].get(key, 0) + 1
            if len(result['violations']) < 20:
                result['violations'] += violations(fam, prop, list(batch), list(cases), res['records'])
            if not result['samples']:
                result['samples'] = [fam.show(batch[k], cases[k]) for k in range(0, len(cases), max(1, len(cases) // 2))][:2]
            del batch[:]
            del cases[:]

        for recipe in itertools.chain(fam.recipes(prop, rng, share, shares, tier), scripts(fam, prop, models, share, shares)):
            if ctx.random() < .15 and 'ctx' not in recipe:
                recipe['ctx'] = ctx.choice(sorted(fam_base.CONTEXTS))
            try:
                case = fam.go(recipe)
            except Exception as exc:
                if len(result['violations']) < 20:
                    result['violations'].append(unusable(fam, prop, recipe, exc))
                continue
            batch.append(recipe)
            cases.append(case)
            for f in fam.features(recipe, cases[-1]):
                result['features'][f] = result['features'].get(f, 0) + 1
            if len(batch) >= 2500:
                flush()
        flush()
        result['seconds_code'] = time.time() - t0 - result['seconds_tlc']
    except Exception:
        result['error'] = traceback.format_exc()[-4000:]
    with open(out, 'w') as f:
        json.dump(result, f)


if __name__ == '__main__':
    sys.setrecursionlimit(10000)
    main()
