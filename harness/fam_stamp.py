"""Histories of timestamp objects.

A recipe: {'ops': [{'op': ..., 's': number of the operation whose object is used, or 0, ...}]}.
"""
import copy
import datetime
import pickle
from decimal import Decimal

from amazon.ion import core, simple_types

import fam_base
import guard
import proj
from fam_base import budget

PRECISIONS = ['YEAR', 'MONTH', 'DAY', 'MINUTE', 'SECOND']
FIELDS = ['year', 'month', 'day', 'hour', 'minute', 'second']


def obj(v):
    if v is None:
        return {'c': 'none'}
    opt = lambda x: [] if x is None else [int(x)]
    off = v.utcoffset()
    out = {'c': 'I' if isinstance(v, simple_types.IonPyTimestamp) else 'T' if isinstance(v, core.Timestamp) else 'dt',
           'y': [v.year, v.month, v.day, v.hour, v.minute, v.second], 'us': v.microsecond, 'fp': opt(getattr(v, 'fractional_precision', None)),
           'fs': [], 'prec': opt(getattr(v, 'precision', None)), 'off': [] if off is None else [proj.offset_minutes(off)],
           't': proj.type_of(getattr(v, 'ion_type', None)), 'a': [proj.tok(x) for x in getattr(v, 'ion_annotations', ())]}
    fs = getattr(v, 'fractional_seconds', None)
    if fs is not None:
        if not isinstance(fs, Decimal):
            raise proj.Malformed('fractional seconds %r' % (fs,))
        s, ds, e = fs.as_tuple()
        if not isinstance(e, int):
            raise proj.Malformed('fractional seconds %r' % (fs,))
        out['fs'] = [s, list(ds), proj.clamp(e)]
    if out['c'] != 'dt' and out['prec'] and not isinstance(v.precision, core.TimestampPrecision):
        raise proj.Malformed('precision %r' % (v.precision,))
    return out


def zone(minutes):
    return core.OffsetTZInfo(datetime.timedelta(minutes=minutes))


def new_arguments(q):
    """Positional and keyword arguments of a construction."""
    one = lambda x: x[0] if x else None
    kw = {}
    if q['how'] == 'fn':
        names = FIELDS + ['microsecond', 'off_hours', 'off_minutes', 'precision', 'fractional_precision', 'fractional_seconds']
        vals = dict(off_hours=one(q['oh']), off_minutes=one(q['om']))
    else:
        names = FIELDS + ['microsecond', 'tzinfo']
        vals = dict(tzinfo=zone(q['off'][0]) if q['off'] else None)
    vals.update(zip(FIELDS, q['y']))
    vals['microsecond'] = one(q['us'])
    vals['precision'] = getattr(core.TimestampPrecision, PRECISIONS[q['prec'][0]]) if q['prec'] else None
    vals['fractional_precision'] = one(q['fp'])
    vals['fractional_seconds'] = Decimal((q['fs'][0], tuple(q['fs'][1]), q['fs'][2])) if q['fs'] else None
    args = []
    # the first `pos` arguments by position, the others by keyword; those not given are left out or None
    for k, name in enumerate(names):
        if k >= q['pos'] or name not in vals:
            break
        args.append(vals.pop(name))
    for name, v in vals.items():
        if v is not None or q['nones']:
            kw[name] = v
    return args, kw


class Stamps(fam_base.Family):
    name = 'stamp'
    module = 'TraceTimestamp'

    def run(self, recipe):
        vs, ops = [], []
        for q in recipe['ops']:
            q = dict(q)
            s = q['s']
            if s and (s > len(vs) or vs[s - 1] is None):
                s = max([k + 1 for k, v in enumerate(vs) if v is not None], default=0)
                if not s:
                    continue
                q['s'] = s
            v = vs[s - 1] if s else None
            if q['op'] == 'zone' and v.utcoffset() is None:
                continue
            if q['op'] == 'ion' and not isinstance(v, datetime.datetime):
                continue
            new, exc = guard.call(lambda: self.do(q, v))
            r = {'k': 'ok', 'o': {'c': 'none'}}
            if exc is not None:
                r['k'] = 'hang' if isinstance(exc, guard.Hang) else 'err'
                new = None
            else:
                try:
                    r['o'] = obj(new)
                except Exception:
                    r['k'] = 'bad'
                    new = None
            vs.append(new)
            ops.append({'q': q, 'r': r})
        after = []
        for v in vs:
            try:
                after.append({'k': 'ok', 'o': obj(v)})
            except Exception:
                after.append({'k': 'bad', 'o': {'c': 'none'}})
        return {'ops': ops, 'after': after}

    def do(self, q, v):
        op = q['op']
        if op == 'new':
            args, kw = new_arguments(q)
            return core.timestamp(*args, **kw) if q['how'] == 'fn' else core.Timestamp(*args, **kw)
        if op == 'utc':
            args, kw = new_arguments(q)
            return core.Timestamp.adjust_from_utc_fields(*args, **kw)
        if op == 'copy':
            return copy.copy(v)
        if op == 'deepcopy':
            return copy.deepcopy([v])[0] if q.get('inner') else copy.deepcopy(v)
        if op == 'pickle':
            return pickle.loads(pickle.dumps(v, q['p']))
        if op == 'ion':
            return simple_types.IonPyTimestamp.from_value(core.IonType.TIMESTAMP, v, tuple(''.join(map(chr, a[1])) for a in q['a']))
        if op == 'replace':
            kw = dict((FIELDS[k - 1], x) for k, x in zip(q['names'], q['vals']))
            if q['us']:
                kw['microsecond'] = q['us'][0]
            if q['tz']:
                kw['tzinfo'] = zone(q['tz'][0][0]) if q['tz'][0] else None
            args = []
            if q.get('pos'):
                for f in FIELDS:
                    args.append(kw.pop(f) if f in kw else getattr(v, f))
                    if not any(g in kw for g in FIELDS):
                        break
            return v.replace(*args, **kw)
        if op == 'add':
            d = datetime.timedelta(days=q['days'], seconds=q['secs'], microseconds=q['micros'])
            return v + d if q['how'] == '+' else d + v if q['how'] == 'r' else v - (-d)
        if op == 'zone':
            return v.astimezone(zone(q['off']))
        raise AssertionError(op)

    def features(self, recipe, case):
        return {'%s %s' % (o['q']['op'], o['r']['k']) for o in case['ops']}

    def script(self, prop, model, rec):
        yield {'ops': rec + [{'op': 'pickle', 's': 1, 'p': 2, 'inner': False}]}

    def recipes(self, prop, rng, share, shares, tier):
        g = Gen(rng)
        for _ in range(budget(tier, 16000, shares)):
            ops = [g.new()]
            for _ in range(rng.choice([0, 1, 2, 4])):
                ops.append(g.op(len(ops)))
            yield {'ops': ops}


class Gen(object):
    def __init__(self, rng):
        self.rng = rng

    def new(self, op='new'):
        r = self.rng
        y = [r.choice([1, 2, 1970, 1999, 2000, 2019, 2020, 9999, r.randrange(1, 10000), r.randrange(1, 10000)]), r.randrange(1, 13), r.randrange(1, 29),
             r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)])]
        if r.random() < .1:
            y[2] = r.randrange(28, 32)
        if r.random() < .06:
            i = r.randrange(6)
            y[i] = [r.choice([0, 10000]), r.choice([0, 13]), r.choice([0, 29, 30, 31, 32]), r.choice([24, -1]), r.choice([60, -1]), r.choice([60, -1])][i]
        how = r.choice(['fn', 'ctor']) if op == 'new' else 'ctor'
        n = r.choice([6, 6, 6, 3, 5, r.randrange(1, 7)])
        q = {'op': op, 's': 0, 'how': how, 'y': y[:n], 'us': [], 'fp': [], 'fs': [], 'prec': [], 'off': [], 'oh': [], 'om': [],
             'pos': r.choice([0, 3, 6, 7, 12, r.randrange(13)]), 'nones': r.random() < .5}
        k = r.random()
        if k < .35:
            q['us'] = [self.micro()]
            if r.random() < .6:
                p = 6
                while p and r.random() < .7 and q['us'][0] % 10 ** (7 - p) == 0:
                    p -= 1
                q['fp'] = [p if r.random() < .8 else r.randrange(-1, 8)]
        elif k < .75:
            q['fs'] = self.fraction()
        elif k < .85:
            if r.random() < .5:
                q['us'] = [self.micro()]
            if r.random() < .5:
                q['fp'] = [r.randrange(-1, 8)]
            if r.random() < .5:
                q['fs'] = self.fraction()
        if r.random() < .8:
            q['prec'] = [r.randrange(5)]
        if r.random() < .6:
            if how == 'fn':
                if r.random() < .8:
                    q['oh'] = [r.choice([0, 0, 1, -1, 5, -8, 23, -23, r.choice([24, -24]) if r.random() < .2 else 3])]
                if r.random() < .7:
                    q['om'] = [r.choice([0, 0, 30, -30, 59, -59, 1, r.choice([60, -60]) if r.random() < .2 else 45])]
            else:
                q['off'] = [r.choice([0, 0, 60, -60, 330, -480, 1439, -1439, r.choice([1440, -1440]) if r.random() < .2 else 1, r.randrange(-1439, 1440)])]
        return q

    def micro(self):
        r = self.rng
        if r.random() < .05:
            return r.choice([-1, 1000000])
        return r.choice([0, 0, 1, 10, 500000, 999999, 100000, 120000, 123000, 123400, 123450, r.randrange(10 ** 6)])

    def fraction(self):
        r = self.rng
        k = r.random()
        if k < .1:
            return [r.randrange(2), [0], r.choice([0, 1, 3, -1, -6, -7, -20, 9])]
        if k < .17:
            return [0, [1], r.choice([0, 1])] if r.random() < .5 else [1, [1], -r.randrange(1, 8)]
        if k < .2:
            return [0, [r.randrange(1, 10) for _ in range(3)], -r.randrange(0, 4)]
        n = r.choice([1, 2, 3, 5, 6, 6, 7, 9, 12, 27, 28, 29, 35])
        ds = [r.choice([0, 0, 9, r.randrange(10)]) for _ in range(r.randrange(1, n + 1))]
        return [0, ds, -n]

    def op(self, n):
        r = self.rng
        s = n if r.random() < .7 else r.randrange(1, n + 1)
        k = r.random()
        if k < .12:
            return self.new()
        if k < .2:
            return self.new('utc')
        if k < .45:
            return {'op': r.choice(['copy', 'deepcopy', 'pickle']), 's': s, 'p': r.randrange(5), 'inner': r.random() < .3}
        if k < .55:
            return {'op': 'ion', 's': s, 'a': [[[1], proj.cps(r.choice(['a', 'b', '']))] for _ in range(r.choice([0, 0, 1, 2]))]}
        if k < .78:
            names = sorted(r.sample(range(1, 7), r.choice([0, 1, 1, 2, 6])))
            q = {'op': 'replace', 's': s, 'names': names, 'vals': [], 'us': [], 'tz': [], 'pos': r.random() < .3}
            for f in names:
                q['vals'].append([r.randrange(1, 10000), r.randrange(1, 13), r.randrange(1, 29) if r.random() < .9 else 31, r.randrange(24), r.randrange(60), r.randrange(60)][f - 1]
                                 if r.random() < .95 else [0, 13, 32, 24, 60, 60][f - 1])
            if r.random() < .3:
                q['us'] = [self.micro()]
            if r.random() < .3:
                q['tz'] = [[r.choice([0, 60, -330, 1439])] if r.random() < .8 else []]
            return q
        if k < .92:
            return {'op': 'add', 's': s, 'days': r.choice([0, 0, 1, -1, 365, -365, r.randrange(-10 ** 5, 10 ** 5)]), 'secs': r.choice([0, 1, -1, 86399, -86399, r.randrange(-10 ** 5, 10 ** 5)]),
                    'micros': r.choice([0, 1, -1, 500000, 999999, -999999]), 'how': r.choice(['+', 'r', '-'])}
        return {'op': 'zone', 's': s, 'off': r.choice([0, 60, -60, 1439, -1439, r.randrange(-1439, 1440)])}


FAMILIES = [Stamps()]
