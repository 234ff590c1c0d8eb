"""ion_equals, on values that are nearly the same.

A recipe: {'nodes': [node...], 'pairs': [[a, b, instants only]...]}.
"""
import copy

from amazon.ion.equivalence import ion_equals

import fam_base
import genpy
import genval
import guard
from fam_base import budget


def nodes(n, out):
    out.append(n)
    for x in n['xs']:
        nodes(x, out)
    return out


class Equal(fam_base.Family):
    name = 'eq'
    module = 'TraceEq'

    def run(self, recipe):
        vs = [genpy.build(n) for n in recipe['nodes']]
        ops = []
        for a, b, inst in recipe['pairs']:
            r, exc = guard.call(lambda: ion_equals(vs[a], vs[b], timestamps_instants_only=True) if inst else ion_equals(vs[a], vs[b]))
            ops.append({'a': a + 1, 'b': b + 1, 'inst': inst, 'r': ('t' if r else 'f') if exc is None else 'hang' if isinstance(exc, guard.Hang) else 'err'})
        return {'xs': [genpy.spec(n) for n in recipe['nodes']], 'ops': ops}

    def features(self, recipe, case):
        out = set()
        for n in recipe['nodes']:
            for x in nodes(n, []):
                out.add('%s %s%s' % (x['p'], x['t'], ' null' if x['null'] else ''))
        for op in case['ops']:
            out.add('answer ' + op['r'] + (' instants' if op['inst'] else ''))
        return out

    def recipes(self, prop, rng, share, shares, tier):
        for _ in range(budget(tier, 6000, shares)):
            g = Gen(rng, ion=rng.choice([.2, .6, .6, 1]), subs=.1)
            base = g.value(rng.choice([0, 0, 1, 3, 4]))
            ns = [base]
            while len(ns) < 4:
                n = self.vary(g, copy.deepcopy(rng.choice(ns)), rng.choice([0, 1, 1, 2]))
                if len(nodes(n, [])) < 80:
                    ns.append(n)
            pairs = [[a, b, i] for i in (False, True) for a in range(4) for b in range(4)]
            yield {'nodes': ns, 'pairs': pairs}

    def script(self, prop, model, rec):
        ns = DOMAIN
        yield {'nodes': ns, 'pairs': [[a, b, i] for i in (False, True) for k in range(len(ns)) for a, b in ((rec - 1, k), (k, rec - 1))]}

    def vary(self, g, n, times):
        """Changes of representation that keep the value, and then some that do not."""
        r = g.rng
        for x in nodes(n, []):
            if r.random() < .25:
                same(r, x)
        for _ in range(times):
            change(g, r.choice(nodes(n, [])))
        return n


class Gen(genpy.Gen):
    def scalar(self, t):
        x = genpy.Gen.scalar(self, t)
        if t == 'timestamp' and not x['dt'] and x['prec'] is None:
            x['prec'] = 'second'
        if t == 'symbol' and self.rng.random() < .1:
            x = self.rng.choice([{'sid': 0}, {'sid': 10}, {'sid': 11}, {'imp': ['t', 1]}, {'imp': ['t', 2]}, {'imp': ['u', 1]}, self.far()])
        return x

    def far(self):
        n = self.rng.choice([12, 13, 127, 128, 300, 301, 70000])
        return self.rng.choice([{'sid': n}, {'imp': ['t', n]}, {'imp': ['tt', n]}])

    def key(self):
        return self.rng.choice(['a', 'b', 'c', 'foo'])

    def anns(self, p=.3):
        out = genpy.Gen.anns(self, p)
        if self.rng.random() < .03:
            out.append(self.rng.choice([{'sid': 0}, {'sid': 10}, {'imp': ['t', 1]}, {'imp': ['t', 2]}, self.far()]))
        return out

    def value(self, depth=0):
        n = genpy.Gen.value(self, depth)
        if n['p'] == 'ion' and n['t'] == 'symbol' and not n['null'] and not isinstance(n['x'], str):
            n['c'] = 1      # text is all that a text class can hold
        return n


def same(r, x):
    k = r.random()
    x['c'] = r.randrange(3)
    if x['p'] == 'ion' and x['t'] == 'symbol' and not x['null'] and not isinstance(x['x'], str):
        x['c'] = 1
    if k < .3 and x['p'] == 'ion' and not x['a'] and not x['null']:
        plain(x)
    elif k < .6 and x['p'] not in ('ion', 'None'):
        t = {'tuple': 'list', 'dict': 'struct'}.get(x['t'], x['t'])
        x.update(p='ion', t=t, sub=False)
        if t == 'symbol' and x['x'].get('text') is None:
            x['c'] = 1
    elif k < .7 and x['p'] in ('list', 'tuple'):
        x['p'] = x['t'] = r.choice(['list', 'tuple'])
    elif x['fs'] and x['p'] in ('ion', 'dict'):
        order = list(range(len(x['fs'])))
        r.shuffle(order)
        x['fs'], x['xs'] = [x['fs'][i] for i in order], [x['xs'][i] for i in order]
    else:
        x['a'] = [a if not isinstance(a, str) and a.get('text') is None else
                  {'text': a if isinstance(a, str) else a['text'], 'sid': r.choice([None, 10])} if r.random() < .5 else (a if isinstance(a, str) else a['text']) for a in x['a']]


def plain(x):
    t = x['t']
    if t in ('list', 'sexp'):
        x['p'] = x['t'] = 'list'
    elif t == 'struct':
        if len(set(x['fs'])) == len(x['fs']):
            x['p'] = x['t'] = 'dict'
    elif t == 'clob':
        pass
    else:
        x['p'] = genpy.PLAIN[t] if t != 'timestamp' or not x['x']['dt'] else 'datetime'
        if t == 'symbol' and isinstance(x['x'], str):
            x['x'] = {'text': x['x'], 'sid': None}


def change(g, x):
    r = g.rng
    k = r.random()
    t = x['t']
    if x['p'] == 'ion' and k < .15:
        if x['a'] and r.random() < .6:
            if r.random() < .5:
                x['a'].reverse()
            else:
                x['a'].pop()
        else:
            x['a'].insert(0, g.key())
    elif x['p'] == 'ion' and k < .22:
        x['null'] = not x['null'] if x['x'] is not None or t in ('list', 'sexp', 'struct') else True
        if x['null']:
            x['x'], x['xs'], x['fs'] = None, [], []
    elif x['xs'] and k < .5:
        i = r.randrange(len(x['xs']))
        c = r.random()
        if c < .3:
            del x['xs'][i]
            if x['fs']:
                del x['fs'][i]
        elif c < .6 and x['p'] not in ('dict',):
            # a member twice
            x['xs'].insert(i, copy.deepcopy(x['xs'][i]))
            if x['fs']:
                x['fs'].insert(i, x['fs'][i])
        elif c < .8 and x['fs']:
            f = g.key()
            if x['p'] == 'ion' or f not in x['fs']:
                x['fs'][i] = f
        else:
            i, j = r.randrange(len(x['xs'])), r.randrange(len(x['xs']))
            x['xs'][i], x['xs'][j] = x['xs'][j], x['xs'][i]
    elif x['p'] == 'ion' and not x['null'] and k < .65 and t in SWAP:
        x['t'] = SWAP[t]
        if t == 'symbol' and not isinstance(x['x'], str):
            x['t'] = t
    elif x['x'] is not None:
        y = near(r, t, x['x'])
        if y is not None:
            x['x'] = y
            if t == 'timestamp' and x['p'] != 'ion':
                x['p'] = 'datetime' if y['dt'] else 'Timestamp'


SWAP = {'list': 'sexp', 'sexp': 'list', 'symbol': 'string', 'string': 'symbol', 'clob': 'blob', 'blob': 'clob'}


def near(r, t, x):
    """Another value of the type that could be mistaken for this one."""
    if t == 'bool':
        return not x
    if t == 'int':
        return str(int(x) + r.choice([-1, 1]) if r.random() < .6 else -int(x))
    if t == 'float':
        b = bytearray(bytes.fromhex(x))
        if r.random() < .5:
            b[0] ^= 128
        else:
            b[7] ^= 1
        return bytes(b).hex()
    if t == 'decimal':
        s, (e,), ds = genval.spec_decimal(x)
        c = r.random()
        if c < .4:
            ds, e = ds + [0], e - 1
        elif c < .6:
            s = [1 - s[0]]
        elif c < .8:
            e += 1
        else:
            ds = ds[:-1] + [(ds[-1] + 1) % 10]
        return '%s%sE%+d' % ('-' if s == [1] else '', ''.join(map(str, ds)), e)
    if t == 'symbol':
        if isinstance(x, str):
            return x + r.choice(['', 'x'])
        if x.get('text') is not None:
            return dict(x, sid=r.choice([None, 3, 10])) if r.random() < .5 else dict(x, text=x['text'] + 'x')
        if isinstance(x, dict) and 'imp' in x and r.random() < .6:
            return {'imp': [x['imp'][0], x['imp'][1] + 1]}
        return r.choice([{'sid': 0}, {'sid': 10}, {'imp': ['t', 1]}, {'imp': ['u', 1]}, {'text': 'a', 'sid': None}])
    if t == 'string':
        return x + 'x' if r.random() < .5 or not x else x[:-1]
    if t in ('clob', 'blob'):
        return x + [0] if r.random() < .5 or not x else x[:-1]
    return near_stamp(r, x)


def near_stamp(r, x):
    x = copy.deepcopy(x)
    c = r.random()
    keep = {'year': 1, 'month': 2, 'day': 3, 'minute': 5}.get(x['prec'], 6) if not x['dt'] else 6
    if c < .2:
        if x['off'] is None:
            x['off'] = 0
        else:
            x['off'] = None
        if x['prec'] in ('year', 'month', 'day'):
            x['off'] = None
    elif c < .45 and x['off'] is not None and 10 < x['y'][0] < 9990:
        # the same instant at another offset, now and then off by a minute
        import datetime
        d = r.choice([1, -1, 60, -60, 75, 600, -600, 1439 - abs(x['off'])])
        if abs(x['off'] + d) < 1440:
            t = datetime.datetime(*x['y']) + datetime.timedelta(minutes=d + r.choice([0, 0, 0, 1]))
            x['off'] += d
            x['y'] = [t.year, t.month, t.day, t.hour, t.minute, t.second]
    elif c < .6 and keep == 6 and not x['dt']:
        fr = genval.fraction_digits(x)
        if r.random() < .5:
            fr = fr + [r.choice([0, 0, 5])]
        elif fr:
            fr = fr[:-1]
        x['us'] = x['fp'] = None
        x['frac'] = '0.' + ''.join(map(str, fr)) if fr else '0'
    elif c < .75:
        # declared precision, or a plain datetime
        fr = genval.fraction_digits(x)
        if x['dt']:
            x.update(dt=False, prec='second', frac='0.' + ''.join(map(str, fr)) + r.choice(['', '', '1', '0']), us=None)
        elif keep == 6 and len(fr) <= 7:
            x.update(dt=True, prec=None, us=int(''.join(map(str, (fr + [0] * 6)[:6]))), frac=None, fp=None)
    elif c < .9 and not x['dt']:
        p = ['year', 'month', 'day', 'minute', 'second']
        x['prec'] = r.choice(p)
        keep = {'year': 1, 'month': 2, 'day': 3, 'minute': 5}.get(x['prec'], 6)
        x['y'] = x['y'][:keep] + [1, 1, 1, 0, 0, 0][keep:]
        if keep < 6:
            x['us'] = x['frac'] = x['fp'] = None
        if keep < 4:
            x['off'] = None
    else:
        i = r.randrange(keep)
        if i == 2:
            x['y'][2] = 1 if x['y'][2] > 1 else 2
        elif i == 1:
            x['y'][1] = 5 if x['y'][1] == 1 and x['y'][2] <= 28 else x['y'][1]
        elif i == 0:
            x['y'][0] = x['y'][0] + 4 if x['y'][2] < 29 and x['y'][0] < 9000 else x['y'][0]
        elif i < keep:
            x['y'][i] = 1 if x['y'][i] == 0 else x['y'][i] - 1
    return x


def model_values(n=160):
    import random
    r = random.Random('equal')
    e = Equal()
    out = []
    while len(out) < n:
        g = Gen(r, ion=r.choice([.2, .6, 1]), subs=.1)
        base = g.value(r.choice([0, 1, 4, 4]))
        ns = [base]
        for _ in range(4):
            ns.append(e.vary(g, copy.deepcopy(r.choice(ns)), r.choice([0, 1, 1])))
        out += [x for x in ns if len(nodes(x, [])) < 8]
    return out[:n]


DOMAIN = model_values()
FAMILIES = [Equal()]
