"""Generation of event sequences for the writers."""
import genman
import genval
from genval import choice


class Gen(object):
    def __init__(self, rng, binary, sids=0, odd=.3, words=None):
        self.rng = rng
        self.bin = binary
        self.sids = sids        # tokens by symbol ID alone go up to this
        self.odd = odd
        self.words = words      # few distinct texts: reuse across segments

    def token(self):
        if self.words and self.rng.random() < .75:
            return choice(self.rng, self.words)
        return genval.token(self.rng, self.sids, self.odd)

    def anns(self, p=.25):
        out = []
        if self.rng.random() < .01:
            p = .93
        while self.rng.random() < p:
            out.append(self.token())
        return out

    def value(self, out, depth=0, field=False, top=None):
        r = self.rng
        f = self.token() if field else None
        a = self.anns()
        k = r.random()
        if depth < 5 and k < .35:
            t = choice(r, ['list', 'sexp', 'struct', 'struct'])
            out.append({'e': 'start', 't': t, 'f': f, 'a': a})
            for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4]) if r.random() < .98 else r.randrange(5, 20)):
                self.value(out, depth + 1, t == 'struct')
            out.append({'e': 'end', 't': t})
        elif k < .45:
            out.append({'e': 'val', 't': choice(r, genval.TYPES), 'x': None, 'f': f, 'a': a})
        else:
            t = choice(r, genval.SCALARS + ('symbol', 'symbol') if self.words else genval.SCALARS)
            ev = {'e': 'val', 't': t, 'x': self.token() if t == 'symbol' else genval.scalar(r, t, self.sids), 'f': f, 'a': a}
            if t == 'symbol' and depth == 0 and not a and not self.bin and self.looks_like_marker(ev['x']):
                ev['x'] = 'm'
            out.append(ev)
        if r.random() < .3:
            out[-1]['atup'] = True

    @staticmethod
    def looks_like_marker(x):
        s = x if isinstance(x, str) else x.get('text')
        return s is None and x.get('sid') == 2 or s is not None and s.startswith('$ion_')

    def system_like(self, evs):
        """Would a reader take a top-level value for a version marker or a symbol table?"""
        d = 0
        for ev in evs:
            if d == 0 and ev['e'] in ('val', 'start'):
                tok = ev['a'][0] if ev.get('a') else None
                if ev['e'] == 'start' and ev['t'] == 'struct' and tok is not None:
                    s = tok if isinstance(tok, str) else tok.get('text')
                    if s == '$ion_symbol_table' or (s is None and tok.get('sid') == 3):
                        return True
                if ev['e'] == 'val' and ev['t'] == 'symbol' and not ev.get('a') and ev['x'] is not None and self.looks_like_marker(ev['x']):
                    return True
            d += {'start': 1, 'end': -1}.get(ev['e'], 0)
        return False

    def events(self, flushes, ivms, size=None):
        r = self.rng
        out = []
        if r.random() < .5:
            out.append({'e': 'ivm'})
        for _ in range(size or r.randrange(1, 6)):
            one = []
            self.value(one)
            if self.system_like(one):
                continue
            out += one
            k = r.random()
            if k < flushes:
                out.append({'e': 'eos'})
                if r.random() < .15:
                    out.append({'e': 'eos'})
                if r.random() < ivms:
                    out.append({'e': 'ivm'})
                    if r.random() < .2:
                        out.append({'e': 'ivm'})
            elif k < flushes + ivms and not self.bin:
                out.append({'e': 'ivm'})
        out.append({'e': 'eos'})
        return out


def imports(rng):
    names, out = ['T', 'U', 'V'], []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        out.append({'n': genman.cps(choice(rng, names)), 'v': genman.version(rng),
                    's': [[] if rng.random() < .12 else [genman.cps(choice(rng, genman.TEXTS + ['t%d' % k for k in range(8)] + ['name', 'symbols']))]
                          for _ in range(rng.choice([0, 1, 2, 3, 5, 140]))]})
    # one table per (name, version)
    seen = {}
    for t in out:
        seen[(tuple(t['n']), t['v'])] = t
    return [seen[(tuple(t['n']), t['v'])] for t in out]


def decoys(rng, imps):
    out = []
    for t in imps:
        for v in (t['v'] - 1, t['v'] + 1):
            if v >= 1 and rng.random() < .5 and not any(q['n'] == t['n'] and q['v'] == v for q in imps):
                out.append({'n': t['n'], 'v': v, 's': [[genman.cps('decoy%d' % k)] for k in range(len(t['s']) + rng.randrange(-1, 2) if t['s'] else 1)]})
    return out


def damage(rng, evs):
    """One thing that is not right."""
    import writers
    evs = [dict(e) for e in evs]
    k = rng.randrange(9)
    at = rng.randrange(len(evs))
    vals = [i for i, e in enumerate(evs) if e['e'] == 'val']
    starts = [i for i, e in enumerate(evs) if e['e'] == 'start']
    fields = [i for i, e in enumerate(evs) if e.get('f') is not None]
    if k == 0:
        evs.insert(at, {'e': 'end', 't': 'list'})
    elif k == 1:
        evs.insert(at, {'e': 'eos'})
    elif k == 2:
        evs.insert(at, {'e': 'ivm'})
    elif k == 3:
        evs.insert(at, {'e': 'inc'})
    elif k == 4:
        evs.insert(at, {'e': 'none'})
    elif k == 5 and fields:
        evs[choice(rng, fields)]['f'] = None
    elif k == 6 and vals:
        e = evs[choice(rng, vals)]
        e['t'] = choice(rng, sorted(writers.BAD))
        e['bad'] = rng.randrange(len(writers.BAD[e['t']]))
        e['x'] = None
    elif k == 7 and vals + starts:
        evs[choice(rng, vals + starts)]['bad'] = 'ann'
    elif k == 8 and starts:
        e = evs[choice(rng, starts)]
        e['t'] = choice(rng, ['int', 'string', 'null'])
    else:
        del evs[at]
    return evs


# ---- what the model of the writers works with

def model_events():
    v = lambda t, x, a=(), f=None: {'e': 'val', 't': t, 'x': x, 'a': list(a), 'f': f}
    s = lambda t, a=(), f=None: {'e': 'start', 't': t, 'a': list(a), 'f': f}
    return [{'e': 'eos'}, {'e': 'ivm'}, {'e': 'end', 't': 'list'}, s('list'), s('struct', ['p']), s('sexp'), s('struct', (), 'f'), s('list', ['p', 'u1'], 'u1'),
            v('int', '5'), v('symbol', 'w'), v('symbol', 'u1', ['w']), v('symbol', {'sid': 10}), v('symbol', {'sid': 11}), v('bool', True, ['p', {'sid': 12}]),
            v('string', 'x', (), 'g'), v('symbol', 'w', ['w'], 'w'), v('list', None), v('symbol', {'text': 'w', 'sid': 4}, (), {'sid': 10}),
            dict(v('int', None), bad=0), {'e': 'inc'}]


MODEL_EVENTS = model_events()
MODEL_IMPORTS = [{'n': genman.cps('T'), 'v': 1, 's': [[genman.cps('u1')], []]}, {'n': genman.cps('U'), 'v': 2, 's': [[genman.cps('p')]]}]
MODEL_CONTEXTS = [{'id': 0, 'bin': True, 'imports': [], 'badimp': False, 'cat': []}, {'id': 1, 'bin': True, 'imports': MODEL_IMPORTS, 'badimp': False, 'cat': MODEL_IMPORTS},
                  {'id': 2, 'bin': False, 'imports': [], 'badimp': False, 'cat': []}]


def model_values(n=250):
    import random
    r = random.Random('values')
    out = []
    for t in genval.TYPES:
        out.append({'e': 'val', 't': t, 'x': None, 'f': None, 'a': []})
    while len(out) < n:
        t = choice(r, genval.SCALARS)
        x = genval.text(r) if t == 'symbol' else genval.scalar(r, t)
        ev = {'e': 'val', 't': t, 'x': x, 'f': None, 'a': [] if r.random() < .7 else [genval.text(r)]}
        if t == 'symbol' and not ev['a'] and genval.marker(x):
            continue
        if t == 'decimal' and abs(genval.spec_decimal(x)[1][0]) > 60000:
            continue
        out.append(ev)
    return out


MODEL_VALUES = model_values()
