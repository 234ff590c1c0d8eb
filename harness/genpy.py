"""Generation of Python values as plain data, their construction, and the projection of loaded values.

node: {'p': kind, 't': Ion type, 'x': scalar or None, 'a': tokens, 'fs': names, 'xs': nodes, 'sub': use a subclass}.
kind: None bool int float Decimal datetime Timestamp SymbolToken str bytes list tuple dict namedtuple ion other.
For 'ion', 'c' picks among the classes that can carry the type.
"""
import collections

from amazon.ion import simple_types
from amazon.ion.core import IonType
from amazon.ion.simple_types import (IonPyBool, IonPyBytes, IonPyDecimal, IonPyDict, IonPyFloat, IonPyInt, IonPyList, IonPyNull, IonPySymbol,
                                     IonPyText, IonPyTimestamp)
from amazon.ion.symbols import SymbolToken

import genval
import proj
from genval import choice

PLAIN = {'bool': 'bool', 'int': 'int', 'float': 'float', 'decimal': 'Decimal', 'timestamp': 'Timestamp', 'symbol': 'SymbolToken', 'string': 'str', 'blob': 'bytes'}
SUB = {}


def subclass(cls):
    if cls not in SUB:
        odd = lambda self: 'odd'      # what a value prints as is not what it is
        SUB[cls] = type('My' + cls.__name__, (cls,), {'__str__': odd, '__repr__': odd})
    return SUB[cls]


class Gen(object):
    def __init__(self, rng, ion=.6, other=0, sexp=True, odd=.3, subs=.1):
        self.rng = rng
        self.ion = ion
        self.other = other
        self.odd = odd
        self.subs = subs

    def key(self):
        k = self.rng.random()
        if k < .6:
            return choice(self.rng, ['a', 'b', 'c', 'foo', 'name', 'x y', ''])
        return genval.text(self.rng, self.odd)

    def anns(self, p=.3):
        out = []
        if self.rng.random() < .01:
            p = .9
        while self.rng.random() < p:
            t = genval.text(self.rng, self.odd)
            out.append(t if self.rng.random() < .7 else {'text': t, 'sid': None})
        return out

    def node(self, p, t, x=None, a=(), fs=(), xs=()):
        return {'p': p, 't': t, 'x': x, 'a': list(a), 'fs': list(fs), 'xs': list(xs), 'sub': p not in ('None', 'bool', 'ion', 'other', 'namedtuple') and self.rng.random() < self.subs,
                'c': self.rng.randrange(3), 'null': False}

    def value(self, depth=0):
        r = self.rng
        if self.other and r.random() < self.other:
            return self.node('other', '')
        ion = r.random() < self.ion
        k = r.random()
        if depth < 4 and k < (.65 if depth == 0 else .4):
            n = r.choice([0, 0, 1, 1, 2, 3, 4]) if r.random() < .98 else r.randrange(5, 16)
            t = choice(r, ['list', 'sexp', 'struct', 'struct', 'struct']) if ion else choice(r, ['list', 'tuple', 'dict', 'dict'])
            if t in ('struct', 'dict'):
                fs = []
                for _ in range(n):
                    f = self.key()
                    if t == 'dict' and f in fs:
                        continue
                    fs.append(f)
                    while t == 'struct' and r.random() < .2:
                        fs.append(choice(r, fs))
                xs = [self.value(depth + 1) for _ in fs]
            else:
                fs = []
                xs = [self.value(depth + 1) for _ in range(n)]
            if ion:
                return self.node('ion', t, a=self.anns(), fs=fs, xs=xs)
            return self.node(t, t, fs=fs, xs=xs)
        if ion:
            if r.random() < .15:
                n = self.node('ion', choice(r, genval.TYPES), a=self.anns())
                n['null'] = True
                return n
            t = choice(r, genval.SCALARS)
            return self.node('ion', t, self.scalar(t), a=self.anns())
        if r.random() < .1:
            return self.node('None', 'null')
        t = choice(r, sorted(PLAIN))
        x = self.scalar(t)
        p = PLAIN[t]
        if t == 'timestamp' and x['dt']:
            p = 'datetime'
        if t == 'symbol' and isinstance(x, str):
            x = {'text': x, 'sid': None}
        return self.node(p, t, x)

    def scalar(self, t):
        if t == 'timestamp':
            return genval.stamp(self.rng, loose=0)
        if t == 'symbol':
            return genval.text(self.rng, self.odd)
        return genval.scalar(self.rng, t)


def system_like(n):
    """Would a reader take this top-level value for a system value?"""
    t = n['t'] if n['p'] == 'ion' else {'dict': 'struct', 'SymbolToken': 'symbol'}.get(n['p'])
    text = lambda x: x if isinstance(x, str) else x.get('text')
    if t == 'struct' and not n['null'] and n['a'] and text(n['a'][0]) == '$ion_symbol_table':
        return True
    if t == 'symbol' and not n['null'] and not n['a'] and n['x'] is not None and (text(n['x']) or '').startswith('$ion_'):
        return True
    return False


def tokens(xs):
    return tuple(genval.build_token(x) for x in xs)


OTHERS = [set, object, lambda: 1j, lambda: (i for i in ()), lambda: int, lambda: bytearray(b'a'), lambda: frozenset(), lambda: range(3), lambda: NotImplemented]
WRONG_KEYS = [5, 1.5, b'k', (1,)]


def build(n):
    p, t = n['p'], n['t']
    if p == 'other':
        return OTHERS[n['c'] % len(OTHERS)]()
    xs = [build(x) for x in n['xs']]
    if p == 'None':
        return None
    if p == 'ion':
        it = genval.ION[t]
        a = tokens(n['a'])
        if n['c'] == 1:
            a = list(a)
        if n['null'] or t == 'null':
            return IonPyNull.from_value(it, None, a) if n['c'] != 2 else IonPyList.from_value(it, None, a)
        if t in ('list', 'sexp'):
            v = IonPyList.from_value(it, xs if n['c'] else (), a)
            if not n['c']:
                v.extend(xs)
            return v
        if t == 'struct':
            v = IonPyDict.from_value(it, {}, a)
            for f, x in zip(n['fs'], xs):
                v.add_item(f, x)
            return v
        v = genval.build(t, n['x'])
        if t == 'symbol':
            return (IonPySymbol if n['c'] else IonPyText).from_value(it, v if isinstance(v, str) or n['c'] else v.text, a)
        cls = {'bool': IonPyBool, 'int': IonPyInt, 'float': IonPyFloat, 'decimal': IonPyDecimal, 'timestamp': IonPyTimestamp, 'string': IonPyText,
               'clob': IonPyBytes, 'blob': IonPyBytes}[t]
        return cls.from_value(it, v, a)
    if p == 'list':
        return subclass(list)(xs) if n['sub'] else xs
    if p == 'tuple':
        return subclass(tuple)(xs) if n['sub'] else tuple(xs)
    if p == 'namedtuple':
        return collections.namedtuple('NT', n['fs'])(*xs)
    if p == 'dict':
        d = (subclass(dict) if n['sub'] else collections.OrderedDict if n['c'] == 1 else dict)()
        for f, x in zip(n['fs'], xs):
            d[WRONG_KEYS[n['c'] % len(WRONG_KEYS)] if f is None else f] = x
        return d
    v = genval.build(t, n['x'])
    if n['sub']:
        cls = type(v)
        if cls is SymbolToken:
            return subclass(cls)(v.text, v.sid, v.location)
        if t == 'timestamp':
            if p == 'datetime':
                return subclass(cls)(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.tzinfo)
            return v
        return subclass(cls)(v)
    return v


def spec(n):
    t = n['t'] if n['p'] == 'ion' else n['t']
    null = n['null'] or t == 'null'
    v = genval.spec(t, n['x']) if t in genval.SCALARS and not null else []
    return {'p': n['p'], 't': t, 'n': null, 'v': v, 'a': [genval.spec_token(x) for x in n['a']],
            'fs': [genval.spec_token(f) for f in n['fs']], 'xs': [spec(x) for x in n['xs']]}


def loaded(v):
    """A value that load returned."""
    name = type(v).__name__
    it = v.ion_type
    t = proj.TYPE_NAMES[int(it)]
    a = [proj.tok(x) for x in v.ion_annotations]
    out = {'p': name, 't': t, 'n': isinstance(v, IonPyNull), 'v': [], 'a': a, 'fs': [], 'xs': []}
    if out['n']:
        return out
    if t in ('list', 'sexp'):
        if not isinstance(v, list):
            raise proj.Malformed('%r' % (v,))
        out['xs'] = [loaded(x) for x in v]
    elif t == 'struct':
        for f, x in v.items() if not hasattr(v, 'iteritems') else v.iteritems():
            out['fs'].append(proj.tok(f))
            out['xs'].append(loaded(x))
    else:
        out['v'] = proj.value(t, v)
    return out


def model_values(n=60):
    """Values of every kind for the models of dump."""
    import random
    r = random.Random('dump')
    g = Gen(r, ion=.5, other=.02, subs=.1)
    out = [g.node('None', 'null')]
    for t in genval.TYPES:
        x = g.node('ion', t, a=g.anns())
        x['null'] = True
        out.append(x)
    for t in sorted(PLAIN):
        x = g.scalar(t)
        p = PLAIN[t]
        if t == 'timestamp' and x['dt']:
            p = 'datetime'
        if t == 'symbol' and isinstance(x, str):
            x = {'text': x, 'sid': None}
        out.append(g.node(p, t, x))
    out += [g.node('list', 'list'), g.node('tuple', 'tuple'), g.node('dict', 'dict'), g.node('ion', 'list'), g.node('ion', 'sexp'), g.node('ion', 'struct'),
            g.node('tuple', 'tuple', xs=[g.node('tuple', 'tuple', xs=[g.node('int', 'int', '1')]), g.node('ion', 'sexp', a=['a'])])]
    while len(out) < n:
        v = g.value()
        tops = [v] + v['xs']
        if not any(system_like(x) for x in tops) and count(v) < 25:
            out.append(v)
    return out


def count(n):
    return 1 + sum(count(x) for x in n['xs'])


MODEL_VALUES = model_values(120)
