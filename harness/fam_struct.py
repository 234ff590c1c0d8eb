"""Histories of multimaps.

A recipe: {'cls': 'Multimap' or 'IonPyDict', 'ops': [{'op', 'o': object number, 'n': name, 'x': value, ...}]}.
Names are numbers into NAMES; values are numbers.
"""
import copy
import json
import pickle

from amazon.ion import core, simple_types

import fam_base
import guard
from fam_base import budget

NAMES = ['a', 'b', '', 'c', None, u'\xe9']
MAKES = ('copy', 'deepcopy', 'pickle', 'from')


FALSY = (None, False, u'', (), 0.0)  # what the first numbers stand for; the others stand for themselves


def value(x):
    return FALSY[x] if 0 <= x < len(FALSY) else x


def number(v):
    for i, w in enumerate(FALSY):
        if v is w or type(v) is type(w) and v == w:
            return i
    return v


def pairs(m):
    return [[NAMES.index(k), number(v)] for k, v in m.iteritems()]


class Structs(fam_base.Family):
    name = 'struct'
    module = 'TraceStructs'

    def run(self, recipe):
        cls = getattr(simple_types, 'IonPyDict') if recipe['cls'] == 'IonPyDict' else core.Multimap
        ms, ops = [], []
        for q in recipe['ops']:
            if q['op'] != 'new' and not 0 < q['o'] <= len(ms):
                continue
            out, exc = guard.call(lambda: self.do(cls, q, ms))
            if isinstance(exc, guard.Hang):
                r = {'k': 'hang', 'v': []}
            elif isinstance(exc, KeyError):
                r = {'k': 'key', 'v': []}
            elif exc is not None:
                r = {'k': 'err', 'v': []}
            else:
                r = {'k': 'ok', 'v': out}
            ops.append({'q': q, 'r': r})
            if exc is not None and (q['op'] in MAKES or q['op'] == 'new'):
                break
        after = []
        for m in ms:
            ps, exc = guard.call(lambda: pairs(m))
            after.append([] if exc is not None else ps)
        return {'ops': ops, 'after': after}

    def do(self, cls, q, ms):
        op = q['op']
        if op == 'new':
            if not q['ps'] and q['x']:
                ms.append(cls())
            else:
                ms.append(cls(dict((NAMES[n], value(x)) for n, x in q['ps'])))
            return []
        m = ms[q['o'] - 1]
        if op in MAKES:
            new = {'copy': lambda: copy.copy(m), 'deepcopy': lambda: copy.deepcopy(m), 'pickle': lambda: pickle.loads(pickle.dumps(m, q['x'] % 5)),
                   'from': lambda: cls(m)}[op]()
            if type(new) is not type(m):
                raise TypeError(type(new))
            ms.append(new)
            return []
        n, x = NAMES[q['n']], value(q['x'])
        if op == 'add':
            m.add_item(n, x)
        elif op == 'set':
            m[n] = x
        elif op == 'del':
            del m[n]
        elif op == 'clear':
            m.clear()
        elif op == 'pop':
            return [number(m.pop(n))]
        elif op == 'popd':
            return [number(m.pop(n, x))]
        elif op == 'setdefault':
            return [number(m.setdefault(n, x))]
        elif op == 'get':
            return [number(m[n])]
        elif op == 'getd':
            return [number(m.get(n, x))]
        elif op == "has":
            return [n in m]
        elif op == 'all':
            return [number(v) for v in m.get_all_values(n)]
        elif op == 'len':
            return [len(m)]
        elif op == 'true':
            return [bool(m)]
        elif op == 'names':
            return [NAMES.index(k) for k in (iter(m) if q['x'] % 2 else m.keys())]
        elif op == 'items':
            return [[NAMES.index(k), number(v)] for k, v in m.items()]
        elif op == 'iteritems':
            return pairs(m)
        elif op == 'list':
            return self.edit(copy.deepcopy(m).get_all_values(n), q['es'])
        else:
            raise AssertionError(op)
        return []

    def edit(self, s, es):
        out = []
        for e in es:
            at, x = e['at'], value(e['x'])
            v = []
            try:
                if e['how'] == 'append':
                    s.append(x)
                elif e['how'] == 'insert':
                    s.insert(at, x)
                elif e['how'] == 'set':
                    s[at] = x
                elif e['how'] == 'del':
                    del s[at]
                else:
                    v = [number(s[at])]
                k = 'ok'
            except IndexError:
                k = 'err'
            out.append({'k': k, 'v': v})
        if len(list(s)) != len(s):
            raise ValueError('length')
        return [[number(v) for v in s], out]

    def features(self, recipe, case):
        return {'%s %s' % (o['q']['op'], o['r']['k']) for o in case['ops']}

    def script(self, prop, model, rec):
        ops = list(rec)
        count = sum(q['op'] in MAKES or q['op'] == 'new' for q in rec)
        for o in range(1, count + 1):
            for op in ('len', 'true', 'names', 'items', 'get', 'getd', 'has', 'all'):
                for n in (0, 1) if op in ('get', 'getd', 'has', 'all') else (0,):
                    ops.append({'op': op, 'o': o, 'n': n, 'x': 77 + n, 'ps': [], 'es': []})
        yield {'cls': 'Multimap' if len(json.dumps(rec)) % 2 else 'IonPyDict', 'ops': ops}

    def recipes(self, prop, rng, share, shares, tier):
        r = rng
        for _ in range(budget(tier, 16000, shares)):
            count = 0
            ops = []
            n = 10
            plain = r.random() < .4
            names = r.choice([[0, 1], [0, 1, 2], range(len(NAMES))])
            for k in range(r.choice([3, 8, 20, 40])):
                n += 1
                x = n if plain or r.random() < .5 else r.choice([0, 0, 1, 2, 3, 4, 5, 6])
                op = r.choice(['add'] * 8 + ['set', 'set', 'del', 'pop', 'popd', 'setdefault', 'get', 'get', 'getd', 'has', 'all', 'all', 'len', 'len', 'true', 'names', 'items',
                                             'iteritems', 'list', 'copy', 'deepcopy', 'pickle', 'from'] + ['clear'] * (r.random() < .2))
                if not count or r.random() < .03:
                    op = 'new'
                q = {'op': op, 'o': r.randrange(1, count + 1) if count else 0, 'n': r.choice(names), 'x': x, 'ps': [], 'es': []}
                if op == 'new':
                    q['ps'] = [[r.choice(names), max(x, 5) + i] for i in range(r.choice([0, 1, 3]))]
                if op == 'list':
                    q['es'] = [{'how': r.choice(['append', 'insert', 'set', 'del', 'get']), 'at': r.randrange(4), 'x': r.choice([100 + i, 0, 1])} for i in range(r.randrange(5))]
                if op in MAKES or op == 'new':
                    count += 1
                ops.append(q)
            yield {'cls': r.choice(['Multimap', 'IonPyDict']), 'ops': ops}


FAMILIES = [Structs()]
