"""Histories of conversions of Ion values.

A recipe: {'ops': [{'op', 'o': object number, ...}]}; see run.
"""
import copy
import pickle

from amazon.ion import core, simple_types, symbols
from amazon.ion.core import IonEvent, IonEventType, IonThunkEvent, IonType
from amazon.ion.simple_types import IonPyNull

import fam_base
import genpy
import genval
import guard
import proj
from fam_base import budget

CLASSES = {'bool': 'IonPyBool', 'int': 'IonPyInt', 'float': 'IonPyFloat', 'decimal': 'IonPyDecimal', 'timestamp': 'IonPyTimestamp', 'string': 'IonPyText',
           'clob': 'IonPyBytes', 'blob': 'IonPyBytes', 'list': 'IonPyList', 'sexp': 'IonPyList', 'struct': 'IonPyDict', 'null': 'IonPyNull'}
EVENTS = ['SCALAR', 'CONTAINER_START', 'CONTAINER_END']
NONE = {'c': '', 't': '', 'n': False, 'v': [], 'a': [], 'xs': [], 'fs': []}


def token(x):
    """Everything that a symbol token holds."""
    if x is None:
        return []
    if isinstance(x, str):
        return [[1], proj.cps(x)]
    return [[3], [] if x.text is None else [proj.cps(x.text)], [] if x.sid is None else [x.sid],
            [] if x.location is None else [proj.cps(x.location.name), [x.location.position]]]


def tree(v):
    it = getattr(v, 'ion_type', None)
    t = proj.type_of(it)
    if it is not None and not isinstance(it, IonType):
        raise proj.Malformed('type %r' % (it,))
    out = {'c': type(v).__name__, 't': t, 'n': isinstance(v, IonPyNull), 'v': [], 'a': [token(x) for x in getattr(v, 'ion_annotations', ())], 'xs': [], 'fs': []}
    if v is None or out['n']:
        return out
    if isinstance(v, (list, tuple)) and not isinstance(v, symbols.SymbolToken):
        out['xs'] = [tree(x) for x in v]
    elif isinstance(v, (dict, core.Multimap)):
        ms = [(token(k), tree(x)) for k, x in (v.iteritems() if isinstance(v, core.Multimap) else v.items())]
        ms.sort(key=lambda m: m[0])
        out['fs'] = [m[0] for m in ms]
        out['xs'] = [m[1] for m in ms]
    elif isinstance(v, symbols.SymbolToken) or t == 'symbol':
        out['v'] = token(v)
    else:
        names = [t] if t else [n for n, c in (('bool', bool), ('int', int), ('float', float), ('string', str), ('blob', (bytes, bytearray)), ('decimal', genval.Decimal),
                                              ('timestamp', genval.datetime.datetime)) if isinstance(v, c)]
        out['v'] = proj.value(names[0], v)
    return out


def event(ev):
    v = ev.value
    return {'e': ev.event_type.name, 't': proj.type_of(ev.ion_type), 'v': [] if v is None else [tree(v)], 'f': token(ev.field_name),
            'a': [token(x) for x in ev.annotations], 'd': [] if ev.depth is None else [ev.depth]}


class Conversions(fam_base.Family):
    name = 'conv'
    module = 'TraceIonPy'

    def run(self, recipe):
        vs, ops = [], []
        group, loose = [], set()      # as spec/IonPy.tla has it
        for q in recipe['ops']:
            o = q.get('o', 0)
            if o > len(vs) or o in loose:
                continue
            v = vs[o - 1] if o else None
            rec = self.request(q, v)
            if rec is None:
                continue
            made = q['op'] not in ('toevent', 'push', 'inner')
            try:
                before = self.source(q)
                rec['src'] = before[1]
            except Exception:
                break
            out, exc = guard.call(lambda: self.do(q, v, before[0]))
            r = {'k': 'ok', 'v': NONE}
            if exc is not None:
                r['k'] = 'hang' if isinstance(exc, guard.Hang) else 'err'
            else:
                try:
                    if q['op'] == 'toevent':
                        r = {'k': 'event', 'v': event(out)}
                    else:
                        r['v'] = tree(out)
                except Exception:
                    r = {'k': 'bad', 'v': NONE}
            ops.append({'q': rec, 'r': r})
            if r['k'] in ('err', 'hang', 'bad'):
                if made:
                    vs.append(None)
                break
            if made:
                vs.append(out)
                group.append(group[o - 1] if q['op'] in ('copy', '_copy', 'again') else len(vs))
            elif q['op'] == 'inner':
                loose |= {k + 1 for k, h in enumerate(group) if h == group[o - 1] and k + 1 != o}
        after = []
        for v in vs:
            try:
                after.append(tree(v))
            except Exception:
                after.append(dict(NONE, c='bad'))
        return {'ops': ops, 'after': after}

    def request(self, q, v):
        """What the specification is told, or None for a request that makes no sense here."""
        op = q['op']
        rec = {'op': op, 'o': q.get('o', 0), 't': '', 'c': '', 'a': [token(genval.build_token(x)) for x in q.get('a', ())], 'src': NONE, 'e': '', 'f': [], 'd': []}
        if op in ('value', 'event'):
            rec['t'] = q['node']['t']
            rec['c'] = 'IonPySymbol' if q['sym'] else 'IonPyText'
        elif op == 'toevent':
            rec['e'] = q['e']
            rec['d'] = [q['d']] if q['d'] is not None else []
            f = genval.build_token(q['f']) if q['f'] is not None else None
            if q['in']:
                rec['f'] = [[3], [], [0], []] if f is None else token(f) if isinstance(f, symbols.SymbolToken) else [[3], [proj.cps(f)], [], []]
        elif op in ('push', 'inner'):
            if not isinstance(v, (list, core.Multimap)) or v.ion_type is None:
                return None
            if op == 'inner' and not any(isinstance(x, list) for x in members(v)):
                return None
        return rec

    def source(self, q):
        """The value to convert and what it is, before anything touches it."""
        if 'node' not in q:
            return None, NONE
        n = q['node']
        if q['op'] in ('push', 'inner'):
            v = genpy.build(n)
            return v, tree(v)
        if n['null'] or n['t'] == 'null' and n['p'] != 'None':
            return None, dict(NONE, n=True)
        if n['t'] in ('list', 'sexp', 'struct'):
            if q['op'] == 'event':
                return None, NONE
            xs = [genpy.build(x) for x in n['xs']]
            if n['t'] == 'struct':
                v = core.Multimap()
                for f, x in zip(n['fs'], xs):
                    v.add_item(f, x)
                if q['plain'] and len(set(n['fs'])) == len(n['fs']):
                    v = dict(zip(n['fs'], xs))
                return v, dict(tree(v))
            v = tuple(xs) if q['plain'] else xs
            return v, tree(v)
        v = genval.build(n['t'], n['x'])
        s = dict(NONE)
        if n['t'] == 'symbol':
            if not q['sym']:
                v = v if isinstance(v, str) else v.text
            s['v'] = [[3], [proj.cps(v)], [], []] if q['sym'] and isinstance(v, str) else token(v)
        elif n['t'] == 'timestamp':
            s['v'] = genval.spec_stamp(n['x'], written=False)
        else:
            s['v'] = genval.spec(n['t'], n['x'])
        return v, s

    def do(self, q, v, src):
        op = q['op']
        a = tuple(genval.build_token(x) for x in q.get('a', ()))
        if op in ('value', 'event'):
            n = q['node']
            it = genval.ION[n['t']]
            cls = getattr(simple_types, ('IonPySymbol' if q['sym'] else 'IonPyText') if n['t'] == 'symbol' else CLASSES[n['t']])
            if op == 'value':
                return cls.from_value(it, src, a) if a or q['plain'] else cls.from_value(it, src)
            if n['null'] or n['t'] == 'null':
                cls = IonPyNull
            f = symbols.SymbolToken(u'f', 10) if q['plain'] else None
            kind = IonEventType.CONTAINER_START if it.is_container and cls is not IonPyNull else IonEventType.SCALAR
            if q['thunk'] and src is not None:
                ev = IonThunkEvent(kind, it, lambda: src, f, a, 1)
            else:
                ev = IonEvent(kind, it, src, f, a, 1)
            return cls.from_event(ev)
        if op == 'copy':
            return copy.copy(v)
        if op == '_copy':
            return v._copy()
        if op == 'deepcopy':
            return copy.deepcopy({'x': [v, v]})['x'][1] if q['inner'] else copy.deepcopy(v)
        if op == 'pickle':
            return pickle.loads(pickle.dumps(v, q['p']))
        if op == 'again':
            return type(v).from_value(v.ion_type, v, a)
        if op == 'toevent':
            return v.to_event(getattr(IonEventType, q['e']), field_name=genval.build_token(q['f']) if q['f'] is not None else None, in_struct=q['in'], depth=q['d'])
        if op == 'push':
            if isinstance(v, list):
                v.append(src)
            else:
                v.add_item(u'z', src)
            return v
        if op == 'inner':
            first = [x for x in members(v) if isinstance(x, list)][0]
            first.append(src)
            return v
        raise AssertionError(op)

    def features(self, recipe, case):
        return {'%s %s' % (o['q']['op'], o['q']['t'] or o['r']['v'].get('t', '')) for o in case['ops']}

    def script(self, prop, model, rec):
        made, hist = rec
        yield {'ops': [MODEL_MAKES[made - 1]] + [dict(MODEL_REQUESTS[i - 1], o=o) for i, o in hist]}

    def recipes(self, prop, rng, share, shares, tier):
        r = rng
        g = Gen(rng)
        for _ in range(budget(tier, 12000, shares)):
            ops = []
            count = 0
            for _ in range(r.choice([2, 3, 5, 8])):
                if not count or r.random() < .1:
                    ops.append(g.make())
                    count += 1
                    continue
                o = r.randrange(1, count + 1) if r.random() < .4 else count
                op = r.choice(['copy', '_copy', 'deepcopy', 'pickle', 'again', 'toevent', 'toevent', 'push', 'inner'])
                q = {'op': op, 'o': o}
                if op in ('push', 'inner'):
                    q['node'] = g.value(3)
                if op == 'again':
                    q['a'] = g.anns()
                if op == 'toevent':
                    q.update({'e': r.choice(EVENTS), 'f': r.choice([None, 'f', u'\u00e9', {'text': 'g', 'sid': 10}, {'sid': 11}]), 'in': r.random() < .6, 'd': r.choice([None, 0, 3])})
                if op == 'deepcopy':
                    q['inner'] = r.random() < .3
                if op == 'pickle':
                    q['p'] = r.randrange(5)
                if op in ('copy', '_copy', 'deepcopy', 'pickle', 'again'):
                    count += 1
                ops.append(q)
            yield {'ops': ops}


def members(v):
    """In the order in which they are recorded."""
    if isinstance(v, list):
        return list(v)
    return [m[1] for m in sorted(((token(k), x) for k, x in v.iteritems()), key=lambda m: m[0])]


class Gen(genpy.Gen):
    def __init__(self, rng):
        genpy.Gen.__init__(self, rng, ion=.7, subs=0)

    def key(self):
        return self.rng.choice(['a', 'b', 'c', ''])

    def anns(self, p=.4):
        out = genpy.Gen.anns(self, p)
        if self.rng.random() < .2:
            out.append(self.rng.choice([{'sid': 0}, {'sid': 10}, {'text': 'a', 'sid': 4}, {'imp': ['t', 1]}]))
        return out

    def make(self):
        r = self.rng
        self.ion = 1
        n = self.value(0)
        self.ion = .7
        op = r.choice(['value', 'value', 'event'])
        if n['t'] == 'symbol' and not n['null'] and r.random() < .5:
            n['x'] = r.choice([{'sid': 0}, {'sid': 10}, {'imp': ['t', 1]}, {'text': 'a', 'sid': 3}, {'text': 'a', 'sid': None}])
        return {'op': op, 'node': n, 'a': self.anns(), 'sym': r.random() < .7 or not isinstance(n['x'], str), 'plain': r.random() < .5, 'thunk': r.random() < .5}


FAMILIES = [Conversions()]


def model():
    import random
    g = Gen(random.Random('conv'))
    n = lambda t, x=None, fs=(), xs=(), null=False: dict(g.node('ion', t, x, fs=fs, xs=xs), c=1, null=null)
    make = lambda op, node, a=(), **kw: dict({'op': op, 'node': node, 'a': list(a), 'sym': True, 'plain': False, 'thunk': False}, **kw)
    one = n('int', '1')
    stamp = {'y': [2000, 1, 1, 0, 0, 0], 'us': None, 'off': 0, 'prec': 'second', 'frac': '0.10', 'fp': None, 'dt': False}
    inner = n('list', xs=[n('list', xs=[one]), n('sexp')])
    makes = [make('value', one, ['a']), make('event', n('bool', False)), make('value', n('symbol', {'text': 'x', 'sid': 10}), [{'sid': 10}]),
             make('value', n('timestamp', stamp), ['b']), make('event', n('decimal', '-0E-3'), ['a'], thunk=True), make('value', n('string', '')),
             make('value', n('clob', [1]), ['c']), make('value', n('null', null=True), ['n']), make('event', n('list', null=True)),
             make('value', inner, ['l']), make('value', n('sexp', xs=[inner]), plain=True), make('value', n('struct', fs=['f', 'f', 'e'], xs=[inner, one, one]), ['s']),
             make('value', n('struct'), plain=True), make('event', n('struct')), make('value', n('float', '8000000000000000'))]
    requests = [{'op': 'copy'}, {'op': '_copy'}, {'op': 'deepcopy', 'inner': False}, {'op': 'pickle', 'p': 2}, {'op': 'again', 'a': ['z', {'text': 'y', 'sid': None}]},
                {'op': 'toevent', 'e': 'SCALAR', 'f': 'f', 'in': True, 'd': 2}, {'op': 'toevent', 'e': 'CONTAINER_START', 'f': None, 'in': False, 'd': None},
                {'op': 'push', 'node': n('int', '7')}, {'op': 'inner', 'node': n('string', 'q')}]
    return makes, requests


def spec_request(q):
    """As the specification is told, object and all left open."""
    f = FAMILIES[0]
    nest = simple_types.IonPyList.from_value(IonType.LIST, [simple_types.IonPyList.from_value(IonType.LIST, [])])
    return dict(f.request(q, nest), src=f.source(q)[1])


MODEL_MAKES, MODEL_REQUESTS = model()
