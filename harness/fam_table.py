"""Histories of symbol tables and a catalog.

A recipe: {'ops': [{'op', 'o': table number or 0, 'ty', 'n': name, 'v': version, 'imports': table numbers, 'xs': symbols, 'x', 'max'}]}.
Names and texts are lists: [] is None, [code points] a text, longer: something that is no text.
"""
import fam_base
import guard
import proj
from fam_base import budget

from amazon.ion import symbols
from amazon.ion.exceptions import CannotSubstituteTable

MAKES = ('new', 'placeholder', 'substitute', 'resolve')


def text(x, odd):
    return None if not x else u''.join(map(chr, x[0])) if len(x) == 1 else odd


def entry(t):
    loc = t.location
    if t.text is not None and not isinstance(t.text, str):
        raise AssertionError('text %r' % (t.text,))
    return {'x': [] if t.text is None else [proj.cps(t.text)], 'l': [] if loc is None else [proj.cps(loc.name), [loc.position]]}


def kind(t):
    return 'system' if t.table_type.is_system else 'shared' if t.table_type.is_shared else 'local'


def shot(t):
    toks = list(t)
    if len(toks) != len(t):
        raise AssertionError('length')
    return {'ty': kind(t), 'n': [] if t.name is None else proj.cps(t.name), 'v': t.version or 0, 'sub': bool(t.is_substitute),
            'ss': [x.sid for x in toks], 'max': t.max_id, 'tab': [entry(x) for x in toks]}


class Tables(fam_base.Family):
    name = 'table'
    module = 'TraceTables'

    def run(self, recipe):
        ts = [symbols.SYSTEM_SYMBOL_TABLE]
        made = [0]
        cat = symbols.SymbolTableCatalog()
        ops = []
        for q in recipe['ops']:
            if q['o'] > len(ts) or any(i > len(ts) for i in q['imports']):
                continue
            out, exc = guard.call(lambda: self.do(q, ts, cat))
            r = {'k': 'ok', 'e': [], 't': 0}
            if exc is not None:
                r['k'] = 'hang' if isinstance(exc, guard.Hang) else 'err'
            elif q['op'] in MAKES:
                same = [i + 1 for i, t in enumerate(ts) if t is out]
                if same and q['op'] == 'resolve':
                    r['t'] = same[0]
                else:
                    ts.append(out)
                    made.append(len(ops) + 1)
                    r['t'] = len(ts)
            elif q['op'] == 'eq':
                r['k'] = {(True, False): 'yes', (False, True): 'no'}.get(out, 'bad')
            elif isinstance(out, symbols.SymbolToken):
                try:
                    r['e'] = [[out.sid, entry(out)]]
                except Exception:
                    r['k'] = 'bad'
            elif out is not None:
                r['k'] = 'bad'
            ops.append({'q': q, 'r': r})
        after = []
        for t in ts:
            s, exc = guard.call(lambda: shot(t))
            after.append(s if exc is None else {'ty': 'bad', 'n': [], 'v': 0, 'sub': False, 'ss': [], 'max': 0, 'tab': []})
        return {'ops': ops, 'after': after, 'made': made}

    def do(self, q, ts, cat):
        op = q['op']
        t = ts[q['o'] - 1] if q['o'] else symbols.SYSTEM_SYMBOL_TABLE
        n = text(q['n'], b'name')
        v = q['v'][0] if len(q['v']) == 1 else None if not q['v'] else '1'
        mx = q['max'][0] if q['max'] else None
        if op == 'new':
            xs = [text(x, [b'x', 3, ('a',)][k % 3]) for k, x in enumerate(q['xs'])]
            imports = [ts[i - 1] for i in q['imports']]
            imports = imports if imports or q['hasimports'] else None
            if q['iter']:
                xs = iter(xs)
                imports = imports and iter(imports)
            if q['ty'] == 'local' and n is None and v is None:
                return symbols.local_symbol_table(imports, xs)
            if q['ty'] == 'shared':
                return symbols.shared_symbol_table(n, v, xs, imports)
            return symbols.SymbolTable({'local': symbols.LOCAL_TABLE_TYPE, 'system': symbols.SYSTEM_TABLE_TYPE}[q['ty']], xs, n, v, imports)
        if op == 'placeholder':
            return symbols.placeholder_symbol_table(n, v, mx)
        if op == 'substitute':
            return symbols.substitute_symbol_table(t, v, mx)
        if op == 'intern':
            return t.intern(text(q['x'], b'x'))
        if op == 'text':
            return t.get(text(q['x'], None))
        if op == 'sid':
            return t.get(mx)
        if op == 'textitem':
            return t[text(q['x'], None)]
        if op == 'siditem':
            return t[mx]
        if op == 'badkey':
            return t.get([b'x', 1.5, None, ('a',)][mx])
        if op == 'eq':
            return t == ts[q['imports'][0] - 1], t != ts[q['imports'][0] - 1]
        if op == 'register':
            return cat.register(t)
        if op == 'resolve':
            return cat.resolve(n, v, mx)
        raise AssertionError(op)

    def counts(self, prop, recipe, record):
        ops = self.run(recipe)['ops']
        k = record['op']
        c11 = 0 < k <= len(ops) and ops[k - 1]['q']['op'] in ('register', 'resolve')
        return c11 == (prop == 'C11')

    def features(self, recipe, case):
        return {'%s %s' % (o['q']['op'], o['r']['k']) for o in case['ops']}

    def script(self, prop, model, rec):
        yield {'ops': rec}

    def recipes(self, prop, rng, share, shares, tier):
        r = rng
        texts = ['a', 'b', 'c', '', u'\u00e9', 'name', '$ion', '$10'] + ['s%d' % i for i in range(6)] + ['k' * 40]
        many = ['m%d' % i for i in range(40)]
        pick = lambda: [] if r.random() < .1 else [proj.cps(r.choice(texts))]
        odd = [[0], [0]]
        for _ in range(budget(tier, 10000, shares)):
            ops = []
            count = 1
            for k in range(r.choice([3, 6, 12, 25]) if r.random() < .97 else 60):
                if prop == 'C11':
                    op = r.choice(['new', 'new', 'register', 'register', 'resolve', 'resolve', 'resolve', 'resolve'] + ['placeholder', 'substitute', 'intern', 'text'][k % 4:][:1])
                else:
                    op = r.choice(['new'] * 4 + ['intern'] * 6 + ['placeholder', 'substitute', 'text', 'text', 'sid', 'sid', 'textitem', 'siditem', 'badkey', 'eq', 'register', 'resolve'])
                o = r.randrange(1, count + 1) if r.random() < .5 else count
                q = {'op': op, 'o': 0 if op == 'new' else o, 'ty': '', 'n': [], 'v': [], 'imports': [], 'hasimports': False, 'iter': False, 'xs': [], 'x': pick() or [proj.cps('a')], 'max': []}
                name = lambda p=.95: [proj.cps(r.choice(['T', 'U', '']))] if r.random() < p else r.choice([[], odd])
                ver = lambda p=.95: [r.choice([1, 2, 3, 5, 9, 10, 11, 100])] if r.random() < p else r.choice([[], [0], [-1]])
                if op == 'new':
                    ty = q['ty'] = r.choice(['local'] * (5 if prop == 'C10' else 1) + ['shared'] * 4 + ['system'] * (r.random() < .1))
                    if ty != 'local' or r.random() < .03:
                        q['n'], q['v'] = name(), ver()
                    if ty == 'system':
                        q['n'] = r.choice([[proj.cps('$ion')], name()])
                    if r.random() < .5:
                        q['imports'] = [r.randrange(1, count + 1) for _ in range(r.choice([1, 1, 2, 3]))]
                    q['hasimports'] = bool(q['imports']) or r.random() < .3
                    q['iter'] = r.random() < .4
                    q['xs'] = [pick() for _ in range(r.choice([0, 1, 2, 3, 5]))]
                    if r.random() < .03:
                        q['xs'] += [[proj.cps(x)] for x in many[:r.randrange(10, 40)]]
                    if r.random() < .03 and ty != 'system':
                        q['xs'].insert(r.randrange(len(q['xs']) + 1), odd)
                elif op == 'placeholder':
                    q['n'], q['v'], q['max'] = [proj.cps('T')], ver() or [1], [r.choice([0, 1, 3, 15, -1 if r.random() < .2 else 2])]
                elif op == 'substitute':
                    q['v'], q['max'] = ver() or [1], [r.choice([0, 1, 3, 12, -1 if r.random() < .2 else 2])]
                elif op == 'intern':
                    q['x'] = pick() or (odd if r.random() < .3 else [proj.cps('b')])
                elif op in ('sid', 'siditem'):
                    q['max'] = [r.choice([0, 1, 9, 10, 11, 12, 14, r.randrange(-2, 30), r.randrange(30, 80)])]
                elif op == 'badkey':
                    q['max'] = [r.randrange(4)]
                elif op == 'eq':
                    q['imports'] = [r.randrange(1, count + 1)]
                elif op == 'resolve':
                    q['n'], q['v'] = name(), ver()
                    if r.random() < .02:
                        q['v'] = [1, 1]
                    q['max'] = [] if r.random() < .25 else [r.choice([0, 1, 2, 3, 5, 8, 20, r.randrange(9, 50), -1 if r.random() < .2 else 4])]
                if op in MAKES:
                    count += 1
                ops.append(q)
            yield {'ops': ops}


FAMILIES = [Tables()]
