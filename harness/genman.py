"""Generation of streams that mix version markers, local symbol tables and user values."""
import genbin
import tree
from tree import node

SYSTEM = ['$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id', '$ion_shared_symbol_table']
TEXTS = ['a', 'b', 'c', 'foo', 'abc', '', ' ', 'name', '$10', '\u00e9', 'x', 'y', 'symbols']


def choice(rng, seq):
    return seq[rng.randrange(len(seq))]


def cps(s):
    return [ord(c) for c in s]


def catalog(rng):
    out = []
    for _ in range(rng.randrange(0, 5)):
        out.append({'n': cps(choice(rng, ['T', 'U', 'fred'])), 'v': version(rng),
                    's': [[] if rng.random() < .15 else [cps(choice(rng, TEXTS + ['t%d' % k for k in range(6)]))]
                          for _ in range(rng.randrange(0, 6) if rng.random() < .93 else rng.randrange(7, 40))]})
    return out


def version(rng):
    return rng.randrange(1, 5) if rng.random() < .85 else choice(rng, [9, 10, 11, 20, 100])


class ManGen(object):
    """text: tokens may be given by text; otherwise only symbol IDs are used."""
    def __init__(self, rng, text, cat, odd=.15, high=.04):
        self.rng = rng
        self.text = text
        self.cat = cat
        self.odd = odd
        self.high = high
        self.size = 9          # estimate of the table in force

    def tok(self, text=None):
        r = self.rng
        if text is not None:
            if text in SYSTEM and (not self.text or r.random() < .3):
                return SYSTEM.index(text) + 1
            return text if self.text else 10
        if self.text and r.random() < .4:
            return choice(r, TEXTS)
        if r.random() < self.high:
            return self.size + r.randrange(1, 4)
        if r.random() < .05:
            return 0
        return r.randrange(1, self.size + 1) if r.random() < .3 else max(1, self.size - r.randrange(0, max(1, self.size - 8)))

    def scalar(self):
        r = self.rng
        k = r.random()
        if k < .55:
            return node('symbol', self.tok())
        if k < .7:
            return node('int', r.randrange(-5, 300))
        if k < .8:
            return node('string', choice(r, TEXTS))
        if k < .9:
            return node(choice(r, ['null', 'symbol', 'struct', 'list', 'string']), None)
        return node('bool', r.random() < .5)

    def anns(self, p=.2):
        out = []
        if self.rng.random() < .01:
            p = .95
        while self.rng.random() < p:
            out.append(self.tok())
        return out

    def value(self, depth=0):
        r = self.rng
        if depth < 3 and r.random() < .35:
            t = choice(r, ['list', 'sexp', 'struct', 'struct'])
            n = r.randrange(0, 4) if r.random() < .98 else r.randrange(5, 30)
            if t == 'struct':
                return node(t, [(self.tok(), self.value(depth + 1)) for _ in range(n)], self.anns())
            return node(t, [self.value(depth + 1) for _ in range(n)], self.anns())
        s = self.scalar()
        s['a'] = self.anns()
        return s

    def junk(self, depth=0):
        """A value of any kind, made of what tables are made of."""
        r = self.rng
        k = r.random()
        if depth < 3 and k < .6:
            t = choice(r, ['list', 'sexp', 'struct'])
            n = choice(r, [None, 0, 0, 1, 1, 2, 3])
            a = [self.tok(choice(r, SYSTEM)) for _ in range(choice(r, [0, 0, 0, 1]))]
            if n is None:
                return node(t, None, a)
            if t == 'struct':
                return node(t, [(self.tok(choice(r, ['name', 'version', 'max_id', 'symbols', 'imports'])), self.junk(depth + 1)) for _ in range(n)], a)
            return node(t, [self.junk(depth + 1) for _ in range(n)], a)
        return choice(r, [node('string', choice(r, ['T', 'U', 'q', ''])), node('int', r.randrange(-1, 4)), node('symbol', self.tok(choice(r, SYSTEM))),
                          node('bool', True), node('string', None), node('int', None), node('null', None), node('symbol', None)])

    def sst(self):
        return self.tok('$ion_symbol_table')

    def symbols(self):
        r = self.rng
        if r.random() < self.odd:
            return choice(r, [node('list', None), node('string', 'a'), node('sexp', [node('string', 'a')]), node('null', None),
                              node('symbol', self.sst()), node('struct', [(self.tok('name'), node('string', 'q'))])])
        out = []
        for _ in range(r.randrange(0, 5) if r.random() < .95 else r.randrange(5, 40)):
            if r.random() < self.odd / 3:
                out.append(self.junk(1))
            elif r.random() < self.odd:
                out.append(choice(r, [node('string', None), node('int', 3), node('symbol', self.tok('name')), node('null', None),
                                      node('list', [node('string', 'z')]), node('list', []), node('struct', [(self.tok('name'), node('string', 'a'))]),
                                      node('sexp', [node('list', [node('string', 'a')])]), node('string', 'ann', [self.tok('version')])]))
            else:
                out.append(node('string', choice(r, TEXTS) + choice(r, ['', '', '1', '2'])))
        self.grow = len(out)
        return node('list', out, [self.tok('name')] if r.random() < .05 else [])

    def import_(self):
        r = self.rng
        if r.random() < self.odd / 2:
            return choice(r, [node('string', 'T'), node('null', None), node('struct', None), node('list', [node('struct', [])]),
                              node('sexp', [node('struct', [(self.tok('name'), node('string', 'T')), (self.tok('max_id'), node('int', 1))])])])
        known = [''.join(map(chr, t['n'])) for t in self.cat]
        name = choice(r, known) if known and r.random() < .8 else choice(r, ['T', 'U', 'nobody'])
        ver = version(r)
        exact = [t for t in self.cat if ''.join(map(chr, t['n'])) == name]
        if exact and r.random() < .6:
            ver = choice(r, exact)['v']
        size = [len(t['s']) for t in exact if t['v'] == ver]
        if size and r.random() < .5:
            mx = size[-1]
        else:
            mx = r.randrange(0, 7) if r.random() < .93 else r.randrange(7, 45)
        f = []
        if r.random() > .03:
            f.append((self.tok('name'), node('string', name)))
        if r.random() > .1:
            f.append((self.tok('version'), node('int', ver)))
        if r.random() > (.25 if size else .05):
            f.append((self.tok('max_id'), node('int', mx)))
            self.grow += mx
        elif size:
            self.grow += size[-1]
        if r.random() < self.odd:
            k = r.randrange(6)
            extra = [(self.tok('name'), node('symbol', self.tok('name'))), (self.tok('version'), node('int', choice(r, [0, -1, None]))),
                     (self.tok('max_id'), node('int', choice(r, [-1, None]))), (self.tok('version'), node('string', '2')),
                     (self.tok('symbols'), node('list', [node('string', 'z')])), (self.tok('max_id'), node('list', [node('int', 2)]))][k]
            if k in (1, 2):
                f = [x for x in f if x[0] != extra[0]]
            f.append(extra)
        if r.random() < self.odd * .8:
            # open content, at any place
            f.insert(r.randrange(len(f) + 1), (self.tok(choice(r, ['symbols', 'imports', '$ion', '$ion_symbol_table'])), self.junk()))
        if r.random() < self.odd / 3:
            f.insert(r.randrange(len(f) + 1), (self.tok(choice(r, ['name', 'version', 'max_id'])), self.junk(1)))
        if r.random() < .03:
            f = [(self.tok('name'), node('string', choice(r, ['', '$ion']))), (self.tok('max_id'), node('int', 9))]
        r.shuffle(f)
        return node('struct', f)

    def imports(self):
        r = self.rng
        k = r.random()
        if k < .35:
            self.append = True
            return node('symbol', self.sst())
        if k < .35 + self.odd / 2:
            return choice(r, [node('list', None), node('symbol', None), node('symbol', self.tok('name')), node('string', '$ion_symbol_table'),
                              node('struct', [(self.tok('name'), node('string', 'T'))]), node('sexp', [])])
        if r.random() < self.odd / 3:
            return node('list', [self.junk() if r.random() < .5 else self.import_() for _ in range(3)])
        return node('list', [self.import_() for _ in range(r.choices([0, 1, 2, 3, r.randrange(4, 9)], [10, 60, 40, 10, 3])[0])])

    def lst(self):
        r = self.rng
        self.grow = 0
        self.append = False
        f = []
        g = 0
        if r.random() < .85:
            f.append((self.tok('symbols'), self.symbols()))
        if r.random() < .55:
            f.append((self.tok('imports'), self.imports()))
        if r.random() < self.odd:
            f.append((self.tok('name'), choice(r, [node('string', 'x'), node('list', [node('string', 'z'), node('list', [])]),
                                                   node('struct', [(self.tok('symbols'), node('list', [node('string', 'z')]))])])))
        if r.random() < self.odd * .8:
            f.append((self.tok(choice(r, ['name', 'version', 'max_id', '$ion_1_0', '$ion_symbol_table'])), self.junk()))
        if r.random() < self.odd / 4:
            f.append((self.tok(choice(r, ['symbols', 'imports'])), self.junk()))
        if r.random() < self.odd / 4:
            f.append(choice(r, f) if f else (self.tok('symbols'), self.symbols()))
        r.shuffle(f)
        self.size = (self.size if self.append else 9) + self.grow
        a = [self.sst()]
        if r.random() < .1:
            a.append(self.tok())
        return node('struct', f, a)

    def lookalike(self):
        r = self.rng
        sst = self.sst()
        fields = [(self.tok('symbols'), node('list', [node('string', 'no')]))]
        return choice(r, [
            node('struct', None, [sst]), node('struct', fields, [self.tok('name'), sst]), node('list', [node('struct', fields, [sst])]),
            node('struct', [(self.tok('name'), node('struct', fields, [sst]))]), node('sexp', [node('struct', fields, [sst])]), node('struct', fields),
            node('list', [node('string', 'no')], [sst]), node('sexp', [], [sst]), node('symbol', self.tok('$ion_symbol_table')),
            node('symbol', self.tok('$ion_1_0'), [self.tok('name')]), node('list', [node('symbol', self.tok('$ion_1_0'))]),
            node('string', '$ion_1_0'), node('string', 'a', [sst]), node('symbol', self.tok('$ion_1_0')), node('struct', [(sst, node('struct', fields))]),
            node('symbol', self.tok('$ion_1_0'), [sst])])

    def doc(self, n=None):
        """Top-level items: nodes, or None for a version marker."""
        r = self.rng
        items = []
        for _ in range(n or (r.randrange(1, 8) if r.random() < .97 else r.randrange(8, 30))):
            k = r.random()
            if k < .08:
                items.append(None)
                self.size = 9
            elif k < .4:
                items.append(self.lst())
            elif k < .52:
                items.append(self.lookalike())
            else:
                items.append(self.value())
        return items


def doc(rng, codec, cat, **kw):
    """The items of a document in the codec's encoding."""
    g = ManGen(rng, codec != 'bin', cat, **kw)
    items = g.doc()
    if codec == 'bin':
        out = list(genbin.IVM)
        for it in items:
            out += list(genbin.IVM) if it is None else tree.to_bin(it)
        return out
    s = ' '.join('$ion_1_0' if it is None else tree.to_text(it) for it in items)
    if rng.random() < .5:
        s += choice(rng, [' ', '\n', ' // c', ' /* c */'])
    return cps(s) if codec == 'text' else list(s.encode('utf-8'))


# ---- items of the model of streams: tokens are symbol IDs, in text those of the system's but $2 by name

def items_of_model():
    from tree import to_bin, to_text
    s = lambda x, a=(): node('string', x, a)
    y = lambda n, a=(): node('symbol', n, a)
    ls = lambda xs, a=(): node('list', xs, a)
    st = lambda fs, a=(): node('struct', fs, a)
    table = lambda *fs, **kw: st(list(fs), [3] + list(kw.get('more', [])))
    syms = lambda *xs: (7, ls([s(x) for x in xs]))

    def imp(name, ver=None, mx=None):
        return st([(4, s(name))] + ([(5, node('int', ver))] if ver is not None else []) + ([(8, node('int', mx))] if mx is not None else []))

    out = [None, table(), table(syms('a', 'b')), table(syms('c'), (6, y(3))), table((6, y(3))), table((6, y(3)), syms('d', 'a')),
           table((6, ls([imp('T', 1, 2)]))), table((6, ls([imp('T', 1)])), syms('e')), table(syms('f'), (6, ls([imp('T', 2, 1), imp('U', 1)]))),
           table((6, ls([imp('T', 9, 3)])), syms('g')), table((6, ls([imp('nobody', 1, 2)])), syms('h')), table((6, ls([imp('nobody', 1)]))),
           table((6, ls([imp('U', None, 1), imp('$ion', 1, 9)]))), table((7, ls([s('i'), s(None), node('int', 5), s('i')]))), table((6, node('list', None))),
           table((7, s('j'))), table(syms('k'), more=[4]), table(syms('l'), syms('m')), table((4, ls([s('z'), ls([])])), syms('n')), table((7, ls([s('o'), ls([s('p')])]))),
           node('struct', None, [3]), st([syms('no')], [4, 3]), ls([st([syms('no')], [3])]), st([(4, st([syms('no')], [3]))]), ls([s('no')], [3]),
           y(2), y(2, [4]), ls([y(2)]), y(10), y(11), y(12, [10]), ls([y(11), y(10)]), st([(10, y(12))], [11]), y(0), node('symbol', None), s('s'), node('int', 7, [13])]

    def names(n):
        f = lambda t: SYSTEM[t - 1] if isinstance(t, int) and 1 <= t <= 9 and t != 2 else t
        v = n['v']
        if n['t'] == 'struct' and v is not None:
            v = [(f(k), names(x)) for k, x in v]
        elif n['t'] in ('list', 'sexp') and v is not None:
            v = [names(x) for x in v]
        elif n['t'] == 'symbol' and v is not None:
            v = f(v)
        return node(n['t'], v, [f(t) for t in n['a']])

    return [{'t': cps('$ion_1_0'), 'b': list(genbin.IVM)} if n is None else {'t': cps(to_text(names(n) if k % 2 else n)), 'b': to_bin(n)} for k, n in enumerate(out)]


MODEL_ITEMS = items_of_model()
MODEL_CATALOG = [{'n': cps('T'), 'v': 1, 's': [[cps('t1')], [cps('t2')]]}, {'n': cps('T'), 'v': 2, 's': [[cps('t1')], [], [cps('a')]]},
                 {'n': cps('U'), 'v': 1, 's': [[cps('u1')]]}, {'n': cps('T'), 'v': 5, 's': [[cps('v1')], [cps('v2')], [cps('v3')], [cps('v4')]]}]


def model_groups():
    """Streams to be read side by side: positions in MODEL_ITEMS."""
    x = {'ivm': 0, 'ab': 2, 'append': 3, 'T': 6, 'sub': 9, 'absent': 10, 'null': 13, '10': 28, '11': 29, '12': 30, 'list': 31, 'struct': 32, 'int': 36}
    groups = [[('bin', ['ab', '10', 'append', '12', '10']), ('text', ['T', '10', 'ab', '11', 'T', '11'])],
              [('bin', ['T', '10', '11', 'list']), ('bin', ['sub', '10', '11', '12'])],
              [('text', ['ab', '10', 'append', '11', 'append', '12']), ('text', ['absent', '10', 'ivm', 'T', '10', '11'])],
              [('bin', ['null', 'list', 'null']), ('bin', ['ab', 'struct', '11'])],
              [('bin', ['T', '10']), ('text', ['T', '11']), ('bin', ['ab', '10'])],
              [('bin', ['T', 'int', 'append']), ('bin', ['T', 'append', '10']), ('bin', ['T', '10'])]]
    out = []
    for g in groups:
        one = []
        for codec, names in g:
            items = [MODEL_ITEMS[x[n]] for n in names]
            one.append({'codec': codec, 'doc': list(genbin.IVM) + sum((i['b'] for i in items), []) if codec == 'bin' else sum((i['t'] + [32] for i in items), [])})
        out.append(one)
    return out


MODEL_GROUPS = model_groups()
