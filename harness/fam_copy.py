"""A managed reader piped into a writer."""
import fam_base
import fam_read
import genbin
import genman
import gentext
import genwrite
import guard
import readers
import writers
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer
from fam_base import budget


class Pipe(readers.Driver):
    """One request to the reader per step; what it reports goes to the writer."""
    def __init__(self, recipe):
        readers.Driver.__init__(self, recipe)
        out = recipe['out']
        self.writer = binary_writer([writers.shared(t) for t in out['imports']] or None) if out['bin'] else text_writer(indent=out['indent'])
        self.answers = []

    def step(self, limit=4000):
        s = self.s
        before = len(s.ops)
        readers.Driver.step(self, limit)
        for at in range(before, len(s.ops)):
            kept = [ev for k, ev in s.kept if k == at]
            self.answers.append(self.write(kept[0]) if kept and not s.dead and s.ops[at]['r']['e'] != 'inc' else [])

    def write(self, ev):
        out = []
        arg = ev
        while True:
            r, exc = guard.call(lambda: self.writer.send(arg))
            if exc is not None:
                out.append({'s': 'hang' if isinstance(exc, guard.Hang) else 'err', 'data': []})
                self.done = True
                return out
            out.append({'s': writers.SIG[r.type], 'data': list(bytes(r.data))})
            if out[-1]['s'] != 'pend':
                return out
            arg = None

    def case(self):
        c = self.s.case()
        for op, w in zip(c['ops'], self.answers):
            op['w'] = w
        out = self.rec['out']
        c['out'] = {'bin': out['bin'], 'imports': out['imports'], 'badimp': False, 'cat': out['imports']}
        return c


class Copy(fam_base.Family):
    name = 'copy'
    module = 'TraceCopy'

    def run(self, recipe):
        p = Pipe(recipe)
        while not p.done:
            p.step()
        return p.case()

    def counts(self, prop, recipe, record):
        return record['clause'].startswith('copy') or record['clause'] == 'an answer of another kind'

    def features(self, recipe, case):
        out = {'to ' + ('binary' if recipe['out']['bin'] else 'text'), 'from ' + recipe['codec']}
        for op in case['ops']:
            out.add('%s %s%s' % (op['r']['e'], op['r']['t'], ' null' if op['r']['e'] == 'val' and not op['r']['v'] else ''))
        return out

    def show(self, recipe, case):
        data = b''.join(bytes(bytearray(a['data'])) for op in case['ops'] for a in op.get('w', ()))
        d = bytes(bytearray(recipe['doc'])) if recipe['codec'] != 'text' else ''.join(map(chr, recipe['doc']))
        return {'codec': recipe['codec'], 'document': d.hex() if recipe['codec'] == 'bin' else d if recipe['codec'] == 'text' else d.decode('utf-8', 'replace'),
                'output': data.hex() if recipe['out']['bin'] else data.decode('utf-8', 'replace')}

    def recipe(self, codec, doc, cat, out, sizes=None, skips=()):
        return {'codec': codec, 'doc': doc, 'man': True, 'cat': cat, 'sizes': sizes, 'skips': list(skips), 'late': True, 'out': out}

    def script(self, prop, model, rec):
        k = sum(x * (5 if i else 1) for i, x in enumerate(rec))
        codec = ('bin', 'text', 'bin', 'bytes')[k % 4]
        if codec == 'bin':
            d = list(genbin.IVM) + sum((genman.MODEL_ITEMS[x - 1]['b'] for x in rec), [])
        else:
            d = sum((genman.MODEL_ITEMS[x - 1]['t'] + [32] for x in rec), [])[:-1]
        out = OUTS[k % 3]
        yield self.recipe(codec, d, genman.MODEL_CATALOG, out, [1] * len(d) if k % 5 == 0 else None)

    def recipes(self, prop, rng, share, shares, tier):
        for _ in range(budget(tier, 5600, shares)):
            x = rng.random()
            cat = genman.catalog(rng)
            if x < .3:
                codec = rng.choice(['bin', 'text', 'bytes'])
                d = genman.doc(rng, codec, cat, odd=.1, high=0)
            elif x < .65:
                codec, d = 'bin', genbin.BinGen(rng).doc()
            else:
                codec, d = fam_read.encode_text(rng, gentext.TextGen(rng, versions=True).doc())
            if not d or len(d) > 400:
                continue
            out = {'bin': rng.random() < .5, 'imports': [], 'indent': None}
            if not out['bin']:
                out['indent'] = rng.choice([None, None, '', ' ', '\t'])
            elif rng.random() < .4:
                out['imports'] = genwrite.imports(rng)
            yield self.recipe(codec, d, cat, out, fam_read.chunking(rng, len(d)) if rng.random() < .4 else None,
                              [rng.randrange(1, 10)] if rng.random() < .1 else [])


OUTS = [{'bin': True, 'imports': [], 'indent': None}, {'bin': False, 'imports': [], 'indent': None},
        {'bin': True, 'imports': [genman.MODEL_CATALOG[1]], 'indent': None}]
FAMILIES = [Copy()]
