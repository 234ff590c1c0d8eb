"""Writers."""
import fam_base
import genval
import genwrite
import writers
from fam_base import budget


class Write(fam_base.Family):
    name = 'write'
    module = 'TraceWrite'
    QUICK = {'C12': 4000, 'C13': 4000, 'C14': 4000, 'C15': 6000}

    def run(self, recipe):
        return writers.run(recipe)

    def counts(self, prop, recipe, record):
        c = record['clause']
        protocol = c in ('answer after a failure', 'protocol misuse accepted', 'invalid event accepted', 'wrong signal', 'no answer')
        if prop in ('C12', 'C14'):
            return not protocol
        return True

    def features(self, recipe, case):
        out = set()
        for op in case['ops']:
            out.add('answer ' + op['r']['s'])
            if op['o'] == 'ev':
                out.add('event %s %s' % (op['ev']['e'], op['ev']['t']))
        return out

    def show(self, recipe, case):
        data = b''.join(bytes(bytearray(op['r']['data'])) for op in case['ops'])
        return {'events': recipe['events'][:20], 'output': data.hex() if recipe['bin'] else data.decode('latin-1')}

    def script(self, prop, model, rec):
        c = genwrite.MODEL_CONTEXTS[rec['c']]
        if prop in ('C12', 'C13', 'C14') and c['bin'] == (prop == 'C14'):
            return
        pool = genwrite.MODEL_VALUES if model == 'values' else genwrite.MODEL_EVENTS
        evs = [pool[i - 1] for i in rec['h']]
        depth = sum({'start': 1, 'end': -1}.get(e['e'], 0) for e in evs)
        k = sum(rec['h'])
        yield {'bin': c['bin'], 'imports': c['imports'], 'cat': [], 'indent': ('', ' ', None, '\t')[k % 4], 'noback': prop == 'C15', 'tupimp': k % 2 == 0,
               'events': evs + [{'e': 'end', 't': 'list'}] * depth + [{'e': 'eos'}]}

    def recipes(self, prop, rng, share, shares, tier):
        for _ in range(budget(tier, self.QUICK[prop], shares)):
            binary = prop in ('C12', 'C13') or (prop == 'C15' and rng.random() < .5)
            rec = {'bin': binary}
            sids = 9
            if binary:
                if prop == 'C13' or rng.random() < .3:
                    rec['imports'] = genwrite.imports(rng)
                    rec['cat'] = genwrite.decoys(rng, rec['imports'])
                    sids += sum(len(t['s']) for t in rec['imports'])
                    rec['tupimp'] = rng.random() < .3
                    rec['emptyimp'] = rng.random() < .3
                if prop == 'C15' and rng.random() < .04:
                    rec['badimp'] = True
            else:
                rec['indent'] = rng.choice([None, None, '', ' ', '  ', '\t', '   \t'])
            words = None
            if prop == 'C13' or rng.random() < .2:
                words = ['w%d' % k for k in range(6)] + ['a', 'b', 't0', 't1', 'name', '']
                if prop == 'C13':
                    words += [''.join(map(chr, x[0])) for t in rec['imports'] for x in t['s'][:6] if x]
            g = genwrite.Gen(rng, binary, sids, words=words)
            rec['events'] = g.events(flushes=.35 if prop == 'C13' else .15, ivms=.4 if prop in ('C13', 'C15') else .1)
            if prop == 'C15':
                if rng.random() < .75:
                    rec['events'] = genwrite.damage(rng, rec['events'])
                elif rng.random() < .3:
                    rec['deny'] = rng.randrange(len(rec['events']))
                rec['noback'] = True
            yield rec
        if prop in ('C12', 'C14') and share < 4:
            for evs in self.big(rng, share):
                yield {'bin': prop == 'C12', 'events': evs, 'indent': None, 'noback': False}

    def big(self, rng, share):
        """Lengths around the sizes of length fields, and depth."""
        if share == 0:
            for n in (13, 14, 127, 128, 129):
                yield [{'e': 'val', 't': 'string', 'x': 'x' * n, 'a': []}, {'e': 'val', 't': 'blob', 'x': [7] * n, 'a': ['a']}, {'e': 'eos'}]
                yield [{'e': 'start', 't': 'list', 'a': ['a']}] + [{'e': 'val', 't': 'bool', 'x': True, 'a': []}] * n + [{'e': 'end'}, {'e': 'eos'}]
                yield [{'e': 'start', 't': 'struct', 'a': []}] + [{'e': 'val', 't': 'bool', 'x': True, 'a': [], 'f': 'f%d' % k} for k in range(n)] + [{'e': 'end'}, {'e': 'eos'}]
        elif share == 1:
            for n in (13, 14, 63, 64, 127, 128, 130, 200):
                many = ['a%d' % k for k in range(n)]
                yield [{'e': 'val', 't': 'int', 'x': '7', 'a': many}, {'e': 'start', 't': 'list', 'a': many[:n - 10]}, {'e': 'val', 't': 'string', 'x': 'x', 'a': many[::-1]},
                       {'e': 'end'}, {'e': 'val', 't': 'bool', 'x': True, 'a': []}, {'e': 'eos'}]
            for d in (20, 40, 70, 130):
                yield [{'e': 'start', 't': 'list', 'a': ['a'] if k % 3 == 0 else []} for k in range(d)] + [{'e': 'end'}] * d + [{'e': 'eos'}]
        elif share == 2:
            yield [{'e': 'val', 't': 'symbol', 'x': 's%d' % k, 'a': []} for k in range(400)] + [{'e': 'eos'}]
            yield [{'e': 'val', 't': 'int', 'x': str(1 << (8 * k)), 'a': []} for k in range(1, 40)] + [{'e': 'eos'}]
        else:
            yield [{'e': 'val', 't': 'string', 'x': 'y' * 3000, 'a': ['q']}, {'e': 'eos'}]


FAMILIES = [Write()]
