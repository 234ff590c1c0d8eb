"""Readers: raw and managed, every encoding."""
import fam_base
import genbin
import genman
import gentext
import models
import readers
from fam_base import budget


def chunking(rng, n):
    c = rng.random()
    if n > 160:
        # what the specification reads again and again for each piece adds up: small pieces for a stretch only
        k = rng.randrange(0, n)
        return [x for x in [k] + [rng.choice([1, 1, 2, 5]) for _ in range(rng.choice([5, 20, 40]))] if x] + [rng.randrange(20, 200) for _ in range(n // 60)]
    if c < .3:
        return [1] * n
    if c < .5 and n > 1:
        k = rng.randrange(1, n)
        return [k, n - k]
    return [rng.randrange(1, 7) for _ in range(n)]


def encode_text(rng, d, p_bytes=.5):
    if rng.random() < p_bytes:
        return 'bytes', list(d.encode('utf-8', 'replace'))
    return 'text', [ord(c) for c in d]


MALFORMED = ('malformed input accepted', 'malformed input reported', 'no answer')


class Read(fam_base.Family):
    module = 'TraceRead'

    def __init__(self, name, codec):
        self.name = name
        self.codec = codec

    def run(self, recipe):
        return readers.run(recipe)

    def counts(self, prop, recipe, record):
        c = record['clause']
        if prop in ('C02', 'C04'):
            return c in MALFORMED
        if prop in ('C01', 'C03'):
            return c not in MALFORMED[:2]
        return True

    def baseline(self, prop, recipe):
        if prop == 'C05':
            return dict(recipe, sizes=None)
        if prop == 'C06':
            return dict(recipe, skips=[])
        if prop == 'C24':
            return dict(recipe, late=False)
        return None

    def features(self, recipe, case):
        out = set()
        for op in case['ops']:
            r = op['r']
            out.add('%s %s%s' % (r['e'], r['t'], ' null' if r['e'] == 'val' and not r['v'] else '') if r['e'] != 'err' else 'err')
            if op['o'] in ('skip', 'empty', 'foreign'):
                out.add('request ' + op['o'])
        return out

    def show(self, recipe, case):
        d = case['doc']
        return {'codec': case['codec'], 'document': bytes(bytearray(d)).hex() if case['codec'] == 'bin' else
                (''.join(map(chr, d)) if case['codec'] == 'text' else bytes(bytearray(d)).decode('utf-8', 'replace')),
                'requests': [o['o'] if o['o'] != 'data' else o['k'] for o in case['ops']][:40],
                'answers': [o['r']['e'] + ' ' + o['r']['t'] for o in case['ops']][:40]}

    def script(self, prop, model, rec):
        if model == 'managed':
            # the encodings by turns
            k = sum(x * (7 if i else 1) for i, x in enumerate(rec))
            codec = ('bin', 'text', 'bin', 'bytes')[k % 4]
            if codec == 'bin':
                d = list(genbin.IVM) + sum((genman.MODEL_ITEMS[x - 1]['b'] for x in rec), [])
            else:
                d = sum((genman.MODEL_ITEMS[x - 1]['t'] + [32] for x in rec), [])[:-1]
            yield {'codec': codec, 'doc': d, 'man': True, 'cat': genman.MODEL_CATALOG, 'sizes': [1] * len(d) if k % 5 == 0 else None,
                   'skips': [1 + k % 3] if k % 7 == 0 else [], 'late': prop == 'C24' or k % 3 == 0}
            return
        if model == 'values':
            if not rec['doc'] or rec['c'] == (2 if self.codec == 'bin' else 1):
                return
            rec = rec['doc']
        n = len(rec)
        base = {'codec': 'bin' if self.codec == 'bin' else 'text' if sum(rec) % 2 else 'bytes', 'doc': rec, 'man': False, 'cat': [], 'sizes': None, 'skips': [], 'late': False}
        if prop == 'C05':
            yield dict(base, sizes=[1] * n)
        elif prop == 'C06':
            if any(x >= 0xB0 for x in rec[4:]) if self.codec == 'bin' else any(x in (91, 40, 123) for x in rec):
                k = 1 + sum(rec) % 2
                yield dict(base, skips=[k], sizes=[1] * n)
                yield dict(base, skips=[k + 1])
        elif prop == 'C24':
            if sum(rec) % 3 == 0:
                yield dict(base, late=True, sizes=[1] * n if sum(rec) % 3 else None)
        else:
            yield dict(base, sizes=[1] * n if sum(rec) % 3 == 0 else None)

    # documents: (codec, items)
    def docs(self, prop, rng, n, share):
        raise NotImplementedError

    def decorate(self, prop, rng, codec, d, man, cat):
        rec = {'codec': codec, 'doc': d, 'man': man, 'cat': cat, 'sizes': None, 'skips': [], 'late': False}
        n = len(d)
        if prop == 'C05':
            rec['sizes'] = chunking(rng, n)
            if rng.random() < .15:
                rec['skips'] = [rng.randrange(1, 8)]
        elif prop == 'C06':
            rec['skips'] = sorted(set(rng.randrange(1, 12 if n < 600 else 6) for _ in range(rng.choice([1, 1, 2, 3]))))
            if n >= 600:
                # few and large pieces
                if rng.random() < .6:
                    cuts = sorted(rng.randrange(1, n) for _ in range(rng.choice([1, 2, 5])))
                    rec['sizes'] = [b - a for a, b in zip([0] + cuts, cuts + [n]) if b > a]
            elif rng.random() < .6:
                rec['sizes'] = chunking(rng, n)
        elif prop == 'C24':
            rec['late'] = True
            if rng.random() < .5:
                rec['sizes'] = chunking(rng, n)
        elif prop in ('C08', 'C09'):
            if rng.random() < .3:
                rec['sizes'] = chunking(rng, n)
            if rng.random() < (.3 if prop == 'C09' else .1):
                rec['skips'] = [rng.randrange(1, 8)]
            if rng.random() < .3:
                rec['late'] = True
        elif rng.random() < .15:
            rec['sizes'] = chunking(rng, n)
        return rec

    QUICK = {'C01': 14000, 'C02': 24000, 'C03': 8000, 'C04': 12000, 'C05': 9000, 'C06': 12000, 'C08': 8000, 'C09': 8000, 'C24': 8000}

    def recipes(self, prop, rng, share, shares, tier):
        n = budget(tier, self.QUICK[prop], 8)
        for codec, d, man, cat in self.docs(prop, rng, n, share, shares):
            if d or codec != 'bin':
                yield self.decorate(prop, rng, codec, d, man, cat)


class Bin(Read):
    def docs(self, prop, rng, n, share, shares):
        for k, d in enumerate(genbin.CORNERS):
            if k % shares == share:
                yield 'bin', d, False, []
        mut = {'C01': .1, 'C02': .95, 'C05': .25, 'C06': .15, 'C24': 0}[prop]
        for _ in range(n):
            g = genbin.BinGen(rng)
            if prop == 'C02' and rng.random() < .35:
                g.bad = rng.choice([.1, .3, .6])
            d = g.doc(rng.choice([1, 2, 3, 4]) if prop == 'C06' else None)
            if not g.bad and rng.random() < mut or g.bad and rng.random() < .1:
                d = genbin.mutate(rng, d)
            if len(d) <= 500:
                yield 'bin', d, False, []
        if prop in ('C01', 'C05', 'C06', 'C24') and share < 4:
            for d in genbin.big(rng, share):
                yield 'bin', d, False, []
        if prop in ('C05', 'C06'):
            for _ in range(4 if prop == 'C06' else 1):
                yield 'bin', genbin.long_containers(rng), False, []


class Text(Read):
    def docs(self, prop, rng, n, share, shares):
        for k, d in enumerate(gentext.CORNERS):
            if k % shares == share:
                c, items = encode_text(rng, d)
                yield c, items, False, []
        mut = {'C03': .2, 'C04': .9, 'C05': .25, 'C06': .15, 'C24': 0}[prop]
        if prop == 'C04':
            toks = list(gentext.exhaustive(gentext.TOKENS, 2))
            for k in range(share, len(toks), shares):
                c, items = encode_text(rng, toks[k])
                yield c, items, False, []
        for _ in range(n):
            g = gentext.TextGen(rng, versions=True)
            if rng.random() < {'C03': .15, 'C04': .5, 'C05': .1, 'C06': .05, 'C24': 0}[prop]:
                g.near = rng.choice([.1, .3, .8])
            d = g.doc(rng.choice([1, 2, 3]) if prop == 'C06' else None)
            if rng.random() < (.1 if g.near else mut):
                d = gentext.mutate(rng, d)
            if len(d) <= 400:
                c, items = encode_text(rng, d)
                yield c, items, False, []
        if prop in ('C03', 'C05', 'C06', 'C24') and share < 4:
            for d in gentext.big(rng, share):
                c, items = encode_text(rng, d)
                yield c, items, False, []


class Managed(Read):
    def docs(self, prop, rng, n, share, shares):
        for _ in range(n):
            cat = genman.catalog(rng) if prop != 'C09' or rng.random() < .3 else []
            codec = rng.choice(['bin', 'bin', 'text', 'bytes'])
            kw = {'odd': .25, 'high': 0.03} if prop == 'C08' else {'odd': .1, 'high': 0}
            yield codec, genman.doc(rng, codec, cat, **kw), True, cat


class Block(Read):
    """The same documents through blocking_reader."""
    def docs(self, prop, rng, n, share, shares):
        for codec, d, man, cat in DOCS['man'].docs(prop, rng, n // 4, share, shares):
            yield codec, d, man, cat
        for codec, d, man, cat in DOCS['bin'].docs(prop, rng, n // 2, share, shares):
            yield codec, d, man, cat
        for codec, d, man, cat in DOCS['text'].docs(prop, rng, n // 2, share, shares):
            yield codec, d, man, cat

    def decorate(self, prop, rng, codec, d, man, cat):
        rec = Read.decorate(self, prop, rng, codec, d, man, cat)
        rec['block'] = {'buffer': rng.choice([None, 1, 2, 3, 5, 8, 64]), 'sizes': rec['sizes'] if rng.random() < .5 else None}
        rec['sizes'] = None
        return rec

    def baseline(self, prop, recipe):
        b = Read.baseline(self, prop, dict(recipe, block=None))
        return b


class Protocol(Read):
    """Every sequence of requests up to a length, on short documents, and random long ones."""
    DOCS = [('bin', list(genbin.IVM)), ('bin', genbin.IVM + [0x20, 0xB2, 0x21, 0x05, 0x11]), ('bin', genbin.IVM + [0xD3, 0x84, 0xB1, 0x20]),
            ('text', [ord(c) for c in '1 ']), ('text', [ord(c) for c in '[1,(a)]b ']), ('bytes', [ord(c) for c in '{a:1} ']),
            ('text', [ord(c) for c in 'abc']), ('bytes', list(b'"a" '))]

    def recipes(self, prop, rng, share, shares, tier):
        import itertools
        depth = 5 if tier == 'thorough' else 4
        k = 0
        for man in (False, True):
            for codec, d in self.DOCS:
                n = len(d)
                alphabet = ['next', 'skip', 'empty', 'foreign', n, 1] if n > 1 else ['next', 'skip', 'empty', 'foreign', 1]
                for plan in itertools.product(alphabet, repeat=depth):
                    if sum(x for x in plan if isinstance(x, int)) > n:
                        continue
                    # once something illegal is refused nothing more is recorded: keep one such suffix only
                    k += 1
                    if k % shares == share:
                        yield {'codec': codec, 'doc': d, 'man': man, 'cat': [], 'plan': list(plan)}
        for _ in range(budget(tier, 6000, shares)):
            codec = rng.choice(['bin', 'text', 'bytes'])
            man = rng.random() < .4
            d = genman.doc(rng, codec, []) if man else (
                genbin.BinGen(rng).doc() if codec == 'bin' else
                (lambda s: [ord(c) for c in s] if codec == 'text' else list(s.encode('utf-8', 'replace')))(gentext.TextGen(rng).doc() + ' '))
            if len(d) > 300 or not d:
                continue
            yield {'codec': codec, 'doc': d, 'man': man, 'cat': [], 'mischief': [rng.randrange(1, 14), rng.choice(['skip', 'next', 'data', 'empty', 'foreign'])],
                   'sizes': chunking(rng, len(d)) if rng.random() < .7 else None,
                   'after': rng.choice(['', '', 'eos', 'inc', 'start', 'end', 'val', 'ivm'])}

    def script(self, prop, model, rec):
        k, plan = rec
        codec, d, man = models.REQUESTED[k - 1]
        left = len(d)
        out = []
        for x in plan:
            if x in ('one', 'data'):
                out.append(1 if x == 'one' else left)
                left -= out[-1]
            else:
                out.append(x)
        yield {'codec': codec, 'doc': d, 'man': man, 'cat': [], 'plan': out}

    def run(self, recipe):
        if 'plan' in recipe:
            return readers.run(recipe)
        d = readers.Driver(recipe)
        at, what = recipe['mischief']
        after = recipe.get('after')
        while not d.done and (len(d.s.ops) < at or after and d.s.last != after):
            d.step()
        if not d.s.dead and (not d.done or after):
            s = d.s
            if what == 'data':
                if s.fed < len(s.doc):
                    s.request('data', 1)
            else:
                s.request(what)
            if not s.dead and s.ops and s.last not in ('inc', 'eos'):
                s.request('next')
        return d.s.case()


DOCS = {'bin': Bin('bin', 'bin'), 'text': Text('text', 'text'), 'man': Managed('man', None)}
FAMILIES = [Block('block', None), Bin('bin', 'bin'), Text('text', 'text'), Managed('man', None), Protocol('proto', None)]
