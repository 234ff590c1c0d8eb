"""dump, dumps, load and loads.

A recipe: {'from': 'py', 'node'} or {'from': 'doc', 'codec', 'doc'}, 'cat': tables, 'ops': [
  {'o': 'dump', 'bin', 'stream', 'sexp', 'omit', 'indent', 'imports': bool, 'badopt': None or a name, 'fp': bool} or
  {'o': 'load', 'single', 'via'}].
"""
import io
import os
import shutil
import tempfile

from amazon.ion import simpleion
from amazon.ion.symbols import SymbolTableCatalog, local_symbol_table

import fam_base
import genbin
import genman
import gentext
import genval
import genpy
import genwrite
import guard
import proj
import writers
from fam_base import budget

VIA = {'bin': ['loads', 'bytesio', 'file'], 'text': ['loads', 'str', 'bytesio', 'stringio', 'file', 'textfile']}


class Wrong(Exception):
    pass


def dump(value, op, tables):
    kw = {'binary': op['bin'], 'sequence_as_stream': op['stream'], 'tuple_as_sexp': op['sexp'], 'omit_version_marker': op['omit'], 'indent': op['indent']}
    if op['imports']:
        kw['imports'] = tables
    if op['badopt'] == 'imports':
        kw['imports'] = list(tables) + [local_symbol_table(symbols=[u'q'])]
    elif op['badopt'] == 'indent':
        kw['indent'] = 4
    if op['fp']:
        fp = io.BytesIO()
        simpleion.dump(value, fp, **kw)
        return fp.getvalue()
    out = simpleion.dumps(value, **kw)
    if not isinstance(out, bytes if op['bin'] else str):
        raise Wrong(type(out))
    return out if op['bin'] else out.encode('utf-8')


def load(data, op, cat):
    kw = {'catalog': cat, 'single_value': op['single']}
    via = op['via']
    if via == 'loads':
        return simpleion.loads(data, **kw)
    if via == 'str':
        return simpleion.loads(data.decode('utf-8'), **kw)
    if via == 'bytesio':
        return simpleion.load(io.BytesIO(data), **kw)
    if via == 'stringio':
        return simpleion.load(io.StringIO(data.decode('utf-8')), **kw)
    d = tempfile.mkdtemp(prefix='ionverif')
    try:
        p = os.path.join(d, 'x')
        with open(p, 'wb') as f:
            f.write(data)
        with open(p, 'rb') if via == 'file' else io.open(p, encoding='utf-8', newline='') as f:
            return simpleion.load(f, **kw)
    finally:
        shutil.rmtree(d)


class Player(object):
    """Dumps and loads, one operation per step."""
    def __init__(self, rec, make=writers.shared, build=genpy.build, cat=None, pack=writers.pack):
        self.rec = rec
        self.tables = pack(rec['cat'], make)
        self.cat = cat
        if cat is None:
            self.cat = SymbolTableCatalog()
            for t in self.tables:
                self.cat.register(t)
        self.left = list(rec['ops'])
        self.value = self.data = None
        self.out = {'from': rec['from'], 'codec': '', 'doc': [], 'cat': rec['cat'], 'py': [], 'ops': []}
        self.ops = self.out['ops']
        if rec['from'] == 'py':
            self.value, self.out['py'] = build(rec['node']), genpy.spec(rec['node'])
        else:
            self.data = bytes(bytearray(rec['doc'])) if rec['codec'] != 'text' else ''.join(map(chr, rec['doc'])).encode('utf-8')
            self.out['codec'] = 'bin' if rec['codec'] == 'bin' else 'bytes'
            self.out['doc'] = list(self.data)
        self.done = not self.left

    def step(self):
        op = self.left.pop(0)
        if op['o'] == 'dump':
            self.data, exc = guard.call(lambda: dump(self.value, op, self.tables))
            self.ops.append({'o': 'dump', 'bin': op['bin'], 'stream': op['stream'], 'sexp': op['sexp'], 'omit': op['omit'], 'badopt': op['badopt'] is not None,
                             'single': False, 'res': {'s': state(exc), 'data': list(self.data or b''), 'xs': []}})
        else:
            self.value, exc = guard.call(lambda: load(self.data, op, self.cat))
            xs = []
            if exc is None:
                try:
                    xs = [genpy.loaded(v) for v in ([self.value] if op['single'] else self.value)]
                except Exception as e:
                    exc = e
            self.ops.append({'o': 'load', 'bin': False, 'stream': False, 'sexp': False, 'omit': False, 'badopt': False,
                             'single': op['single'], 'res': {'s': state(exc), 'data': [], 'xs': xs}})
        self.done = not self.left or exc is not None


def run(rec):
    p = Player(rec)
    while not p.done:
        p.step()
    return p.out


def state(exc):
    return 'ok' if exc is None else 'hang' if isinstance(exc, guard.Hang) else 'err'


def any_node(n, pred):
    return pred(n) or any(any_node(x, pred) for x in n['xs'])


class Dump(fam_base.Family):
    name = 'dump'
    module = 'TraceDump'
    QUICK = {'C16': 5000, 'C17': 5000, 'C18': 6000}

    def run(self, recipe):
        return run(recipe)

    def features(self, recipe, case):
        out = set()

        def walk(n):
            out.add('%s %s%s' % (n['p'], n['t'], ' null' if n['n'] else ''))
            for x in n['xs']:
                walk(x)
        for x in case['py'] and [case['py']] or []:
            walk(x)
        for op in recipe['ops']:
            out.add('%s %s' % (op['o'], op['via'] if op['o'] == 'load' else 'binary' if op['bin'] else 'text'))
        return out

    def show(self, recipe, case):
        return {'recipe': recipe, 'results': [{'o': op['o'], 's': op['res']['s'], 'data': bytes(bytearray(op['res']['data'])).hex() if op['bin'] else
                                               bytes(bytearray(op['res']['data'])).decode('latin-1')} for op in case['ops']]}

    def dump_op(self, rng, binary, cat):
        return {'o': 'dump', 'bin': binary, 'stream': rng.random() < .3, 'sexp': rng.random() < .3, 'omit': rng.random() < .4,
                'indent': rng.choice([None, None, '', ' ', '  ', '\t', '    ']) if not binary else None,
                'imports': binary and bool(cat) and rng.random() < .8, 'badopt': None, 'fp': rng.random() < .3}

    def load_op(self, rng, binary, single):
        v = VIA['bin' if binary else 'text']
        return {'o': 'load', 'single': single, 'via': rng.choice(v + v[:2])}

    def script(self, prop, model, rec):
        k, binary, stream, sexp, omit = rec
        if prop in ('C16', 'C17') and binary == (prop == 'C17'):
            return
        node = genpy.MODEL_VALUES[k - 1]
        single = not stream or k % 2 == 0
        v = VIA['bin' if binary else 'text']
        ops = [{'o': 'dump', 'bin': binary, 'stream': stream, 'sexp': sexp, 'omit': omit, 'indent': None if binary else (None, '', '  ', '\t')[k % 4],
                'imports': False, 'badopt': None, 'fp': k % 3 == 0},
               {'o': 'load', 'single': single, 'via': v[k % len(v)]}]
        b2 = (k + sexp) % 2 == 0
        ops.append({'o': 'dump', 'bin': b2, 'stream': not stream, 'sexp': False, 'omit': not omit, 'indent': None, 'imports': False, 'badopt': None, 'fp': False})
        ops.append({'o': 'load', 'single': False, 'via': 'loads'})
        yield {'from': 'py', 'node': node, 'cat': [], 'ops': ops}

    def recipes(self, prop, rng, share, shares, tier):
        for _ in range(budget(tier, self.QUICK[prop], shares)):
            binary = {'C16': True, 'C17': False}.get(prop, rng.random() < .5)
            cat = genwrite.imports(rng) if binary and rng.random() < .25 else []
            k = rng.random()
            if k < (.3 if prop != 'C18' else .1):
                yield self.document(rng, binary, cat)
                continue
            g = genpy.Gen(rng, ion=.6 if prop != 'C18' else .35, other=.06 if prop == 'C18' and rng.random() < .5 else 0, subs=.3 if prop == 'C18' else .1)
            node = g.value()
            if prop == 'C18' and rng.random() < .03:
                node = g.node('dict', 'dict', fs=['a', None], xs=[g.value(2), g.value(2)])
            ops = [self.dump_op(rng, binary, cat)]
            stream = ops[0]['stream'] and (node['p'] in ('list', 'tuple') or node['p'] == 'ion' and node['t'] in ('list', 'sexp') and not node['null'])
            tops = node['xs'] if stream else [node]
            if any(genpy.system_like(x) for x in tops):
                continue
            if prop == 'C18' and rng.random() < .05 and tops:
                ops[0]['badopt'] = 'imports' if binary else 'indent'
            single = rng.random() < (.1 if stream and len(tops) != 1 else .9)
            ops.append(self.load_op(rng, binary, single))
            if rng.random() < .3:
                b2 = rng.random() < .5
                ops.append(dict(self.dump_op(rng, b2, cat), sexp=False))
                ops.append(self.load_op(rng, b2, False))
            yield {'from': 'py', 'node': node, 'cat': cat, 'ops': ops}
        if prop == 'C18' and share == 0:
            g = genpy.Gen(rng, subs=0)
            one = g.node('int', 'int', '1')
            one['c'] = 0
            node = dict(g.node('namedtuple', 'namedtuple', fs=['a', 'b'], xs=[one, one]), c=0)
            for b in (True, False):
                yield {'from': 'py', 'node': node, 'cat': [], 'ctx': None, 'ops': [
                    {'o': 'dump', 'bin': b, 'stream': False, 'sexp': False, 'omit': False, 'indent': None, 'imports': False, 'badopt': None, 'fp': False}]}
        if prop in ('C16', 'C17') and share < 4:
            for node in self.big(prop, rng, share):
                b = prop == 'C16'
                yield {'from': 'py', 'node': node, 'cat': [], 'ops': [dict(self.dump_op(rng, b, []), stream=False), self.load_op(rng, b, True)]}

    def big(self, prop, rng, share):
        """Output that goes beyond one read of the blocking reader."""
        g = genpy.Gen(rng, subs=0)
        if share == 0:
            yield g.node('str', 'string', 'z' * 1500)
            yield g.node('list', 'list', xs=[g.node('int', 'int', str(k)) for k in range(900)])
        elif share == 1:
            yield g.node('list', 'list', xs=[g.node('str', 'string', 'é' * 20) for k in range(400)])
        elif share == 2:
            yield g.node('dict', 'dict', fs=['k%d' % k for k in range(600)], xs=[g.node('str', 'string', 'v%d' % k) for k in range(600)])
        else:
            n = g.node('int', 'int', '1')
            for k in range(60):
                n = g.node('list', 'list', xs=[n])
            yield n

    def document(self, rng, binary, cat):
        """A document, loaded, dumped and loaded again."""
        codec = rng.choice(['bin', 'text', 'bytes'])
        k = rng.random()
        if k < .5:
            cat = genman.catalog(rng)
            d = genman.doc(rng, codec, cat, odd=.05, high=0)
        else:
            cat = []
            d = genbin.BinGen(rng).doc() if codec == 'bin' else None
            if d is None:
                s = gentext.TextGen(rng).doc()
                d = [ord(c) for c in s] if codec == 'text' else list(s.encode('utf-8', 'replace'))
        if codec == 'text' and any(0xD800 <= c < 0xE000 for c in d):
            codec, d = 'bytes', list(''.join(map(chr, d)).encode('utf-8', 'replace'))
        ops = [self.load_op(rng, codec == 'bin', rng.random() < .2)]
        ops.append(dict(self.dump_op(rng, binary, cat), sexp=False, imports=False))
        ops.append(self.load_op(rng, binary, False))
        return {'from': 'doc', 'codec': codec, 'doc': d, 'cat': cat, 'ops': ops}


FAMILIES = [Dump()]
