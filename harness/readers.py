"""Drives the readers of the code under test and records what they answer."""
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_binary import raw_reader as binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader
from amazon.ion.symbols import SymbolTableCatalog, shared_symbol_table

import guard
import proj


def encode(codec, items):
    if codec == 'text':
        return ''.join(map(chr, items))
    return bytes(bytearray(items))


def text_of(x):
    """The text of a table entry: [] or [code points]."""
    return ''.join(map(chr, x[0])) if x else None


def catalog(tables):
    cat = SymbolTableCatalog()
    for t in tables:
        cat.register(shared_symbol_table(''.join(map(chr, t['n'])), t['v'], [text_of(x) for x in t['s']]))
    return cat


def new_reader(codec, man, cat, shared=None):
    if codec == 'bin':
        r = binary_reader()
    else:
        r = text_reader(is_unicode=(codec == 'text'))
    if man:
        r = managed_reader(r, shared if shared is not None else (catalog(cat) if cat is not None else None))
    return r


class Input(object):
    """A file-like object that hands out pieces of the given sizes, or what is asked for."""
    def __init__(self, data, sizes):
        self.data = data
        self.sizes = list(sizes) if sizes is not None else []

    def read(self, n):
        if self.sizes:
            n = min(n, self.sizes.pop(0))
        out, self.data = self.data[:n], self.data[n:]
        return out


class Session(object):
    """One reader and the record of its use."""
    def __init__(self, codec, doc, man=False, cat=(), late=False, shared=None, block=None):
        self.codec = codec
        self.doc = doc
        self.man = man
        self.cat = list(cat or ())
        self.late = late
        self.reader = new_reader(codec, man, self.cat, shared)
        self.block = block is not None
        if self.block:
            size = {} if block['buffer'] is None else {'buffer_size': block['buffer']}
            self.reader = blocking_reader(self.reader, Input(encode(codec, doc), block['sizes']), **size)
        self.fed = 0
        self.ops = []
        self.kept = []      # events to be looked at when all is read
        self.last = None
        self.dead = False

    def request(self, op, k=0):
        if op == 'next':
            arg = NEXT_EVENT
        elif op == 'skip':
            arg = SKIP_EVENT
        elif op == 'empty':
            arg = read_data_event(encode(self.codec, []))
        elif op == 'foreign':                       # data of the other kind
            arg = read_data_event(b'1 ' if self.codec == 'text' else u'1 ')
        else:
            arg = read_data_event(encode(self.codec, self.doc[self.fed:self.fed + k]))
            self.fed += k

        def run():
            ev = self.reader.send(arg)
            if not self.late:
                return proj.event(ev)
            self.kept.append((len(self.ops), ev))
            return {'e': proj.KINDS[ev.event_type.name], 'd': ev.depth}
        r, exc = guard.call(run)
        if exc is not None:
            r = proj.error(exc)
            self.dead = True
        self.last = r['e']
        self.ops.append({'o': op, 'k': k, 'r': r})
        return r

    def inspect(self):
        """Looks at the events kept, last first, then once more in order."""
        def look(ev):
            r, exc = guard.call(lambda: proj.event(ev))
            return r if exc is None else proj.error(exc)
        for at, ev in reversed(self.kept):
            self.ops[at]['r'] = look(ev)
        for at, ev in self.kept:
            again = look(ev)
            if again != self.ops[at]['r']:
                self.ops[at]['r'] = {'e': 'unstable', 't': '', 'v': [], 'f': [], 'a': [], 'd': 0}
        self.kept = []

    def case(self):
        self.inspect()
        return {'codec': self.codec, 'doc': list(self.doc), 'man': self.man, 'cat': self.cat, 'block': self.block, 'ops': self.ops}


class Driver(object):
    """Reads a document by a recipe, one request per step."""
    def __init__(self, recipe, shared=None):
        self.rec = recipe
        self.s = Session(recipe['codec'], recipe['doc'], recipe.get('man', False), recipe.get('cat', ()),
                         recipe.get('late', False), shared, recipe.get('block'))
        if recipe.get('block') is not None:
            self.s.fed = len(recipe['doc'])
        self.plan = list(recipe['plan']) if recipe.get('plan') is not None else None
        self.sizes = list(recipe['sizes']) if recipe.get('sizes') is not None else [len(recipe['doc'])]
        self.skips = set(recipe.get('skips', ()))
        self.op = 'next'
        self.n = 0
        self.done = False

    def step(self, limit=4000):
        s = self.s
        if self.plan is not None:
            if not self.plan or s.dead:
                self.done = True
                return
            op = self.plan.pop(0)
            if isinstance(op, int):
                s.request('data', op)
            else:
                s.request(op)
            return
        if self.op == 'data':
            left = len(s.doc) - s.fed
            k = min(self.sizes.pop(0) if self.sizes else left, left)
            r = s.request('data', max(k, 1))
        else:
            r = s.request(self.op)
        if s.dead or len(s.ops) >= limit:
            self.done = True
            return
        if r['e'] in ('inc', 'eos'):
            if s.fed < len(s.doc):
                self.op = 'data'
            elif r['e'] == 'eos' and s.block and self.op != 'over':
                self.op = 'over'            # one request too many
                s.request('next')
                self.done = True
            elif r['e'] == 'inc' and s.codec != 'bin':
                self.op = 'next'
            else:
                self.done = True
        else:
            self.n += 1
            depth = r['d'] + 1 if r['e'] == 'start' else r['d']
            self.op = 'skip' if self.n in self.skips and depth > 0 else 'next'


def run(recipe, shared=None):
    d = Driver(recipe, shared)
    while not d.done:
        d.step()
    return d.s.case()
