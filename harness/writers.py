"""Drives the writers of the code under test and records what they answer.

A recipe: {'bin', 'imports': [{'n', 'v', 's'}], 'badimp', 'cat': decoys, 'indent', 'events': [event...], 'raw'}.
An event: {'e': 'val'|'start'|'end'|'ivm'|'eos'|'inc'|'none'|'take!', 't', 'x', 'f', 'a', 'bad'}: 'none'
sends nothing where an event is due, 'take!' sends it while output is pending.
"""
from amazon.ion.core import IonEvent, IonEventType, IonType
from amazon.ion.reader import NEXT_EVENT, blocking_reader, read_data_event
from amazon.ion.reader_binary import raw_reader as binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader
from amazon.ion.symbols import SymbolTableCatalog, local_symbol_table, shared_symbol_table
from amazon.ion.writer import WriteEventType
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

import genval
import guard
import proj
import readers

SIG = {WriteEventType.HAS_PENDING: 'pend', WriteEventType.NEEDS_INPUT: 'need', WriteEventType.COMPLETE: 'comp'}
KIND = {'val': IonEventType.SCALAR, 'start': IonEventType.CONTAINER_START, 'end': IonEventType.CONTAINER_END,
        'ivm': IonEventType.VERSION_MARKER, 'eos': IonEventType.STREAM_END, 'inc': IonEventType.INCOMPLETE}


class Odd(object):
    pass


# values that are not of the event's type
BAD = {'null': [1, u'a', 0, u'', b'', [], (), {}, False], 'int': [u'1', 1.0, None.__class__, u'', [], {}], 'float': [1, u'1.0', u'', []],
       'decimal': [1, 1.5, u'1', u'', [], 0], 'timestamp': [u'2000T', 5, u'', 0, []], 'symbol': [5, b'a', 1.5, 0, [], False], 'string': [b'a', 5, b'', 0, []],
       'clob': [u'ab', 5, 0], 'blob': [u'ab', 5, u'', 0], 'list': [[1], [], (), u'', 0, False], 'sexp': [(1,), (), [], 0, u''],
       'struct': [{'a': 1}, {}, [], 0, False]}


def build_event(ev):
    t = genval.ION.get(ev.get('t'))
    v = BAD[ev['t']][ev['bad']] if isinstance(ev.get('bad'), int) else genval.build(ev['t'], ev.get('x')) if ev['e'] == 'val' else None
    a = [genval.build_token(x) for x in ev.get('a', ())]
    if ev.get('bad') == 'ann':
        a.append(None)
    kw = {}
    if ev.get('atup'):
        a = tuple(a)
    return IonEvent(KIND[ev['e']], t, v, genval.build_token(ev.get('f')), a, ev.get('depth'), **kw)


def spec_event(ev):
    v = genval.spec(ev['t'], ev.get('x')) if ev['e'] == 'val' and ev.get('bad') is None else []
    return {'e': ev['e'], 't': ev.get('t') or '', 'v': v, 'f': genval.spec_token(ev.get('f')), 'a': [genval.spec_token(x) for x in ev.get('a', ())],
            'd': 0, 'bad': ev.get('bad') is not None}


NOTHING = {'e': 'none', 't': '', 'v': [], 'f': [], 'a': [], 'd': 0, 'bad': False}


def shared(t):
    return shared_symbol_table(''.join(map(chr, t['n'])), t['v'], [readers.text_of(x) for x in t['s']])


def pack(ts, make=shared):
    return [make(t) for t in ts]


def read_back(binary, cat, data):
    """The events the library's own reader reports for the output."""
    def go():
        r = managed_reader(binary_reader(), cat) if binary else text_reader(is_unicode=False)
        out = []
        ev = r.send(NEXT_EVENT)
        fed = False
        while True:
            k = proj.KINDS[ev.event_type.name]
            if k in ('inc', 'eos'):
                if not fed and data:
                    fed = True
                    ev = r.send(read_data_event(data))
                elif k == 'inc' and not binary:
                    binary_flush = NEXT_EVENT
                    ev = r.send(binary_flush)
                elif k == 'inc':
                    raise ValueError('incomplete')
                else:
                    return out
            else:
                out.append(proj.event(ev))
                ev = r.send(NEXT_EVENT)
    evs, exc = guard.call(go)
    return [proj.error(exc)] if exc is not None else evs


class Session(object):
    def __init__(self, recipe, make=shared, pack=pack):
        self.rec = recipe
        self.bin = recipe['bin']
        self.cat = SymbolTableCatalog()
        for t in recipe.get('cat', ()):
            self.cat.register(shared(t))
        imports = None
        self.tables = pack(recipe.get('imports', ()), make)
        for t in self.tables:
            self.cat.register(t)
        if self.tables or recipe.get('emptyimp'):
            imports = self.tables
        if recipe.get('badimp'):
            imports = (imports or []) + [local_symbol_table(symbols=[u'q'])]
        self.imports = tuple(imports) if imports and recipe.get('tupimp') else imports
        self.writer = binary_writer(self.imports) if self.bin else text_writer(indent=recipe.get('indent'))
        self.ops = []
        self.data = b''
        self.dead = False
        self.last = None
        self.given = 0

    def request(self, o, ev=None, arg=None):
        r, exc = guard.call(lambda: self.writer.send(arg))
        if exc is not None:
            self.dead = True
            res = {'s': 'hang' if isinstance(exc, guard.Hang) else 'err', 'data': []}
        else:
            d = bytes(r.data)
            self.data += d
            res = {'s': SIG[r.type], 'data': list(d)}
        self.last = res['s']
        self.ops.append({'o': o, 'ev': ev or NOTHING, 'r': res, 'evs': []})
        return res

    def give(self, ev, deny=False):
        """Sends an event and takes all of the answer; deny: sends it again instead of taking."""
        if ev['e'] == 'none':
            self.request('take')
            return
        arg, exc = guard.call(lambda: build_event(ev))
        if exc is not None:
            raise exc
        if self.bin and self.last == 'comp':
            self.data = b''
        sp = spec_event(ev)
        self.given += 1
        self.request('ev', sp, arg)
        n = 0
        while self.last == 'pend' and not self.dead and n < 100000:
            n += 1
            if deny:
                self.request('ev', sp, arg)
                return
            self.request('take')
        if not self.dead and self.last == 'comp' and ev['e'] == 'eos' and not self.rec.get('noback'):
            self.ops.append({'o': 'back', 'ev': NOTHING, 'r': {'s': '', 'data': []}, 'evs': read_back(self.bin, self.cat, self.data)})

    def case(self):
        c = self.rec
        return {'bin': self.bin, 'imports': c.get('imports', []), 'badimp': bool(c.get('badimp')),
                'cat': list(c.get('cat', [])) + list(c.get('imports', [])), 'ops': self.ops}


class Player(object):
    """Writes the events of a recipe, one request per step."""
    def __init__(self, recipe, make=shared, event=build_event, pack=pack):
        self.rec = recipe
        self.s = Session(recipe, make, pack)
        self.event = event
        self.at = 0
        self.back = False
        self.done = False

    def step(self):
        s = self.s
        if s.last == 'pend' and not s.dead:
            s.request('take')
        elif self.back and not s.dead and s.last == 'comp':
            s.ops.append({'o': 'back', 'ev': NOTHING, 'r': {'s': '', 'data': []}, 'evs': read_back(s.bin, s.cat, s.data)})
            s.data = b''
            self.back = False
        else:
            ev = self.rec['events'][self.at]
            self.at += 1
            self.back = ev['e'] == 'eos'
            if ev['e'] == 'none':
                s.request('take')
            else:
                s.request('ev', spec_event(ev), self.event(ev))
        self.back = self.back and s.last in ('pend', 'comp')
        more = self.at < len(self.rec['events'])
        self.done = s.dead or (not more and s.last != 'pend' and not self.back)


def run(recipe):
    s = Session(recipe)
    for k, ev in enumerate(recipe['events']):
        if s.dead:
            s.give(ev)
            break
        s.give(ev, recipe.get('deny') == k)
    return s.case()
