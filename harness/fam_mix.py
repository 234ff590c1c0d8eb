"""Several readers, writers, dumps and other users of the library in one process, interleaved.

A recipe: {'insts': [{'kind': 'read', 'write', 'dump', 'pipe' or the name of a family, 'rec'}], 'order': [...], 'share': bool}.
Each instance is a machine of its own; its answers are recorded as text, since it only matters whether they are the same.
With 'share', equal catalogs, tables, values and events are the same objects.
"""
import json

import fam_base
import fam_dump
import families
import genbin
import genman
import genpy
import gentext
import genval
import genwrite
import guard
import proj
import readers
import writers
import zygote
from fam_base import budget
from fam_read import chunking, encode_text

from amazon.ion import symbols
from amazon.ion.reader import NEXT_EVENT, read_data_event
from amazon.ion.core import IonEvent, IonEventType

PROBES = [(n, v, m) for n in ('T', 'U', 'V', 'nosuch', 'A', 'B') for v in (1, 2, 3, 9) for m in (None, 1, 4)]


def text(x):
    return json.dumps(x, sort_keys=True)


class Pool(object):
    """What the instances of a case have in common."""
    def __init__(self, share):
        self.share = share
        self.catalogs, self.tables, self.values, self.events, self.lists = {}, {}, {}, {}, {}

    def get(self, where, x, make):
        if not self.share:
            where[len(where)] = x, make(x)
            return where[len(where) - 1][1]
        k = text(x)
        if k not in where:
            where[k] = x, make(x)
        return where[k][1]

    def catalog(self, tables):
        return self.get(self.catalogs, tables, readers.catalog)

    def table(self, t):
        return self.get(self.tables, t, writers.shared)

    def pack(self, ts, make):
        return self.get(self.lists, list(ts), lambda x: writers.pack(x, make))

    def value(self, n):
        return self.get(self.values, n, genpy.build)

    def event(self, ev):
        return self.get(self.events, ev, writers.build_event)

    def shots(self):
        """What the shared objects are, as text: by what they were made from."""
        out = {}
        for x, o in self.catalogs.values():
            out.setdefault('catalog ' + text(x), []).append(o)
        for x, o in self.tables.values():
            out.setdefault('table ' + text(x), []).append(o)
        for x, o in self.values.values():
            out.setdefault('value ' + text(x), []).append(o)
        for x, o in self.events.values():
            out.setdefault('event ' + text(x), []).append(o)
        for x, o in self.lists.values():
            out.setdefault('list ' + text(x), []).append(o)
        out['system'] = [symbols.SYSTEM_SYMBOL_TABLE]
        return {k: [look(k.split()[0], o) for o in v] for k, v in out.items()}


def fresh(key):
    """The shot of a new object."""
    kind, _, x = key.partition(' ')
    if kind == 'system':
        return look(kind, symbols.SYSTEM_SYMBOL_TABLE)
    return look(kind, {'catalog': readers.catalog, 'list': writers.pack, 'table': writers.shared, 'value': genpy.build, 'event': writers.build_event}[kind](json.loads(x)))


def look(kind, o):
    r, exc = guard.call(lambda: text({'catalog': probe, 'list': lambda x: [table(t) for t in x], 'table': table, 'system': table, 'value': value, 'event': event}[kind](o)))
    return r if exc is None else 'error %s' % type(exc).__name__


def table(t):
    return [t.name, t.version, t.max_id, str(t.table_type), bool(t.is_substitute), [[x.text, x.sid, str(x.location)] for x in t]]


def probe(c):
    out = []
    for n, v, m in PROBES:
        r, exc = guard.call(lambda: c.resolve(n, v, m))
        out.append(table(r) if exc is None else 'error')
    return out


def event(ev):
    return [str(ev.event_type), str(ev.ion_type), value(ev.value), value(ev.field_name), value(ev.annotations), ev.depth]


def value(v):
    t = getattr(v, 'ion_type', None)
    out = [type(v).__name__, proj.type_of(t), [proj.tok(x) for x in getattr(v, 'ion_annotations', ())] if t is not None else []]
    if isinstance(v, (list, tuple)) and not hasattr(v, 'sid'):
        return out + [value(x) for x in v]
    if hasattr(v, 'iteritems') or isinstance(v, dict):
        return out + [[value(k), value(x)] for k, x in (v.iteritems() if hasattr(v, 'iteritems') else v.items())]
    if hasattr(v, 'utcoffset'):
        return out + [proj.timestamp_value(v), v.fold]
    if hasattr(v, 'sid'):
        return out + [v.text, v.sid, str(v.location)]
    if type(v).__module__ == 'fam_dump' or type(v).__repr__ is object.__repr__ or hasattr(v, 'send'):
        return out
    return out + [repr(v)]


class Pipe(object):
    """The events a reader reports, written as they come."""
    def __init__(self, rec, pool):
        self.src = readers.Driver(rec['read'], pool.catalog(rec['read']['cat']) if rec['read']['cat'] else None)
        self.doc = self.src.s
        self.dst = writers.Session(dict(rec['write'], noback=True), pool.table, pool.pack)
        self.ops = []
        self.todo = []
        self.fed = False
        self.done = False
        self.arg = NEXT_EVENT

    def step(self):
        if self.dst.last == 'pend':
            self.put('take', None)
        elif self.todo:
            ev = self.todo.pop(0)
            self.put('ev', ev)
            if ev.event_type is IonEventType.STREAM_END and not self.todo and self.dst.last != 'pend':
                self.done = self.ended
        else:
            if getattr(self, 'ended', False):
                self.done = True
                return
            ev, exc = guard.call(lambda: self.src.s.reader.send(self.arg))
            if exc is not None:
                self.ops.append(['err', type(exc).__name__])
                self.done = True
                return
            kind = proj.KINDS[ev.event_type.name]
            self.ops.append([kind, proj.type_of(ev.ion_type), ev.depth])
            if kind in ('inc', 'eos'):
                if not self.fed and self.doc.doc:
                    self.fed = True
                    self.arg = read_data_event(readers.encode(self.doc.codec, self.doc.doc))
                elif kind == 'inc' and self.doc.codec != 'bin' and self.arg is not NEXT_EVENT:
                    self.arg = NEXT_EVENT
                else:
                    self.ended = True
                    if kind == 'eos':
                        self.todo.append(ev)
            else:
                self.arg = NEXT_EVENT
                if kind != 'ivm':
                    self.todo.append(ev)

    ended = False

    def put(self, o, ev):
        n = len(self.dst.ops)
        self.dst.request(o, None, ev)
        self.ops += self.dst.ops[n:]
        if self.dst.dead:
            self.done = True


class Whole(object):
    """A case of another family, in one step."""
    def __init__(self, fam, rec):
        self.fam, self.rec, self.ops, self.done = fam, rec, [], False

    def step(self):
        self.ops.append(families.FAMILIES[self.fam].run(self.rec))
        self.done = True


def machine(inst, pool):
    rec, kind = inst['rec'], inst['kind']
    if kind == 'read':
        d = readers.Driver(rec, pool.catalog(rec['cat']) if rec.get('man') and rec['cat'] else None)
        d.ops = d.s.ops
        return d
    if kind == 'write':
        p = writers.Player(rec, pool.table, pool.event, pool.pack)
        p.ops = p.s.ops
        return p
    if kind == 'dump':
        return fam_dump.Player(rec, pool.table, pool.value, pool.catalog(rec['cat']) if rec['cat'] else None, pool.pack)
    if kind == 'pipe':
        return Pipe(rec, pool)
    return Whole(kind, rec)


def answers(m):
    if isinstance(m, readers.Driver):
        m.s.inspect()
    return [text(x) for x in m.ops]


def alone(inst):
    """The answers of one instance when nothing else happens."""
    m = machine(inst, Pool(False))
    n = 0
    while not m.done and n < 5000:
        m.step()
        n += 1
    return answers(m)


def pristine(args):
    return [fresh(k) for k in args['keys']] if 'keys' in args else alone(args['inst'])


class Mix(fam_base.Family):
    name = 'mix'
    module = 'TraceMix'
    zygote = None

    def run(self, recipe):
        z = Mix.zygote = Mix.zygote or zygote.Zygote(pristine)
        pool = Pool(recipe['share'])
        order = list(recipe['order'])
        ms = [None] * len(recipe['insts'])
        steps = []
        k = 0
        while True:
            live = [w for w, m in enumerate(ms) if m is None or not m.done]
            if not live or len(steps) > 5000:
                break
            w = live[(order[k] if k < len(order) else k) % len(live)]
            k += 1
            if ms[w] is None:
                ms[w] = machine(recipe['insts'][w], pool)
                if ms[w].done:
                    continue
            n = len(ms[w].ops)
            ms[w].step()
            steps += [(w, i) for i in range(n, len(ms[w].ops))]
        told = [answers(m) for m in ms]
        shots = pool.shots()
        keys = sorted(shots)
        return {'alone': [z.call({'inst': inst}) for inst in recipe['insts']],
                'later': [alone(inst) for inst in recipe['insts']],
                'run': [{'w': w + 1, 'r': told[w][i]} for w, i in steps],
                'keys': [q.split()[0] for q in keys],
                'before': z.call({'keys': keys}), 'after': [shots[q] for q in keys]}

    def features(self, recipe, case):
        out = {'%s beside %s' % tuple(sorted((a['kind'], b['kind']))) for k, a in enumerate(recipe['insts']) for b in recipe['insts'][:k]}
        return out | {'shared ' + k for k in case['keys']}

    def show(self, recipe, case):
        return {'instances': [i['kind'] for i in recipe['insts']], 'steps': [s['w'] for s in case['run']][:60], 'shared': case['keys']}

    def recipes(self, prop, rng, share, shares, tier):
        Mix.zygote = Mix.zygote or zygote.Zygote(pristine)
        r = rng
        others = {n: families.FAMILIES[n].recipes(p, r, share, shares, 'thorough') for n, p in
                  (('struct', 'C21'), ('buffer', 'C22'), ('table', 'C10'), ('stamp', 'C20'), ('eq', 'C19'), ('conv', 'C23'))}
        dumps = [families.FAMILIES['dump'].recipes(p, r, 9, 16, 'thorough') for p in ('C16', 'C17', 'C18')]
        writes = [families.FAMILIES['write'].recipes(p, r, 9, 16, 'thorough') for p in ('C13', 'C13', 'C14', 'C15')]
        for _ in range(budget(tier, 2600, shares)):
            cat = genman.catalog(r) if r.random() < .8 else []
            insts = []
            for _ in range(r.choice([2, 2, 3, 4])):
                k = r.random()
                if insts and k < .2:                    # the same once more
                    insts.append(dict(r.choice(insts)))
                elif k < .55:
                    insts.append({'kind': 'read', 'rec': self.reading(r, cat)})
                elif k < .75:
                    insts.append({'kind': 'write', 'rec': next(r.choice(writes))})
                elif k < .82:
                    insts.append({'kind': 'pipe', 'rec': self.pipe(r, cat)})
                elif k < .92:
                    insts.append({'kind': 'dump', 'rec': next(r.choice(dumps))})
                else:
                    n = r.choice(sorted(others))
                    insts.append({'kind': n, 'rec': next(others[n])})
            yield {'insts': insts, 'share': r.random() < .8,
                   'order': [r.randrange(len(insts)) for _ in range(r.choice([0, 10, 60]))], 'ctx': None}

    def script(self, prop, model, rec):
        group, order = rec
        docs = genman.MODEL_GROUPS[group - 1]
        k = sum(w * (i + 1) for i, w in enumerate(order))
        rd = [{'codec': d['codec'], 'doc': d['doc'], 'man': True, 'cat': genman.MODEL_CATALOG, 'sizes': None, 'skips': [], 'late': k % 3 == 0} for d in docs]
        insts = [{'kind': 'read', 'rec': x} for x in rd]
        if k % 4 == 0:
            # what one reads is written as it comes
            b = k % 8 == 0
            insts[0] = {'kind': 'pipe', 'rec': {'read': dict(rd[0], late=False, block=None), 'write': {'bin': b, 'imports': genman.MODEL_CATALOG[:1] if b else [], 'indent': None, 'events': []}}}
        yield {'insts': insts, 'share': True, 'order': [w - 1 for w in order], 'ctx': None}

    def reading(self, r, cat):
        codec = r.choice(['bin', 'bin', 'text', 'bytes'])
        man = r.random() < .65
        if man:
            d = genman.doc(r, codec, cat, odd=.15, high=.03)
        elif codec == 'bin':
            d = genbin.BinGen(r).doc()
            if r.random() < .2:
                d = genbin.mutate(r, d)
        else:
            s = gentext.TextGen(r, versions=True).doc()
            if r.random() < .2:
                s = gentext.mutate(r, s)
            d = [ord(c) for c in s] if codec == 'text' else list(s.encode('utf-8', 'replace'))
        rec = {'codec': codec, 'doc': d[:400], 'man': man, 'cat': cat if man else [], 'sizes': chunking(r, len(d)) if r.random() < .6 else None,
               'skips': [r.randrange(1, 8)] if r.random() < .3 else [], 'late': r.random() < .4}
        if r.random() < .15 and d:
            rec['block'] = {'buffer': r.choice([None, 1, 3, 8]), 'sizes': None}
            rec['sizes'] = None
        return rec

    def pipe(self, r, cat):
        rd = dict(self.reading(r, cat), sizes=None, skips=[], late=False, block=None)
        b = r.random() < .5
        imports = genwrite.imports(r) if b and r.random() < .4 else []
        return {'read': rd, 'write': {'bin': b, 'imports': imports, 'indent': None if b else r.choice([None, ' ']), 'events': []}}


FAMILIES = [Mix()]
