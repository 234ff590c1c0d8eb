"""Exhaustive checks of the specification itself, whose behaviours are then replayed in the code.

A model is a module of spec/ with invariants; what it prints are behaviours, which a family
turns into recipes.  run gives {'name', 'states', 'distinct', 'invariants', 'records'}.
"""
import json
import os
import shutil

import fam_conv
import fam_eq
import genman
import genpy
import genwrite
import tlc
import writers


def chars(s):
    return [ord(c) for c in s]


BIN = [[], [0xB2], [0xB4], [0xC3], [0xD3], [0xD2, 0x84], [0xBE, 0x83], [0xE4, 0x81, 0x84], [0xE3, 0x81], [0x52, 0xC1], [0x53], [0x63, 0xC0], [0x65, 0xC0, 0x0F, 0xD0],
       [0x67, 0x80, 0x0F, 0xD0, 0x81, 0x81], [0x69, 0x80, 0x0F, 0xD0, 0x81, 0x81, 0x80, 0x80], [0x82], [0x8E, 0x82], [0x72], [0x02], [0x0E], [0x48, 0x7F, 0xF0, 0, 0, 0, 0], [0xDE, 0x84],
       [0xD1, 0x83], [0xB3, 0xB2], [0xE0, 0x01, 0x00], [0x32], [0x29] + [0] * 7]
OCTETS = [0x00, 0x01, 0x0E, 0x0F, 0x10, 0x11, 0x1F, 0x20, 0x21, 0x30, 0x31, 0x40, 0x50, 0x51, 0x60, 0x71, 0x80, 0x81, 0x82, 0x84, 0x91, 0xA1, 0xB0, 0xB1, 0xBE, 0xBF,
          0xC0, 0xC1, 0xD0, 0xD1, 0xD2, 0xDE, 0xE0, 0xE3, 0xE4, 0xEA, 0xEE, 0xF0, 0xFF]
TEXT = ['', '[', '(', '{', '{a', '{a:', '{a:1', 'a', 'a::', "'", "''", "'''", "'''a'", '"', '"\\', '"\\x4', '"\\u00e', "'''\\", '{{', '{{"', "{{'''", '{{YQ', '1', '-', '0', '0x', '0b1', '1.', '1e', '1d-',
        '1_', '+', '-in', '2000', '2000-', '2000-01', '2000-01-01T', '2000-01-01T00:0', '2000-01-01T00:00:00', '2000-01-01T00:00:00.', 'nul', 'null', 'null.', 'null.in', 'nan',
        'tru', '$', '$1', '$ion_1_', '/', '//', '/*', '/* *', '(a', '(-', '(+', '(.', '("a"', "('a'", '[1', '[1,', '1 ', "'a'", "'a':", "'''a''' ", 'a:', '\r', '"\\\r', '{"a"', "{'''a'''"]
CHARS = '\'"\\/*[({})],:a1-.$_TZe+n= \n'

REQUESTED = [(codec, list(d) if codec == 'bin' else chars(d), man) for codec, d, man in [
    ('bin', [0xE0, 1, 0, 0xEA, 0xD3, 0x84, 0xB1, 0x20], False), ('bin', [0xE0, 1, 0, 0xEA, 0xB2, 0x21, 0x05, 0x11], True),
    ('bin', [0xE0, 1, 0, 0xEA, 0xEA, 0x81, 0x83, 0xD7, 0x87, 0xB2, 0x81, 0x61, 0x71, 0x0A, 0x0F], True), ('text', '[1,(a)]b ', False), ('bytes', '{a:1} ', False),
    ('text', 'abc', False), ('bytes', '"a" ', True), ('text', '$ion_1_0 [{}] ', True), ('text', '[1,2', False), ('bytes', 'a::/**/b', True), ('text', "'''a''' '''b'''", False)]]

MODELS = {
    'protocol': lambda deep: ('MCProtocol', {}, ['Faithful', 'Complete', 'Waits'],
                              {'n': 20 if deep else 14, 'docs': [{'codec': c, 'doc': d, 'man': man, 'cat': [], 'block': False} for c, d, man in REQUESTED]}),
    'structs': lambda deep: ('MCStructs', {'N': 4, 'Objects': 3 if deep else 2}, ['Counted', 'Law'], None),
    'buffer': lambda deep: ('MCBuffer', {'N': 5 if deep else 4}, ['Conserved'], None),
    'tables': lambda deep: ('MCTables', {'N': 4 if deep else 3, 'Kind': '"tables"'}, ['Laws', 'Sized', 'Registered'], None),
    'catalog': lambda deep: ('MCTables', {'N': 5 if deep else 4, 'Kind': '"catalog"'}, ['Laws', 'Sized', 'Registered'], None),
    'stamp': lambda deep: ('MCStamp', {'Wide': 'TRUE' if deep else 'FALSE'}, ['Agrees'], None),
    'calendar': lambda deep: ('MCCalendar', {'Stride': 1461, 'Window': 1461 if deep else 70}, ['Calendar'], None),
    'binary': lambda deep: ('MCBinary', {}, ['WellNested', 'Causal', 'SkipIsRead'], {'n': 3 if deep else 2, 'items': OCTETS, 'beginnings': BIN}),
    'managed': lambda deep: ('MCManaged', {}, ['Agree', 'Clean', 'System', 'Resolved'], {'n': 4 if deep else 3, 'items': genman.MODEL_ITEMS, 'cat': genman.MODEL_CATALOG}),
    'copies': lambda deep: ('MCCopy', {}, ['Copied'], {'n': 4 if deep else 3, 'items': [x['b'] for x in genman.MODEL_ITEMS], 'cat': genman.MODEL_CATALOG,
                                                       'contexts': [{'bin': b, 'imports': i, 'badimp': False, 'cat': i} for b, i in [(True, []), (False, []), (True, genman.MODEL_CATALOG[1:2])]]}),
    'write': lambda deep: ('MCWrite', {}, ['WellNested', 'Writable'], {'n': 4, 'docs': False, 'contexts': genwrite.MODEL_CONTEXTS,
                                                                       'events': [writers.spec_event(e) for e in genwrite.MODEL_EVENTS]}),
    'values': lambda deep: ('MCWrite', {}, ['WellNested', 'Writable'], {'n': 1, 'docs': True, 'contexts': genwrite.MODEL_CONTEXTS[1:],
                                                                        'events': [writers.spec_event(e) for e in genwrite.MODEL_VALUES]}),
    'equal': lambda deep: ('MCEq', {}, ['Equivalence', 'OfInstants', 'Weaker'], {'values': [genpy.spec(n) for n in fam_eq.DOMAIN]}),
    'dump': lambda deep: ('MCDump', {}, ['RoundTrip', 'Settled', 'SameIsSame'], {'values': [genpy.spec(n) for n in genpy.MODEL_VALUES]}),
    'conversions': lambda deep: ('MCConv', {}, ['Whole', 'Told'], {'n': 3, 'makes': [fam_conv.spec_request(q) for q in fam_conv.MODEL_MAKES],
                                                                   'requests': [fam_conv.spec_request(q) for q in fam_conv.MODEL_REQUESTS]}, ['Still']),
    'side by side': lambda deep: ('MCMix', {}, ['Independent'], {'groups': genman.MODEL_GROUPS, 'cat': genman.MODEL_CATALOG}),
    'text': lambda deep: ('MCText', {}, ['WellNested', 'Causal', 'Final'], {'n': 3 if deep else 2, 'items': chars(CHARS), 'beginnings': [chars(s) for s in TEXT]}),
}


CAP = {'quick': 12000, 'thorough': 120000}


def run(name, tier, seed='1', workers=8):
    module, constants, invariants, params = MODELS[name](tier == 'thorough')[:4]
    properties = MODELS[name](tier == 'thorough')[4:]
    cfg = 'SPECIFICATION Spec\n' + ''.join('CONSTANT %s = %s\n' % c for c in constants.items()) + ''.join('INVARIANT %s\n' % i for i in invariants) + ''.join('PROPERTY %s\n' % q for ps in properties for q in ps)
    work = tlc.scratch()
    try:
        path = os.path.join(work, 'params.json')
        with open(path, 'w') as f:
            json.dump(params or {}, f)
        r = tlc.run(module, cfg, {'PARAMS': path}, workers=workers, timeout=600)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if r['violated']:
        # the specification does not depend on the code: it is at fault
        raise tlc.TlcError('the specification breaks its own law %s (%s):\n%s' % (r['violated'], module, '\n'.join(l for l in r['output'].splitlines() if not l.startswith(('"@@', 'Parsing', 'Semantic', 'Linting')))[-3000:]))
    recs = sorted(r['records'], key=json.dumps)      # TLC's workers print in any order
    step = max(1, -(-len(recs) // CAP.get(tier, CAP['quick'])))
    r['records'] = recs[int(seed) % step::step]
    return {'name': name, 'module': module, 'constants': constants, 'invariants': invariants, 'states': r['states'], 'distinct': r['distinct'], 'seconds': round(r['seconds'], 2),
            'behaviours': len(recs), 'replayed': len(r['records']), 'records': r['records']}


if __name__ == '__main__':
    import sys
    import time
    for name in sys.argv[2:] or sorted(MODELS):
        t = time.time()
        try:
            r = run(name, sys.argv[1])
            print(name, r['states'], r['distinct'], r['behaviours'], r['replayed'], '%.1f s' % (time.time() - t), flush=True)
        except tlc.TlcError as exc:
            print(name, str(exc)[:1500], flush=True)
