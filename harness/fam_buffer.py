"""Histories of the reader's input buffer.

A recipe: {'u': unicode or not, 'ops': [{'op', 'd': units, 'n': number}]}.
"""
import fam_base
import guard
from fam_base import budget

from amazon.ion.reader import BufferQueue


class Buffers(fam_base.Family):
    name = 'buffer'
    module = 'TraceBuffer'

    def run(self, recipe):
        u = recipe['u']
        b = BufferQueue(u)
        data = (lambda d: u''.join(map(chr, d))) if u else bytes
        ops = []
        for q in recipe['ops']:
            out, exc = guard.call(lambda: self.do(b, u, q, data))
            k = 'ok'
            if exc is not None:
                k, out = ('hang' if isinstance(exc, guard.Hang) else 'err'), []
            ops.append({'q': {'op': q['op'], 'd': q['d'], 'n': q['n']}, 'r': {'k': k, 'v': out, 'len': len(b), 'pos': b.position}})
        return {'ops': ops}

    def units(self, u, x):
        if u:
            if not isinstance(x, str):
                raise AssertionError('%r is no text' % (x,))
            return [ord(c) for c in x]
        if not isinstance(x, bytes):
            raise AssertionError('%r is no bytes' % (x,))
        return list(x)

    def unit(self, x):
        if BufferQueue.is_eof(x):
            return -1
        if not isinstance(x, int):
            raise AssertionError('%r is no unit' % (x,))
        return int(x)

    def do(self, b, u, q, data):
        op = q['op']
        if op == 'extend':
            b.extend(data(q['d']))
        elif op == 'wrong':
            b.extend(u'a' if not u else b'a')
        elif op == 'eof':
            b.mark_eof()
        elif op == 'read':
            return self.units(u, b.read(q['n']))
        elif op == 'byte':
            return [self.unit(b.read_byte())]
        elif op == 'skip':
            return [b.skip(q['n'])]
        elif op == 'rest':
            return [self.unit(c) for c in b]
        elif op == 'unread':
            c = q['d'][0]
            b.unread(chr(c) if u and q['n'] else c)
        return []

    def features(self, recipe, case):
        return {'%s %s %s' % ('text' if recipe['u'] else 'bytes', o['q']['op'], o['r']['k']) for o in case['ops']}

    def script(self, prop, model, rec):
        for u in (False, True):
            yield {'u': u, 'ops': rec + [{'op': 'rest', 'd': [], 'n': 0}]}

    def recipes(self, prop, rng, share, shares, tier):
        r = rng
        for _ in range(budget(tier, 16000, shares)):
            u = r.random() < .5
            ops, queue, last, pos = [], [], [], 0
            units = [97, 98, 0, 255, 233] if not u else [97, 98, 0, 0x20AC, 0x1F600, 0xFFFF]
            for _ in range(r.choice([4, 10, 30, 60])):
                op = r.choice(['extend'] * 4 + ['read'] * 4 + ['byte'] * 4 + ['skip', 'skip', 'unread', 'unread', 'unread', 'wrong', 'rest', 'read', 'eof'][:9 - (r.random() < .9)])
                q = {'op': op, 'd': [], 'n': 0}
                clean = -1 not in queue
                if op == 'extend':
                    if not clean:
                        continue
                    q['d'] = [r.choice(units) if r.random() < .5 else r.randrange(256) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9]))]
                    queue = queue + q['d']
                elif op == 'eof':
                    if not clean:
                        continue
                    queue = queue + [-1]
                elif op == 'unread':
                    if pos and (not last or last[-1] == -1):
                        continue
                    if not last:
                        q['d'] = [r.choice(units)]
                    else:
                        q['d'] = [last[-1]]
                        if r.random() < .04:
                            q['d'] = [r.choice(units)]
                    q['n'] = r.randrange(2)
                    if pos:
                        if q['d'][0] != last[-1]:
                            ops += [q, {'op': r.choice(['rest', 'byte']), 'd': [], 'n': 0}]
                            break
                        queue, last, pos = q['d'] + queue, last[:-1], pos - 1
                else:
                    n = r.choice([0, 1, 1, 2, 3, len(queue), len(queue) + 1, r.randrange(len(queue) + 2)])
                    if op == 'byte':
                        n = 1
                    elif op == 'rest':
                        n = len(queue)
                    q['n'] = n if op in ('read', 'skip') else 0
                    if op == 'read' and -1 in queue[:n] and n <= len(queue):
                        continue      # what reading an end gives is not said
                    if op == 'wrong' or n > len(queue) and op != 'skip':
                        pass
                    else:
                        n = min(n, len(queue))
                        last, queue, pos = last + queue[:n], queue[n:], pos + n
                ops.append(q)
            yield {'u': u, 'ops': ops}


FAMILIES = [Buffers()]
