"""Generation of Ion binary documents.  It chooses inputs; it does not judge."""


def choice(rng, seq):
    return seq[rng.randrange(len(seq))]


IVM = [0xE0, 0x01, 0x00, 0xEA]


def varuint(n, pad=0):
    out = [0x80 | (n & 0x7f)]
    n >>= 7
    while n:
        out.insert(0, n & 0x7f)
        n >>= 7
    return [0] * pad + out


def varint(n, pad=0, neg=None):
    neg = (n < 0) if neg is None else neg
    n = abs(n)
    groups = []
    while n >= 64:
        groups.insert(0, n & 0x7f)
        n >>= 7
    groups.insert(0, n & 0x3f)
    if pad:
        groups = [0] * pad + groups
    groups[0] |= 0x40 if neg else 0
    groups[-1] |= 0x80
    return groups


def uint(n):
    out = []
    while n:
        out.insert(0, n & 0xff)
        n >>= 8
    return out


def int_(n, neg=None):
    neg = (n < 0) if neg is None else neg
    m = uint(abs(n)) or ([0] if neg else [])
    if not m:
        return []
    if m[0] & 0x80:
        m.insert(0, 0)
    if neg:
        m[0] |= 0x80
    return m


class BinGen(object):
    bad = 0     # how often one of the constructs the encoding excludes is put where a value belongs

    def __init__(self, rng, max_depth=4, nops=True, sids=None):
        self.rng = rng
        self.max_depth = max_depth
        self.nops = nops
        self.sids = sids or [0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 127, 128, 300]

    def tlv(self, t, body):
        r = self.rng
        n = len(body)
        if n < 14 and r.random() < .85 and not (t == 13 and n == 1):
            return [t << 4 | n] + body
        return [t << 4 | 14] + varuint(n, 1 if r.random() < .1 else 0) + body

    def mag(self):
        r = self.rng
        k = r.choices([0, 1, 2, 3, 4, 5, 8, 9, 16], [2, 6, 4, 2, 3, 1, 2, 1, 1])[0]
        out = [r.randrange(256) for _ in range(k)]
        if r.random() < .2:  # octets that carry no information, and lengths around those of machine words
            lead = r.choices([1, 4, 7, 8, 9, 16, 17], [3, 1, 2, 3, 2, 2, 1])[0]
            out = [choice(r, [0, 0, 0, 0, 0xff])] * lead + [choice(r, [0, 1, 0x7f, 0x80, 0xff])] * (r.random() < .6) + out
        return out

    def sid(self):
        return choice(self.rng, self.sids)

    def scalar(self):
        r = self.rng
        k = r.randrange(13)
        if k == 0:
            return [choice(r, [0x0F, 0x1F, 0x2F, 0x3F, 0x4F, 0x5F, 0x6F, 0x7F, 0x8F, 0x9F, 0xAF, 0xBF, 0xCF, 0xDF])]
        if k == 1:
            return [choice(r, [0x10, 0x11])]
        if k == 2:
            return self.tlv(2, self.mag())
        if k == 3:
            m = self.mag()
            if not any(m):
                m = [1]
            return self.tlv(3, m)
        if k == 4:
            if r.random() < .2:
                return [0x40]
            n = choice(r, [4, 8])
            body = [r.randrange(256) for _ in range(n)]
            if r.random() < .3:
                body = choice(r, [[0x7f, 0x80, 0, 0], [0xff, 0x80, 0, 0], [0x7f, 0xc0, 0, 1], [0, 0, 0, 1], [0x80, 0, 0, 0], [0, 0x40, 0, 0],
                                  [0x7f, 0xf0] + [0] * 6, [0xff, 0xf0] + [0] * 6, [0x7f, 0xf8] + [0] * 6, [0] * 7 + [1], [0x80] + [0] * 7,
                                  [0x3f, 0x80, 0, 0], [0, 0x7f, 0xff, 0xff]])
            return [0x40 | len(body)] + body
        if k == 5:
            if r.random() < .1:
                return [0x50]
            e = varint(r.randrange(-40, 40) if r.random() < .8 else r.randrange(-3000, 3000), 1 if r.random() < .1 else 0,
                       True if r.random() < .05 else None)
            c = choice(r, [[], [0], [0x80], int_(r.randrange(-300, 300)), int_(r.randrange(-10 ** 12, 10 ** 12)), self.mag()])
            return self.tlv(5, e + c)
        if k == 6:
            return self.tlv(6, self.timestamp())
        if k == 7:
            return self.tlv(7, ([0] if r.random() < .1 else []) + uint(self.sid()))
        if k == 8:
            s = ''.join(choice(r, ['a', 'b', ' ', '\u00e9', '\u20ac', '\U0001f600', '\x00', 'long text ']) for _ in range(r.randrange(6)))
            return self.tlv(8, list(s.encode('utf-8')))
        if k in (9, 10):
            return self.tlv(k, self.mag() if r.random() < .8 else [r.randrange(256) for _ in range(r.randrange(12, 150))])
        return self.tlv(2, [r.randrange(256)])

    def timestamp(self):
        r = self.rng
        off = choice(r, [0, 0, r.randrange(-1439, 1440), r.randrange(-12, 13) * 60])
        unk = r.random() < .3
        prec = r.choices([1, 2, 3, 5, 6, 7], [1, 1, 2, 3, 4, 6])[0]
        if prec <= 3:
            unk = True
        out = varint(0, neg=True) if unk else varint(off, 1 if r.random() < .05 else 0)
        y = choice(r, [2000, 2001, 1999, 2016, 1900, 9998, 2, 1970])
        mo = r.randrange(1, 13)
        da = choice(r, [1, 28, r.randrange(1, 29), 31, 30, 29] if r.random() < .3 else [1, 15, 28])
        out += varuint(y)
        if prec >= 2:
            out += varuint(mo)
        if prec >= 3:
            out += varuint(da)
        if prec >= 5:
            out += varuint(r.randrange(24)) + varuint(r.randrange(60))
        if prec >= 6:
            out += varuint(r.randrange(60))
        if prec >= 7:
            n = r.choices([0, 1, 3, 6, 7, 9, 20, 30], [1, 2, 4, 3, 2, 3, 1, 1])[0]
            if n == 0:
                out += varint(choice(r, [0, 3, -2, -6]))
            else:
                out += varint(-n) + int_(r.randrange(10 ** n) if r.random() < .8 else r.randrange(10 ** max(0, n - 2)))
        return out

    def nop(self):
        r = self.rng
        n = r.choices([0, 1, 3, 13, 20], [5, 3, 2, 1, 1])[0]
        if n < 14 and r.random() < .8:
            return [n] + [r.randrange(256) for _ in range(n)]
        return [0x0E] + varuint(n) + [r.randrange(256) for _ in range(n)]

    def annotated(self, body, names=None):
        a = sum((varuint(self.sid()) for _ in range(self.rng.choice([1, 1, 2]) if names is None else names)), [])
        body = varuint(len(a)) + a + body
        return ([0xE0 | len(body)] if 2 < len(body) < 14 else [0xEE] + varuint(len(body))) + body

    def excluded(self, depth):
        """Something that is not Ion, of the size it claims to have or not."""
        r = self.rng
        v = self.scalar() if depth + 1 >= self.max_depth else self.value(depth + 1)
        k = r.randrange(14)
        if k == 0:
            return self.annotated(self.annotated(v))
        if k == 1:
            return self.annotated(self.nop())
        if k == 2:
            return self.annotated(v, 0)
        if k == 3:                          # a wrapper with more or less than its value
            return self.annotated(v + choice(r, [[0x20], [0], self.scalar()]) if r.random() < .5 else v[:-1])
        if k == 4:
            return IVM if depth else [0xE0] + choice(r, [[2, 0, 0xEA], [1, 1, 0xEA], [1, 0, 0xEB], [0, 0, 0xEA], [1, 0]])
        if k == 5:
            return self.annotated(IVM)
        if k == 6:
            return [choice(r, [0x12, 0x1E, 0x41, 0x42, 0x45, 0x4E, 0xE0, 0xE1, 0xE2, 0xEF, 0xF0, 0xF1, 0xFE, 0xFF, 0x30])] + v
        if k == 7:
            return choice(r, [[0x31, 0], [0x32, 0, 0], [0x3E, 0x80], [0x3E, 0x81, 0], [0x30]])
        if k == 8:
            return choice(r, [[0xD1, 0x80], [0xD1, 0x81] + varuint(self.sid()), [0xD1, 0x81, 0x20], [0xD1, 0, 0x81, 0x84]])
        if k == 9:
            return self.tlv(8, choice(r, [[0x80], [0xC0, 0x80], [0xED, 0xA0, 0x80], [0xF4, 0x90, 0x80, 0x80], [97, 0xE2, 0x82], [0xFF], [0xF5, 0x80, 0x80, 0x80]]))
        if k == 10:
            t = self.timestamp()
            t = choice(r, [t[:1], t + [0x80], [0xC0, 0x0F, 0xD0, choice(r, [0x80, 0x8D])], [0x80, 0x0F, 0xD1, 0x82, choice(r, [0x80, 0x9E, 0xA0]), 0x80, 0x80],
                           [0x80, 0x0F, 0xD0, 0x81, 0x81, choice(r, [0x98, 0x80]), choice(r, [0xBC, 0xFF]), 0x80], [0x80, 0x0F, 0xD0, 0x81, 0x81, 0x80],
                           [0x80, 0x0F, 0xD0, 0x81, 0x81, 0x80, 0x80, 0xBC], [0x80, 0x0F, 0xD0, 0x81, 0x81, 0x80, 0x80, 0x80, 0xC2, 100], [0x80, 0x0F, 0xD0, 0x81, 0x81, 0x80, 0x80, 0x80, 0xC2, 0x81]])
            return self.tlv(6, t)
        if k == 11:                         # a container that ends inside of its last member
            t = choice(r, [11, 12, 13])
            m = (varuint(self.sid()) if t == 13 else []) + self.tlv(choice(r, [2, 8, 10, 11, 12]), [0x21, 0x05] * r.randrange(1, 5))
            m = self.annotated(m) if t != 13 and r.random() < .3 else m
            body = m if r.random() < .5 else (varuint(self.sid()) if t == 13 else []) + [0x11] + m
            n = len(body) - r.randrange(1, min(5, len(body)))
            return ([t << 4 | n] if n < 14 and not (t == 13 and n == 1) else [t << 4 | 14] + varuint(n)) + body
        if k == 12:                         # a member that lacks its value, or a length that does not end
            return self.tlv(choice(r, [11, 12]), [choice(r, [0x2E, 0x8E, 0xBE, 0xDE, 0xEE, 0x0E])]) if r.random() < .5 else self.tlv(13, varuint(self.sid()))
        return self.tlv(choice(r, [11, 12]), choice(r, [[choice(r, [1, 2, 13])], [0x0E, 0x85, 0], [0x82, 97], [0x21], [0xE3, 0x81, 0x84], [0xB1], [0xBE, 0x90]]))

    def value(self, depth):
        r = self.rng
        if self.bad and r.random() < self.bad:
            return self.excluded(depth)
        if depth < self.max_depth and r.random() < .35:
            v = self.container(depth + 1)
        else:
            v = self.scalar()
        if r.random() < .15:
            a = []
            for _ in range(r.choices([1, 2, 3, r.randrange(4, 70)], [60, 20, 10, 1])[0]):
                a += varuint(self.sid())
            body = varuint(len(a)) + a + v
            return self.tlv(14, body)
        return v

    def container(self, depth):
        r = self.rng
        t = choice(r, [11, 12, 13])
        body = []
        sid = 0
        ordered = t == 13 and r.random() < .15
        for _ in range(r.choices([0, 1, 2, 3, 5, r.randrange(6, 40)], [20, 40, 30, 20, 10, 1])[0]):
            if t == 13:
                if ordered:
                    sid += r.randrange(1, 4)
                    body += varuint(sid)
                else:
                    body += varuint(self.sid(), 1 if r.random() < .05 else 0)
            if self.nops and r.random() < .08:
                body += self.nop()
            else:
                body += self.value(depth)
        if ordered and body:
            return [0xD1] + varuint(len(body)) + body
        return self.tlv(t, body)

    def doc(self, n=None):
        r = self.rng
        out = list(IVM)
        n = n if n is not None else r.choices([0, 1, 2, 3, 6], [1, 8, 5, 3, 1])[0]
        for _ in range(n):
            if r.random() < .05:
                out += IVM
            if self.nops and r.random() < .05:
                out += self.nop()
            out += self.value(0)
        return out


INTERESTING = [0x00, 0x01, 0x0E, 0x0F, 0x10, 0x11, 0x1F, 0x20, 0x21, 0x2E, 0x2F, 0x30, 0x31, 0x3F, 0x40, 0x44, 0x48, 0x4F, 0x50, 0x51, 0x52,
               0x5F, 0x60, 0x61, 0x62, 0x63, 0x6F, 0x70, 0x71, 0x7F, 0x80, 0x81, 0x84, 0x8E, 0x8F, 0x90, 0x91, 0xA0, 0xA1, 0xB0, 0xB1, 0xB2, 0xBE,
               0xBF, 0xC0, 0xC1, 0xCF, 0xD0, 0xD1, 0xD2, 0xD3, 0xDE, 0xDF, 0xE0, 0xE1, 0xE2, 0xE3, 0xE4, 0xE5, 0xEA, 0xEE, 0xEF, 0xF0, 0xFF]


def mutate(rng, doc):
    out = list(doc)
    for _ in range(rng.choices([1, 2], [4, 1])[0]):
        k = rng.randrange(min(4, len(out)), len(out) + 1) if rng.random() < .95 else rng.randrange(len(out) + 1)
        op = rng.randrange(5)
        b = choice(rng, INTERESTING) if rng.random() < .7 else rng.randrange(256)
        if op == 0 and k < len(out):
            del out[k]
        elif op == 1:
            out.insert(k, b)
        elif op == 2 and k < len(out):
            out[k] = b
        elif op == 3:
            out = out[:max(k, 1)]
        elif k < len(out):
            out[k] = (out[k] + choice(rng, [1, -1, 16, -16, 128])) % 256
    return out


def h(s):
    return [int(x, 16) for x in s.split()]


CORNERS = [IVM + h(s) for s in [
    '', '0F', '00', '01 00', '02 00', '0E 80', '0E 81 FF', '0E 01', '0D', '10', '11', '12', '1E', '1F', '20', '21 00', '22 00 01', '2E 80', '2E 81 05',
    '2E 00 81 05', '30', '31 00', '31 01', '32 00 00', '3E 80', '3F', '40', '41 00', '42 00 00', '44 00 00 00 00', '45 00 00 00 00 00', '4E 84 00 00 00 00',
    '50', '5E 80', '6E 80', '7E 80', '51 80', '51 C0', '51 00', '52 80 00', '52 80 80', '52 C1 05', '52 C1 85', '53 00 80 01', '53 40 81 01', '5E 82 C1 05', '5F', '60', '61 80', '62 80 81',
    '62 C0 81', '63 C0 0F D1', '63 80 0F D1', '64 C0 0F D1 81', '65 C0 0F D1 81 81', '66 C0 0F D1 81 81 80', '67 C0 0F D1 81 81 80 80', '67 80 0F D1 81 81 80 80',
    '68 80 0F D1 81 81 80 80 80', '68 80 0F D1 8D 81 80 80 80', '68 80 0F D1 80 81 80 80 80', '68 80 0F D1 82 9D 80 80 80', '68 80 0F D1 81 80 80 80 80',
    '68 80 0F D1 81 81 98 80 80', '68 80 0F D1 81 81 80 BC 80', '68 80 0F D1 81 81 80 80 BC', '69 80 0F D1 81 81 80 80 80 C3', '69 80 0F D1 81 81 80 80 80 80',
    '69 80 0F D1 81 81 80 80 80 83', '6A 80 0F D1 81 81 80 80 80 C1 01', '6A 80 0F D1 81 81 80 80 80 C1 09', '6A 80 0F D1 81 81 80 80 80 C1 0A',
    '6A 80 0F D1 81 81 80 80 80 80 01', '6A 80 0F D1 81 81 80 80 80 80 00', '6A 80 0F D1 81 81 80 80 80 C1 81', '6A 80 0F D1 81 81 80 80 80 81 00',
    '6A 80 0F D1 81 81 80 80 80 C1 80', '69 43 A4 0F D0 81 81 80 80 80', '69 03 A4 0F D0 8C 9F 97 BB BB', '69 0B A0 0F D0 81 81 80 80 80', '69 4B A0 0F D0 81 81 80 80 80',
    '69 0B 9F 0F D0 81 81 80 80 80', '63 C0 80', '63 C0 00 80', '64 C0 00 00 81', '70', '71 00', '71 0A', '72 00 0A', '72 01 00', '7E 81 0A', '7F', '80', '81 61',
    '81 80', '82 C3 A9', '82 C0 80', '83 E2 82 AC', '83 ED A0 80', '84 F0 9F 98 80', '84 F4 90 80 80', '82 E2 82', '81 C3', '8E 81 61', '8F', '90', '91 FF', '9E 81 00',
    'A0', 'A1 00', 'AE 80', 'AF', 'B0', 'B1 20', 'B1 21', 'B2 21 01', 'B2 20 21', 'B3 B2 20 20', 'B2 B2 20 20', 'BE 80', 'BE 81 20', 'BF', 'C0', 'C1 0F', 'C2 00 00',
    'B1 00', 'B1 01', 'B2 01 FF', 'CF', 'D0', 'D1', 'D1 80', 'D1 81', 'D1 82 84 20', 'D1 84 84 20 85 20', 'D1 84 85 20 84 20', 'D1 84 84 20 84 20', 'D1 81 84', 'D2 84 20', 'D2 84 00',
    'D2 80 20', 'D2 80 00', 'D3 84 01 FF', 'D3 84 21 05', 'D3 84 22 05', 'D1 84', 'D3 84 20 84', 'D2 04 84', 'D3 04 84 20', 'D4 84 20 84 20', 'DE 80', 'DE 82 84 20', 'DF', 'E0',
    'E0 01 00 EA', 'E0 01 00 EB', 'E0 01 01 EA', 'E0 02 00 EA', 'E0 01 00', 'E1 81', 'E2 81 84', 'E3 81 84 20', 'E3 81 84 0F', 'E3 81 84 00', 'E4 81 84 01 FF', 'E3 81 84 E0',
    'E6 81 84 E3 81 84 20', 'E7 81 84 E0 01 00 EA', 'E4 82 84 85 20', 'E4 82 04 84 20', 'E4 81 84 20 20', 'E4 81 84 21 01', 'E3 81 84 21 01', 'E5 81 84 B2 20 20', 'E4 81 84 B2 20 20',
    'E3 80 20', 'E3 82 84 20', 'E3 83 84 20', 'E3 81 04 84', 'EE 83 81 84 20', 'EE 82 84 20', 'EE 80', 'EF', 'ED 81 84 2A 00 00 00 00 00 00 00 00 00 01', 'F0', 'FF',
    'B4 E3 81 84 20', 'B3 E3 81 84 20', 'D5 84 E3 81 84 20', 'B4 E0 01 00 EA', 'D5 84 E0 01 00 EA', '20 20 E0 01 00 EA 20', 'D2 8A 20', 'D3 0A 00 20',
    'B6 B2 21 01 21 02 20', 'D6 84 D2 85 20 86 20', 'BE 8F 8E 8C 61 61 61 61 61 61 61 61 61 61 61 61 20', '2E 00 00 00 81 07', '8E 00 81 61', 'B5 C3 D2 84 11 10',
]] + [h('00'), h('20'), h('E0'), h('E0 01 00'), h('E0 01 01 EA'), h('E1 01 00 EA'), h('0F E0 01 00 EA'), []]


def big(rng, share):
    """Long and deep documents."""
    def tlv(t, body):
        return [t << 4 | 14] + varuint(len(body)) + body if len(body) > 13 else [t << 4 | len(body)] + body
    if share == 0:
        yield IVM + tlv(11, tlv(10, [k % 251 for k in range(4100)])) + [0x21, 7] + tlv(13, [0x84] + tlv(12, tlv(8, [97] * 9000)) + [0x85, 0x11]) + [0x21, 8]
        for n in (13, 14, 127, 128, 129, 2000):
            yield IVM + tlv(8, [97 + k % 26 for k in range(n)]) + tlv(10, [k % 256 for k in range(n)]) + [0x11]
    elif share == 1:
        v = [0x20]
        for k in range(60):
            v = tlv(rng.choice([11, 12]), v) if k % 3 else tlv(13, varuint(4 + k) + v)
        yield IVM + v + [0x10]
        v = [0x21, 1]
        for k in range(20):
            v = tlv(14, varuint(1) + varuint(4 + k % 6) + tlv(11, v))
        yield IVM + v
    elif share == 2:
        yield IVM + tlv(11, sum(([0x21, k] for k in range(1, 200)), [])) + tlv(13, sum((varuint(k) + [0x11] for k in range(1, 150)), []))
        yield IVM + tlv(2, [rng.randrange(1, 256) for _ in range(300)]) + tlv(5, varint(-200) + [0x7f] + [rng.randrange(256) for _ in range(200)])
    else:
        yield IVM + [0x0E] + varuint(1000) + [0] * 1000 + [0x11] + tlv(11, [0x0E] + varuint(300) + [7] * 300) + [0x10]


def long_containers(rng):
    """Containers with long content, skipped or not, and something after them."""
    def tlv(t, body):
        return [t << 4 | 14] + varuint(len(body)) + body if len(body) > 13 else [t << 4 | len(body)] + body

    def body(n):
        k = rng.random()
        if k < .4:
            return tlv(rng.choice([8, 9, 10]), [rng.randrange(32, 127) for _ in range(n)])
        if k < .7:
            return [0x21, rng.randrange(256)] * (n // 2)
        return tlv(11, [0x0E] + varuint(n) + [0x0F] * n)
    out = list(IVM)
    for _ in range(rng.randrange(1, 4)):
        n = rng.choice([20, 100, 130, 255, 300, 1000, 1030, 2050, 4090, 4100, 4200, 5000, 8190, 8200])
        inner = body(n)
        for _ in range(rng.randrange(0, 3)):
            inner = tlv(rng.choice([11, 12]), inner + [0x20] * rng.randrange(2)) if rng.random() < .7 else tlv(13, varuint(4) + tlv(11, inner) + varuint(5) + [0x11])
        out += tlv(rng.choice([11, 12]), [0x21, 1] * rng.randrange(2) + inner + [0x11] * rng.randrange(2)) + [0x21, rng.randrange(1, 99)]
    return out
