"""Generation of Python-side values as plain data, and their construction.

A scalar is (type, x): bool: true/false; int: decimal string; float: hex of 8 bytes;
decimal: string; string: str; clob/blob: list of bytes; symbol: a token;
timestamp: {'y': [Y, M, D, h, m, s], 'us': int or None, 'off': minutes or None,
'prec': name or None, 'frac': decimal string or None, 'fp': int or None, 'dt': plain datetime?}.
A token is a str, {'sid': n} (text unknown), {'text': s, 'sid': n} or {'imp': [name, position]}.
"""
import struct
from datetime import datetime, timedelta
from decimal import Decimal

from amazon.ion.core import IonType, OffsetTZInfo, Timestamp, TimestampPrecision
from amazon.ion.symbols import ImportLocation, SymbolToken

TYPES = ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp', 'struct')
SCALARS = TYPES[1:10]
ION = {t: getattr(IonType, t.upper()) for t in TYPES}


def choice(rng, seq):
    return seq[rng.randrange(len(seq))]


ALPHA = ['a', 'b', 'c', 'foo', 'x1', '_', '$', '$a', 'name', 'symbols', 'null', 'true', 'nan', 'false', '$ion', 'version']
ODD = ['', ' ', "'", '"', '\\', "''", "'''", '\n', '\t', '\r', '\0', '\x07', '\x7f', '\x80', '\xa0', '\xe9', '\u2028', '\u4e2d', '\uffff', '\U0001f600',
       '\U0010ffff', '$0', '$10', '$007', '$ion_1_1', '10', '-', '+', '.', 'a b', 'a:b', 'a::b', '//', '/*', '{{', '+inf', 'null.int', 'a\n', '$10\n', '\ufeff', 'é$1',
       '\u0660', '$\u0661', 'aé', '/', '::', '__', '$$', 'a-b', '1a', 'nul', 'nulla', 'NULL', 'True']


def text(rng, odd=.4):
    k = rng.random()
    if k < odd:
        s = choice(rng, ODD)
    elif k < .9:
        s = choice(rng, ALPHA)
    else:
        s = ''
    while rng.random() < .25:
        s += choice(rng, ALPHA + ODD + [chr(rng.randrange(0, 0x180)) for _ in range(4)])
    if rng.random() < .02:
        s += 'k' * rng.choice([13, 14, 127, 128, 130])
    return s


# what the text encoding reads as a version marker when it stands alone
def marker(s):
    return s.startswith('$ion_')


def token(rng, sids=0, odd=.3):
    if sids and rng.random() < .15:
        return {'sid': rng.randrange(0, sids + 1)}
    s = text(rng, odd)
    if rng.random() < .2:
        return {'text': s, 'sid': rng.choice([None, None, 0, 4, 10, 77])}
    return s


def integer(rng):
    k = rng.random()
    if k < .3:
        n = rng.randrange(-10, 300)
    elif k < .8:
        n = rng.choice([-1, 1]) * ((1 << rng.choice([7, 8, 14, 15, 16, 21, 31, 32, 53, 63, 64, 65, 100, 111, 112, 120, 128])) + rng.choice([-1, 0, 1]))
    else:
        n = rng.randrange(-10 ** 25, 10 ** 25)
    return str(n)


def floating(rng):
    k = rng.random()
    if k < .35:
        f = rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e16, 1e15, 1e22, 1e23, 123456789.125, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                        float('inf'), float('-inf'), float('nan'), 1e-7, 0.0001, 1e-5, 100.0, 9007199254740993.0])
    elif k < .7:
        f = rng.choice([-1, 1]) * rng.random() * 10 ** rng.randrange(-20, 20)
    else:
        while True:
            b = bytes(bytearray(rng.randrange(256) for _ in range(8)))
            f = struct.unpack('>d', b)[0]
            if f == f and 1e-60 < abs(f) < 1e60:
                break
    return struct.pack('>d', f).hex()


def decimal(rng):
    k = rng.random()
    if k < .3:
        return rng.choice(['0', '-0', '0.0', '-0.00', '0E+1', '0E-7', '0E-6', '-0E+5', '1', '-1', '1E+1', '1.0', '100', '1E+6', '1E-7', '0.000001', '0.0000001',
                           '12345678901234567890.123456789012345678901234567890', '1E+63', '1E-64', '1E+64', '1E-65', '1E+8191', '1E-8192', '-123.456',
                           '255', '256', '127', '128', '-128', '-127', '32767', '32768', '1E+999999', '9E-999999'])
    n = rng.randrange(-10 ** rng.randrange(1, 40), 10 ** rng.randrange(1, 40))
    e = rng.choice([0, 1, -1, -2, -3, -10, 5, 63, 64, -63, -64, -65, 8191, -8192, rng.randrange(-400, 400)])
    return '%dE%+d' % (n, e)


def month_len(y, m):
    return [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def stamp(rng, plain=.25, loose=.1):
    y = rng.choice([1, 2, 4, 99, 999, 1583, 1899, 1900, 1969, 1970, 1999, 2000, 2004, 2011, 2012, 2100, 9998, 9999])
    mo = rng.choice([1, 2, 2, 3, 6, 11, 12, 12])
    d = rng.choice([1, 1, 2, 15, 28, month_len(y, mo)])
    h, mi, s = rng.choice([0, 0, 1, 12, 22, 23]), rng.choice([0, 0, 1, 30, 59]), rng.choice([0, 0, 1, 30, 59])
    off = rng.choice([None, None, 0, 0, 1, -1, 60, -60, 330, -480, 59, -59, 1439, -1439, 61, -64, 63, 64])
    if y in (1, 9999):
        off = rng.choice([None, 0])
    r = {'y': [y, mo, d, h, mi, s], 'us': None, 'off': off, 'prec': None, 'frac': None, 'fp': None, 'dt': False}
    if rng.random() < plain:
        r['dt'] = True
        r['us'] = rng.choice([0, 0, 1, 10, 500000, 123456, 999999, 120000])
        return r
    prec = rng.choice(['year', 'month', 'day', 'minute', 'second', 'second', 'second', None])
    r['prec'] = prec
    if prec in ('year', 'month', 'day'):
        r['off'] = None
    keep = {'year': 1, 'month': 2, 'day': 3, 'minute': 5}.get(prec, 6)
    if rng.random() >= loose:
        r['y'] = r['y'][:keep] + [1, 1, 1, 0, 0, 0][keep:]
    if keep == 6:
        k = rng.random()
        if k < .35:
            n = rng.choice([0, 1, 2, 3, 5, 6, 7, 9, 12, 30])
            digs = ''.join(rng.choice('0019') for _ in range(n))
            r['frac'] = '0.' + digs if n else rng.choice(['0', '0E+3'])
            if n and rng.random() < .2:
                r['frac'] = '0E-%d' % n
        elif k < .6:
            fp = rng.randrange(0, 7)
            us = rng.randrange(10 ** fp) * 10 ** (6 - fp) if fp else 0
            if rng.random() < .3:
                us = 0
            r['us'], r['fp'] = us, fp
        elif k < .75:
            r['us'] = rng.choice([0, 1, 100000, 123456, 120000])
    return r


def lob(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 13, 14, 15, 20])
    return [rng.choice([0, 9, 10, 13, 34, 39, 65, 92, 123, 125, 127, 128, 255, rng.randrange(256)]) for _ in range(n)]


def scalar(rng, t, sids=0):
    if t == 'bool':
        return rng.random() < .5
    if t == 'int':
        return integer(rng)
    if t == 'float':
        return floating(rng)
    if t == 'decimal':
        return decimal(rng)
    if t == 'timestamp':
        return stamp(rng)
    if t == 'symbol':
        return token(rng, sids)
    if t == 'string':
        return text(rng, .6)
    return lob(rng)


# construction

def build_token(x):
    if x is None or isinstance(x, str):
        return x
    if 'imp' in x:
        return SymbolToken(None, x.get('sid', 12), ImportLocation(x['imp'][0], x['imp'][1]))
    return SymbolToken(x.get('text'), x.get('sid'))


def tz(off):
    return None if off is None else OffsetTZInfo(timedelta(minutes=off))


def build_stamp(x):
    if x['dt']:
        return datetime(*(x['y'] + [x['us']]), tzinfo=tz(x['off']))
    kw = {'precision': getattr(TimestampPrecision, x['prec'].upper()) if x['prec'] else None}
    if x['frac'] is not None:
        kw['fractional_seconds'] = Decimal(x['frac'])
    if x['fp'] is not None:
        kw['fractional_precision'] = x['fp']
    return Timestamp(*(x['y'] + [x['us'], tz(x['off'])]), **kw)


def build(t, x):
    if x is None or t in ('bool', 'string'):
        return x
    if t == 'int':
        return int(x)
    if t == 'float':
        return struct.unpack('>d', bytes.fromhex(x))[0]
    if t == 'decimal':
        return Decimal(x)
    if t == 'timestamp':
        return build_stamp(x)
    if t == 'symbol':
        return build_token(x)
    return bytes(bytearray(x))


# what the constructed values mean, in the encoding of spec/IonBase.tla

def spec_token(x):
    if x is None:
        return []
    if isinstance(x, str):
        return [[1], [ord(c) for c in x]]
    if 'imp' in x:
        return [[2], [ord(c) for c in x['imp'][0]], [x['imp'][1]]]
    if x.get('text') is not None:
        return [[1], [ord(c) for c in x['text']]]
    return [[0], [x['sid']]]


def spec_decimal(x):
    s = x.upper()
    neg = s.startswith('-')
    s = s.lstrip('+-')
    exp = 0
    if 'E' in s:
        s, e = s.split('E')
        exp = int(e)
    if '.' in s:
        s, frac = s.split('.')
        exp -= len(frac)
        s += frac
    return [[1 if neg else 0], [exp], [int(c) for c in s.lstrip('0')] or [0]]


def fraction_digits(x):
    if x['dt']:
        return [int(c) for c in '%06d' % x['us']]
    if x['frac'] is not None:
        neg, (exp,), ds = spec_decimal(x['frac'])
        if exp >= 0:
            return []
        return [0] * (-exp - len(ds)) + ds if ds != [0] else [0] * -exp
    if x['us'] is None:
        return []
    return [int(c) for c in '%06d' % x['us']][:6 if x['fp'] is None else x['fp']]


PRECISIONS = ('year', 'month', 'day', 'minute', 'second')


def spec_stamp(x, written=True):
    """written: as a stream holds it, where what is beyond the precision is lost."""
    prec = 5 if x['prec'] is None else PRECISIONS.index(x['prec']) + 1
    y = list(x['y'])
    if written:
        keep = {1: 1, 2: 2, 3: 3, 4: 5, 5: 6}[prec]
        y = y[:keep] + [1, 1, 1, 0, 0, 0][keep:]
    fr = fraction_digits(x) if prec == 5 or not written else []
    return [[prec], y, [0 if x['off'] is None else 1], [x['off'] or 0], [len(fr)], fr]


def spec(t, x):
    if x is None:
        return []
    if t == 'bool':
        return [[1 if x else 0]]
    if t == 'int':
        n = int(x)
        return [[1 if n < 0 else 0], [int(c) for c in str(abs(n))]]
    if t == 'float':
        b = list(bytes.fromhex(x))
        if (b[0] & 127, b[1] >> 4) == (127, 15) and (b[1] & 15 or any(b[2:])):
            b = [127, 248, 0, 0, 0, 0, 0, 0]
        return [b]
    if t == 'decimal':
        return spec_decimal(x)
    if t == 'timestamp':
        return spec_stamp(x)
    if t == 'symbol':
        return spec_token(x)
    if t == 'string':
        return [[ord(c) for c in x]]
    return [list(x)]
