"""Projection of what the code under test shows to its callers into the
encoding of the specification (spec/IonBase.tla).  Nothing here judges."""
import struct
from datetime import datetime, timedelta
from decimal import Decimal
from math import isnan

TYPE_NAMES = ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string',
              'clob', 'blob', 'list', 'sexp', 'struct')
KINDS = {'SCALAR': 'val', 'CONTAINER_START': 'start', 'CONTAINER_END': 'end', 'VERSION_MARKER': 'ivm',
         'INCOMPLETE': 'inc', 'STREAM_END': 'eos'}


class Malformed(Exception):
    """The value handed out is not of the Python type the API promises."""


def cps(text):
    """Code points of a str; surrogate pairs of separate units stay separate."""
    return [ord(c) for c in text]


def digits(n):
    return [int(c) for c in str(abs(n))]


def clamp(n):
    """Integers TLC can hold; larger ones only ever have to differ."""
    return max(-2000000000, min(2000000000, n))


def tok(token):
    """A symbol token: SymbolToken, str, or None."""
    if token is None:
        return []
    if isinstance(token, str):
        return [[1], cps(token)]
    text = getattr(token, 'text', None)
    sid = getattr(token, 'sid', None)
    if text is not None:
        if not isinstance(text, str):
            raise Malformed('token text %r' % (text,))
        return [[1], cps(text)]
    loc = getattr(token, 'location', None)
    if loc is not None:
        return [[2], cps(loc.name), [clamp(loc.position)]]
    return [[0], [sid if sid < 1000000000 else 1073741824]]  # as the specification saturates


def decimal_value(d):
    sign, ds, exp = d.as_tuple()
    if not isinstance(exp, int):
        raise Malformed('decimal %r' % (d,))
    ds = list(ds)
    while len(ds) > 1 and ds[0] == 0:
        ds.pop(0)
    return [[sign], [clamp(exp)], ds or [0]]


def fraction(fs):
    """Fractional seconds as digits written out after the point."""
    sign, ds, exp = fs.as_tuple()
    if exp >= 0:
        if any(ds):
            raise Malformed('fractional seconds %r' % (fs,))
        return []
    n = -exp
    ds = list(ds)
    while len(ds) > n and ds[0] == 0:
        ds.pop(0)
    if len(ds) > n or (sign and any(ds)):
        raise Malformed('fractional seconds %r' % (fs,))
    # (fractions of thousands of digits are outside the specification: what matters is that they do not weigh)
    return [0] * min(n - len(ds), 3000) + ds[:max(0, 3000 - n + len(ds))]


def offset_minutes(off):
    secs = off.days * 86400 + off.seconds
    if secs % 60 or off.microseconds:
        raise Malformed('offset %r' % (off,))
    return secs // 60


def timestamp_value(ts):
    precision = getattr(ts, 'precision', None)
    prec = 5 if precision is None else int(precision) + 1
    off = ts.utcoffset()
    if hasattr(ts, 'fractional_seconds'):
        fs = ts.fractional_seconds
        fr = [] if fs is None else fraction(fs)
        # the normalised fields have to agree with one another
        six = (fr + [0] * 6)[:6]
        micro = int(''.join(map(str, six)))
        if micro != ts.microsecond:
            raise Malformed('microsecond %r of %r' % (ts.microsecond, fs))
        if ts.fractional_precision != min(len(fr), 6):
            raise Malformed('fractional precision %r of %r' % (ts.fractional_precision, fs))
    else:
        fr = [int(c) for c in '%06d' % ts.microsecond]
    return [[prec], [ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second],
            [0 if off is None else 1], [0 if off is None else offset_minutes(off)], [len(fr)], fr]


def float_value(f):
    if isnan(f):
        return [[127, 248, 0, 0, 0, 0, 0, 0]]
    return [list(struct.pack('>d', f))]


def value(type_name, v):
    if v is None:
        return []
    if type_name == 'bool':
        if not isinstance(v, (bool, int)) or v not in (0, 1):
            raise Malformed('bool %r' % (v,))
        return [[1 if v else 0]]
    if type_name == 'int':
        if not isinstance(v, int) or isinstance(v, bool):
            raise Malformed('int %r' % (v,))
        return [[1 if v < 0 else 0], digits(v)]
    if type_name == 'float':
        if not isinstance(v, float):
            raise Malformed('float %r' % (v,))
        return float_value(float(v))
    if type_name == 'decimal':
        if not isinstance(v, Decimal):
            raise Malformed('decimal %r' % (v,))
        return decimal_value(v)
    if type_name == 'timestamp':
        if not isinstance(v, datetime):
            raise Malformed('timestamp %r' % (v,))
        return timestamp_value(v)
    if type_name == 'symbol':
        if not isinstance(v, str) and not hasattr(v, 'text'):
            raise Malformed('symbol %r' % (v,))
        return tok(v)
    if type_name == 'string':
        if not isinstance(v, str):
            raise Malformed('string %r' % (v,))
        return [cps(v)]
    if type_name in ('clob', 'blob'):
        if not isinstance(v, bytes):
            raise Malformed('lob %r' % (v,))
        return [list(v)]
    raise Malformed('%s %r' % (type_name, v))


def type_of(ion_type):
    return '' if ion_type is None else TYPE_NAMES[int(ion_type)]


def event(ev):
    """An IonEvent.  Looking at a deferred value may raise: the caller records that."""
    kind = KINDS[ev.event_type.name]
    if kind in ('inc', 'eos'):
        return {'e': kind, 't': '', 'v': [], 'f': [], 'a': [], 'd': 0}
    t = type_of(ev.ion_type)
    if kind == 'ivm':
        return {'e': kind, 't': '', 'v': [[clamp(x) for x in ev.value]], 'f': [], 'a': [], 'd': ev.depth}
    v = []
    if kind == 'val':
        v = value(t, ev.value)
    f = tok(ev.field_name)
    a = [tok(x) for x in ev.annotations]
    d = ev.depth
    return {'e': kind, 't': t, 'v': v, 'f': f, 'a': a, 'd': d if isinstance(d, int) else -1}


def error(exc):
    return {'e': 'hang' if type(exc).__name__ == 'Hang' else 'err', 't': type(exc).__name__, 'v': [], 'f': [], 'a': [], 'd': 0}
