"""Ion values as plain data, and their encoding as text and binary by the generators.

node: {'a': [token...], 't': type, 'v': ...}; token: int (a symbol ID) or str.
v: None for null; bool; int (int); str for text; list of (token, node) or of nodes.
"""
import genbin

IDENT = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$0123456789')
CODE = {'null': 0, 'bool': 1, 'int': 2, 'float': 4, 'decimal': 5, 'timestamp': 6, 'symbol': 7, 'string': 8, 'clob': 9, 'blob': 10,
        'list': 11, 'sexp': 12, 'struct': 13}


def node(t, v, a=()):
    return {'t': t, 'v': v, 'a': list(a)}


def text_token(t):
    if isinstance(t, int):
        return '$%d' % t
    if t and all(c in IDENT for c in t) and not t[0].isdigit() and not (t[0] == '$' and t[1:].isdigit()) \
            and t not in ('null', 'true', 'false', 'nan'):
        return t
    return "'" + t.replace('\\', '\\\\').replace("'", "\\'") + "'"


def to_text(n):
    s = ''.join(text_token(a) + '::' for a in n['a'])
    t, v = n['t'], n['v']
    if v is None:
        return s + ('null' if t == 'null' else 'null.' + t)
    if t == 'bool':
        return s + ('true' if v else 'false')
    if t in ('int', 'timestamp', 'decimal', 'float'):
        return s + str(v)
    if t == 'symbol':
        return s + text_token(v)
    if t == 'string':
        return s + '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if t == 'list':
        return s + '[' + ','.join(to_text(x) for x in v) + ']'
    if t == 'sexp':
        return s + '(' + ' '.join(to_text(x) for x in v) + ')'
    return s + '{' + ','.join(text_token(f) + ':' + to_text(x) for f, x in v) + '}'


def tlv(t, body):
    if len(body) < 14 and not (t == 13 and len(body) == 1):
        return [t << 4 | len(body)] + body
    return [t << 4 | 14] + genbin.varuint(len(body)) + body


def to_bin(n):
    t, v = n['t'], n['v']
    if v is None:
        out = [CODE[t] << 4 | 15]
    elif t == 'bool':
        out = [0x11 if v else 0x10]
    elif t == 'int':
        out = tlv(3 if v < 0 else 2, genbin.uint(abs(v)))
    elif t == 'symbol':
        out = tlv(7, genbin.uint(v))
    elif t == 'string':
        out = tlv(8, list(v.encode('utf-8')))
    elif t in ('list', 'sexp'):
        out = tlv(CODE[t], sum((to_bin(x) for x in v), []))
    elif t == 'struct':
        out = tlv(13, sum((genbin.varuint(f) + to_bin(x) for f, x in v), []))
    else:
        raise ValueError(t)
    if n['a']:
        a = sum((genbin.varuint(x) for x in n['a']), [])
        out = tlv(14, genbin.varuint(len(a)) + a + out)
    return out
