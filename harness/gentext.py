"""Generation of Ion text documents: valid by construction, broken by mutation,
and exhaustive over small alphabets.  It chooses inputs; it does not judge."""
import itertools
import re

WS = [' ', '\n', '\t', '\r\n', '  ', '\r', '\x0b', '\x0c', '/* c */', '// c\n', '/**/', '\n\n', '/* ** / */']
WSW = [30, 6, 2, 2, 2, 1, 1, 1, 2, 2, 1, 1, 1]
IDENTS = ['a', 'b', 'foo', '_x', '$', '$a', 'x1', 'nul', 'nulls', 'tru', 'falsey', 'nano', 'inf', 'e1', 'T', 'name',
          '$ion', 'symbols', '$ion_1', 'version', 'null_', 'int', 'Z', '$1a', 'ab_c9']
SIDS = ['$0', '$1', '$4', '$9', '$10', '$007', '$12345']
TEXTS = ['', 'a', 'abc', ' ', 'a b', '10', '$10', 'null', '+', '\u00e9', '\u20ac\u4e2d', '\U0001f600', "it's", 'q"q', '::', '//x',
         'true', '$ion_1_0', '\u007e', '\u0080', '\u07ff\u0800', '\uffff', '\U0010ffff']
OPS = ['+', '-', '*', '.', '..', '!', '<=', '&&', '?', '@', '^', '`', '|', '~', '#', '%', ';', '=', '>', '+=', '-.', '++']
LOBTEXT = ['', 'a', 'abc', ' ', 'hello world', '!~', 'x' * 20]
RAW_ESC = ['\\0', '\\a', '\\b', '\\t', '\\n', '\\f', '\\r', '\\v', '\\"', "\\'", '\\?', '\\\\', '\\/', '\\x41', '\\xff', '\\x00',
           '\\x7f', '\\xE9', '\\xa0']
UNI_ESC = ['\\u0041', '\\u00e9', '\\uFFFF', '\\U0001F600', '\\U00000041', '\\uD83D\\uDE00', '\\u20AC', '\\U0010FFFF', '\\u0000']


def choice(rng, seq):
    return seq[rng.randrange(len(seq))]


class TextGen(object):
    def __init__(self, rng, unicode_ok=True, comments=True, sids=True, versions=False, max_depth=4):
        self.rng = rng
        self.unicode_ok = unicode_ok
        self.comments = comments
        self.sids = sids
        self.versions = versions
        self.max_depth = max_depth
        self.near = 0          # probability of a token put together from the pieces of its kind, valid or not

    def ws(self, need=False, lob=False):
        r = self.rng
        if not need and r.random() < 0.5:
            return ''
        out = ''
        for _ in range(1 if r.random() < 0.85 else 2):
            w = r.choices(WS, WSW)[0]
            if '/' in w and (lob or not self.comments):
                w = ' '
            out += w
        if need and not out.strip('/*c') and '/' in out:
            out = ' ' + out
        return out

    def esc_text(self, s, quote, long=False, clob=False):
        """Spells s out, sometimes with escapes."""
        r = self.rng
        out = ''
        for c in s:
            if c == quote or c == '\\' or (c == "'" and long):
                out += '\\' + c
            elif clob or ord(c) > 0xffff or r.random() < 0.9:
                out += c
            elif ord(c) < 256 and r.random() < .5:
                out += '\\x%02x' % ord(c)
            else:
                out += '\\u%04X' % ord(c)
        while r.random() < 0.25:
            e = choice(r, RAW_ESC if clob or r.random() < .6 else UNI_ESC)
            k = r.randrange(len(out) + 1) if '\\' not in out else len(out)
            out = out[:k] + e + out[k:]
        if r.random() < 0.06:
            out += choice(r, ['\\\n', '\\\r\n', '\\\r', '\t'])
        if long and r.random() < 0.3:
            out += choice(r, ['\n', '\r\n', '\r', "'x", "''y", '"', '\t'])
        return out

    def text(self):
        r = self.rng
        t = choice(r, TEXTS)
        if r.random() < .2:
            t += choice(r, TEXTS)
        if not self.unicode_ok:
            t = ''.join(c for c in t if ord(c) < 128)
        return t

    def short_string(self):
        return '"' + self.esc_text(self.text(), '"') + '"'

    def long_string(self, clob=False):
        r = self.rng
        segs = []
        for _ in range(r.choices([1, 2, 3], [6, 3, 1])[0]):
            t = choice(r, LOBTEXT) if clob else self.text()
            segs.append("'''" + self.esc_text(t, "'", True, clob) + "'''")
        return self.ws(lob=clob).join(segs)

    def quoted_symbol(self):
        return "'" + self.esc_text(self.text(), "'") + "'"

    def symbol(self):
        r = self.rng
        if self.near and r.random() < self.near / 4:
            return choice(r, [self.near_word, self.near_quoted, self.near_number])() or 'a'
        k = r.random()
        if k < .55:
            return choice(r, IDENTS)
        if k < .7 and self.sids:
            return choice(r, SIDS)
        return self.quoted_symbol()

    def digits(self, n=None, lead=True):
        r = self.rng
        n = n or r.choices([1, 2, 3, 6, 12, 25], [8, 6, 3, 2, 1, 1])[0]
        s = ''.join(str(r.randrange(10)) for _ in range(n))
        if not lead:
            s = s.lstrip('0') or '0'
        if len(s) > 2 and r.random() < .15:
            k = r.randrange(1, len(s))
            s = s[:k] + '_' + s[k:]
        return s

    def int_(self):
        r = self.rng
        sign = '-' if r.random() < .3 else ''
        k = r.random()
        if k < .6:
            return sign + choice(r, [self.digits(lead=False), '0', '127', '128', '65536', '2147483648', '9223372036854775808',
                                     '18446744073709551616'])
        if k < .8:
            h = ''.join(choice(r, '0123456789abcdefABCDEF') for _ in range(r.randrange(1, 10)))
            if len(h) > 2 and r.random() < .2:
                h = h[:1] + '_' + h[1:]
            return sign + choice(r, ['0x', '0X']) + h
        b = ''.join(choice(r, '01') for _ in range(r.randrange(1, 12)))
        if len(b) > 2 and r.random() < .2:
            b = b[:1] + '_' + b[1:]
        return sign + choice(r, ['0b', '0B']) + b

    def real(self, exps, big):
        r = self.rng
        s = ('-' if r.random() < .3 else '') + self.digits(lead=False)
        if r.random() < .6:
            s += '.' + (self.digits() if r.random() < .85 else '')
        if exps:
            e = choice(r, exps) + choice(r, ['', '+', '-'])
            e += str(r.randrange(0, big)) if r.random() < .8 else choice(r, ['0', '00', '07', '5'])
            s += e
        elif '.' not in s:
            s += '.'
        return s

    def float_(self):
        r = self.rng
        if r.random() < .2:
            return choice(r, ['nan', '+inf', '-inf', '0e0', '-0e0', '0.0e0', '-0.0E1', '1e308', '5e-324', '2e-324', '1.7976931348623157e308',
                              '1.7976931348623159e308', '1e400', '-1e400', '2.2250738585072014e-308', '9007199254740993e0', '0.1e0',
                              '2.2250738585072011e-308', '1e23', '8.5e-1'])
        return self.real(['e', 'E'], 25)

    def decimal(self):
        r = self.rng
        if r.random() < .5:
            return self.real([], 0)
        return self.real(['d', 'D'], 60)

    def timestamp(self):
        r = self.rng
        y = choice(r, ['2001', '1999', '2000', '0001', '9999', '2016', '1900', '2100'])
        m = '%02d' % r.randrange(1, 13)
        d = choice(r, ['01', '28', '%02d' % r.randrange(1, 29)])
        if r.random() < .1:
            m, d = choice(r, [('02', '29'), ('02', '30'), ('04', '31'), ('12', '31'), ('01', '31')])
        k = r.random()
        if k < .1:
            return y + 'T'
        if k < .2:
            return y + '-' + m + 'T'
        if k < .4:
            return y + '-' + m + '-' + d + choice(r, ['', 'T'])
        t = '%02d:%02d' % (r.randrange(24), r.randrange(60))
        if r.random() < .75:
            t += ':%02d' % r.randrange(60)
            if r.random() < .6:
                t += '.' + ''.join(str(r.randrange(10)) for _ in range(r.choices([1, 3, 6, 7, 9, 20, 35], [3, 5, 4, 2, 2, 1, 1])[0]))
        if r.random() < .15 and '.' in t:
            t = t.split('.')[0] + '.' + choice(r, ['0', '000', '000000', '0000000', '9999999', '100', '0001'])
        off = choice(r, ['Z', 'Z', '-00:00', '+00:00', '%s%02d:%02d' % (choice(r, '+-'), r.randrange(24), r.randrange(60))])
        return y + '-' + m + '-' + d + 'T' + t + off

    def blob(self):
        import base64
        r = self.rng
        data = bytes(bytearray(r.randrange(256) for _ in range(r.randrange(0, 12))))
        b = base64.b64encode(data).decode()
        if r.random() < .3 and b:
            k = r.randrange(len(b))
            b = b[:k] + self.ws(True, True) + b[k:]
        return '{{' + self.ws(lob=True) + b + self.ws(lob=True) + '}}'

    def clob(self):
        r = self.rng
        if r.random() < .6:
            t = '"' + self.esc_text(choice(r, LOBTEXT), '"', clob=True) + '"'
        else:
            t = self.long_string(True)
        return '{{' + self.ws(lob=True) + t + self.ws(lob=True) + '}}'

    # ---- tokens that may or may not be valid

    def near_timestamp(self):
        r = self.rng
        parts = [choice(r, ['2001', '2000', '1999', '0000', '9999', '200', '20011'] if r.random() < .2 else ['2001', '2000']), '-',
                 choice(r, ['02', '12', '00', '13', '1']) if r.random() < .3 else '02', '-',
                 choice(r, ['29', '30', '31', '32', '00', '1', '001']) if r.random() < .3 else '28', 'T',
                 choice(r, ['24', '23', '0', '99', '000']) if r.random() < .2 else '12', ':',
                 choice(r, ['60', '59', '0', '99']) if r.random() < .2 else '34', ':',
                 choice(r, ['60', '59', '0', '61']) if r.random() < .2 else '56', '.', choice(r, ['7', '', '012', '0000000', '999999999'])]
        off = [choice(r, '+-'), choice(r, ['00', '23', '24', '0', '12']), ':', choice(r, ['00', '59', '60', '0'])] if r.random() < .5 else ['Z']
        n = choice(r, [2, 4, 6, 6, 6, 9, 9, 11, 11, 13, 13, 1, 3, 5, 7, 8, 10, 12])
        parts = parts[:n]
        if n >= 7 and r.random() < .85 or r.random() < .2:
            parts += off
        elif n < 6 and r.random() < .7:
            parts.append('T')
        while r.random() < .3:
            k = r.randrange(len(parts) + 1)
            x = choice(r, ['T', 'Z', '-', '+', '.', ':', '0', '12', '_', 't', 'z', ' ', '-00:00'])
            parts[k:k + choice(r, [0, 1])] = [x]
        if r.random() < .15:
            k = r.randrange(len(parts))
            del parts[k]
        return ''.join(parts)

    def near_number(self):
        r = self.rng
        if r.random() < .4:
            s = choice(r, [self.int_, self.real_any, self.float_, self.decimal])()
            k = r.randrange(len(s) + 1)
            return s[:k] + choice(r, '0123456789._-+eEdDxXbBafT') + s[k + r.randrange(2):]
        return choice(r, '0123456789-') + ''.join(choice(r, choice(r, ['0123456789', '01', '._', 'eEdD', '+-', 'xXbB', 'afT_']))
                                                  for _ in range(r.randrange(1, 8)))

    def real_any(self):
        return self.real(choice(self.rng, [['e'], ['d'], []]), 30)

    def near_char(self):
        r = self.rng
        return choice(r, [chr(r.randrange(32)), chr(r.randrange(32)), chr(r.randrange(0x20, 0x7f)), chr(0x7f), chr(r.randrange(0x80, 0x100)), '\n', "'", '"'])

    def near_escape(self):
        r = self.rng
        hx = lambda n: ''.join(choice(r, '0123456789abcdefABCDEF' if r.random() < .9 else 'gG_ x"\'\\') for _ in range(n))
        k = r.random()
        if k < .4:
            return '\\' + self.near_char()
        if k < .6:
            return '\\x' + hx(choice(r, [2, 2, 2, 1, 3]))
        if k < .8:
            return '\\u' + hx(choice(r, [4, 4, 4, 3, 5]))
        return '\\U' + ''.join(choice(r, ['000', '001', '0', '00']) + hx(choice(r, [5, 5, 4, 6])))

    def near_quoted(self, quotes=('"', "'", "'''")):
        r = self.rng
        q = choice(r, quotes)
        body = ''
        for _ in range(r.randrange(0, 5)):
            k = r.random()
            body += choice(r, ['a', 'bc', ' ', '0']) if k < .4 else self.near_char() if k < .65 else self.near_escape()
        if r.random() < .8 and q in body and q == '"':
            body = body.replace(q, '')
        end = q if r.random() < .9 else choice(r, ['', "'", '"', "''", "'''"])
        return q + body + end

    def near_lob(self):
        r = self.rng
        k = r.random()
        if k < .5:
            body = ''.join(choice(r, choice(r, ['ABab', '01', '+/', '=', ' \n\t', '\r\x0b\x0c', '-_', 'g'][:6 if r.random() < .9 else 8])) for _ in range(r.randrange(0, 10)))
            if r.random() < .4:
                x = [c for c in body if c not in ' \n\t\r\x0b\x0c=']
                body = body.replace('=', '') + '=' * (-len(x) % 4)
        else:
            body = ' '.join(self.near_quoted(("'''", "'''", '"', '"', "'") if r.random() < .2 else ('"',) if r.random() < .5 else ("'''",))
                            for _ in range(choice(r, [1, 1, 1, 2, 2, 0])))
        ws = lambda: choice(r, ['', '', '', ' ', '\n', '/* c */', '// c\n', '\x00', '\x0b'])
        return choice(r, ['{{', '{{', '{{', '{{', '{{', '{ {', '{{{']) + ws() + body + ws() + choice(r, ['}}', '}}', '}}', '}}', '}}', '} }', '}', '}}}'])

    def near_word(self):
        r = self.rng
        k = r.random()
        if k < .45:
            return choice(r, ['null', 'null', 'nul', 'nulll', 'Null']) + choice(r, ['', '.', '.', '.', '..', ' .', '._']) + choice(r, [
                '', 'null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp', 'struct',
                'lists', 'symbo', 'Int', 'int_', 'int1', 'time', 'nul', 'str', '1'])
        if k < .65:
            return choice(r, ['+inf', '-inf', '+nan', '-nan', 'inf', 'nan', '+infinity', '-in', '+i', 'nan.', 'inf.', '+ inf', '-inf.', '+inf_', '-infe', 'nane'])
        if k < .8:
            return choice(r, ['true', 'false', 'True', 'tru', 'falsee', 'true_', 'true.', 'false$', 'fals'])
        return choice(r, ['$', '$1', '$01', '$1a', '$_', '$-1', '$ 1', '$ion_1_0', '$ion_1_1', '_', '__', 'a-b', 'a.b', 'a$b', 'a\u00e9', '\u00e9', 'a b', '$99999', 'a\x00'])

    def near_token(self):
        r = self.rng
        return r.choices([self.near_timestamp, self.near_number, self.near_quoted, self.near_lob, self.near_word,
                          lambda: choice(r, OPS + [',', ':', '::', '/', '//', '/*', '*/', ';', '=', '{', '}', '[', ']', '(', ')', '{{', '}}', "''"])],
                         [5, 5, 5, 4, 4, 1])[0]()

    def null(self):
        return choice(self.rng, ['null', 'null.null', 'null.bool', 'null.int', 'null.float', 'null.decimal', 'null.timestamp',
                                 'null.symbol', 'null.string', 'null.clob', 'null.blob', 'null.list', 'null.sexp', 'null.struct'])

    def scalar(self):
        r = self.rng
        if self.near and r.random() < self.near:
            return self.near_token() or 'a'
        return r.choices([self.null, lambda: choice(r, ['true', 'false']), self.int_, self.float_, self.decimal,
                          self.timestamp, self.symbol, self.short_string, self.long_string, self.clob, self.blob],
                         [4, 3, 7, 5, 5, 6, 9, 5, 4, 3, 3])[0]()

    def annotated(self, depth, sexp=False):
        r = self.rng
        s = ''
        while r.random() < .15:
            s += self.symbol() + self.ws() + '::' + self.ws()
        return s + self.value(depth, sexp)

    def value(self, depth, sexp=False):
        r = self.rng
        if depth < self.max_depth and r.random() < .3:
            return choice(r, [self.list_, self.sexp, self.struct])(depth + 1)
        if sexp and r.random() < .2:
            return choice(r, OPS)
        return self.scalar()

    def count(self):
        return self.rng.choices([0, 1, 2, 3, 5], [2, 4, 3, 2, 1])[0]

    def list_(self, depth):
        r = self.rng
        items = [self.ws() + self.annotated(depth) + self.ws() for _ in range(self.count())]
        s = ','.join(items)
        if items and r.random() < .15:
            s += ',' + self.ws()
        return '[' + s + self.ws() + ']'

    def sexp(self, depth):
        s = ''
        prev = ''
        for _ in range(self.count()):
            v = self.annotated(depth, True)
            s += self.sep(prev, v) + v
            prev = v
        return '(' + self.ws() + s + self.ws() + ')'

    def field(self):
        r = self.rng
        if self.near and r.random() < self.near / 4:
            return choice(r, [self.near_word, self.near_quoted, self.near_number])() or 'a'
        k = r.random()
        if k < .6:
            return choice(r, IDENTS)
        if k < .7 and self.sids:
            return choice(r, SIDS)
        if k < .8:
            return self.quoted_symbol()
        if k < .92:
            return self.short_string()
        return self.long_string()

    def struct(self, depth):
        r = self.rng
        items = [self.ws() + self.field() + self.ws() + ':' + self.ws() + self.annotated(depth) + self.ws()
                 for _ in range(self.count())]
        s = ','.join(items)
        if items and r.random() < .15:
            s += ',' + self.ws()
        return '{' + s + self.ws() + '}'

    def sep(self, prev, nxt):
        """Whitespace between two values of a stream or s-expression."""
        r = self.rng
        if prev == '':
            return self.ws()
        tight = prev[-1] in ')]}"' and nxt[0] in '([{"'
        return self.ws(need=not tight)

    def doc(self, n=None):
        r = self.rng
        n = n if n is not None else r.choices([0, 1, 2, 3, 6], [1, 8, 5, 3, 1])[0]
        s = self.ws()
        prev = ''
        for _ in range(n):
            if self.versions and r.random() < .06:
                v = '$ion_1_0'
            else:
                v = self.annotated(0)
            s += self.sep(prev, v) + v
            prev = v
        s += self.ws() if r.random() < .6 else ''
        if self.comments and r.random() < .06:
            s += choice(r, ['//', '// c', ' //', '/**///', '//\r', '/*c*/'])       # the data ends with a comment
        return s


MUT_CHARS = list('{}[]()"\',:./\\*+-_$ \n\t0123789aenTZxbE=') + ['\x00', '\x7f', '\u00e9', '\x01', 'null', '::', "'''", '{{', '}}', '0x', '\\u', 'T']


def mutate(rng, s):
    out = s
    for _ in range(rng.choices([1, 2], [4, 1])[0]):
        k = rng.randrange(len(out) + 1)
        op = rng.randrange(5)
        if op == 0 and out:
            out = out[:k] + out[k + 1:]
        elif op == 1:
            out = out[:k] + choice(rng, MUT_CHARS) + out[k:]
        elif op == 2 and out:
            out = out[:k] + choice(rng, MUT_CHARS) + out[k + 1:]
        elif op == 3 and out:
            out = out[:k]
        elif out:
            a = rng.randrange(len(out))
            b = min(len(out), a + rng.randrange(1, 6))
            out = out[:k] + out[a:b] + out[k:]
    return out


# Tokens for exhaustive enumeration of short documents
TOKENS = ['1', '-', '0', '_', '.', 'e', 'd', 'a', 'null', '$1', "'", "''", "'''", '"', '[', ']', '(', ')', '{', '}', ',', ':', '::', ' ',
          '//', '/*', '*/', '\n', '\\', 'T', '+', 'x', 'nan', 'inf', '/']


def exhaustive(tokens, length):
    for k in range(1, length + 1):
        for p in itertools.product(tokens, repeat=k):
            yield ''.join(p)


# near misses that grammar-directed generation rarely meets
CORNERS = [
    '', ' ', '//', '// c', '/* c */', '/* c', '/', '/x', 'a//b', 'a/*b*/c', '1//c', '1/*c*/ 2', '1/2', '1/', 'a/b', '(a/b)', '(/)', '(//)',
    '00', '01', '-01', '0x', '0x_1', '0x1_', '0b', '0b2', '0b12', '1_', '1__0', '_1', '1_0', '1._0', '1_.0', '1.0_', '1.0_0', '-', '-a', '--1',
    '- 1', '+1', '1.', '-1.', '.1', '1.e5', '1.d5', '1e', '1e+', '1e5.', '1d', '1d+', '1D-3', '1E5', '1.5.5', '1e5e5', '0e0', '-0', '-0.', '-0e0',
    '-0d0', '-0x0', '0x0', '1a', '1null', '1"a"', '1\'a\'', '1[2]', '1(2)', '1{a:2}', '1,2', '1;', '1}', '1]', '1)', 'nan', 'nan1', '+inf',
    '-inf', '+infinity', '-infx', '+inf1', '+inf,', '+inf[]', '+in', '+i', 'inf', '-nan', '(+inf -inf nan)', '(-inf+inf)', '(+in)',
    'null', 'null.', 'null.null', 'null.nul', 'null.intx', 'null.int1', 'null .int', 'null. int', 'null.int::1', 'null::1', 'true::1', 'nan::1',
    'false::1', 'nullx::1', "'null'::1", '"a"::1', "'''a'''::1", 'a::', 'a:: ', 'a::b::', 'a:1', 'a: :1', 'a ::1', 'a:: 1', 'a/*c*/::/*c*/1',
    'a//c\n::1', "''::1", '$1::1', '::1', 'a:::1', 'a::::1', '{a:1}', '{a::1}', '{a:b::1}', '{a:1,}', '{,}', '{a:1,,}', '{a:1 b:2}', '{a}', '{a:}',
    '{a 1}', '{1:1}', '{null:1}', '{true:1}', '{nan:1}', "{'null':1}", '{"null":1}', '{"a" "b":1}', "{'''a''' '''b''':1}", "{'''a''':1}", '{$1:1}',
    '{+:1}', '{"":1}', "{'':1}", '{a:1,a:2}', '{a: b:: 1}', '{"a"::1}', '{ }', '{{}', '{{}}', '{{ }}', '{}}', '{{a}}', '{{aa==}}', '{{aaa=}}',
    '{{aaaa}}', '{{a a a a}}', '{{aa=}}', '{{a===}}', '{{aaaaa}}', '{{=aaa}}', '{{aa=a}}', '{{ab==cd==}}', '{{aaaa} }', '{ {aaaa}}',
    '{{"a"}}', '{{ "a" }}', '{{"a" "b"}}', '{{"a"/*c*/}}', '{{/*c*/"a"}}', "{{'''a'''}}", "{{'''a''' '''b'''}}", "{{'''a'''/*c*/'''b'''}}",
    "{{'a'}}", '{{"\u00e9"}}', '{{"\\u0041"}}', '{{"\\x41"}}', '{{"\\xff"}}', '{{"a\nb"}}', "{{'''a\nb'''}}", "{{'''a\r\nb'''}}", '{{"a"}', '{{"a',
    '{{//}}', '{{/+}}', '{{+/+/}}', "{{''''''}}", '{{""}}', 'a::{{}}', '[', ']', '[]', '[ ]', '[,]', '[1,]', '[1,,2]', '[1 2]', '[,1]', '[1', '[1,',
    '[a b]', '["a""b"]', "['''a''' '''b''']", "['''a''','''b''']", '[a::]', '[a::1,b::2]', '[1)', '(1]', '{a:1]', '[(])', '()', '( )', '(a b)', '(a,b)',
    '(1 2)', '(1+2)', '(a+b)', '(a.b)', '(+ 1 2)', '(- 1)', '(-1)', '(-a)', '(a::+)', '(+::a)', '(+ ::a)', '(. . .)', '(1 .)', '(..)', '(+)', '(a:b)',
    '"', '"a', '"a\nb"', '"a\\\nb"', '"a\\\r\nb"', '"\\', '"\\q"', '"\\x4"', '"\\x4g"', '"\\u004"', '"\\U0011FFFF"', '"\\U00110000"', '"\\uD800"',
    '"\\uDC00"', '"\\uD83D\\uDE00"', '"\\uD83Dx"', '"\x00"', '"\x01"', '"\t"', '"\x0b"', '"\x0c"', '"\x1f"', "'a\nb'", "'a\\\nb'", "'\x01'", "'\t'",
    "'''a", "'''a'", "'''a''", "'''a'''", "'''a''''", "'''a''' '", "'''a''' ''", "'''a''' ''''''", "'''a'''b", "'''a''' 'b'", "'''a''' '' ",
    "'''a'b'''", "'''a''b'''", "'''\\''''", "'''a\nb'''", "'''a\r\nb'''", "'''a\rb'''", "'''a\\\nb'''", "''''''", "'''a'''//c\n'''b'''",
    "'''a'''/*c*/'''b'''", "'a''b'", "''", "'' ''", "'a'", "'a", "'", "'a':", "a'b'", "'a'b", '"a"b', 'a"b"', '"a""b"', 'a[b]', 'a(b)', 'a{b:1}',
    '[1]2', '{}a', '()a', 'a,b', ',', ':', ';', '=', '#', '@', '`', '\\', '}', ')', 'a;b', '\u00e9', 'a\u00e9', '\x00', '\x01', 'a\x00', '1\x00', '\ufeff1',
    '2001T', '2001', '2001-', '2001-0', '2001-01', '2001-01T', '2001-01-', '2001-01-01', '2001-01-01T', '2001-1-1', '2001-01-01T0', '2001-01-01T00',
    '2001-01-01T00Z', '2001-01-01T00:00', '2001-01-01T00:00Z', '2001-01-01T00:00:00', '2001-01-01T00:00:00Z', '2001-01-01T00:00:00.Z',
    '2001-01-01T00:00:00.0Z', '2001-01-01T00:00:00.000Z', '2001-01-01T00:00:00.1+00:00', '2001-01-01T00:00-00:00', '2001-01-01T00:00+23:59',
    '2001-01-01T00:00+24:00', '2001-01-01T00:00+00:60', '2001-01-01T24:00Z', '2001-01-01T00:60Z', '2001-01-01T00:00:60Z', '2001-02-29', '2000-02-29',
    '1900-02-29', '2001-00-01', '2001-13-01', '2001-01-00', '2001-01-32', '0000T', '0001T', '9999-12-31T23:59:59.999999999Z', '2001-01-01TZ',
    '2001TZ', '2001-01TZ', '2001-01-01Z', '2001-01-01T00:00z', '2001-01-01T00:00Z1', '2001-01-01T00:00Z/**/', '2001-01-01T00:00Za', '02001T',
    '-2001T', '2001-01-01T00:00+0000', '2001-01-01T00:00+00', '2001-01-01T00:00:00.12345678901234567890123456789012345Z', '0001-01-01T00:00+23:59',
    '9999-12-31T23:59-23:59', '2001T01T', '2001-01T01T', '20010T', '200T', '2001t', '2001-01-01t', '2001-01-01T00:00:00+', '2001-01-01,2', '(2001-01-01)',
    '[2001-01-01,2002T]', '{a:2001T}', '$ion_1_0', '$ion_1_1', '$ion_2_0', '$ion_1_0::a', 'a::$ion_1_0', "'$ion_1_0'", '[$ion_1_0]', '$ion_1_0 1',
    '$ion_1_0//c', '$ion_', '$ion_1', '$ion_1_', '$ion_1_0_0', '$ion_01_0', '$ion_10_0', '$ion_1_0a', '$ion_1_0 $ion_1_0', '$ion_1_0"a"', '$', '$$',
    '$1a', '$a1', '$-1', '$99999', '{$ion_1_0:1}', '$ion_symbol_table', '\x0b1\x0c', '1\x0b', '1\x0c2', 'a\x0bb', '"a"\x0c', '[1\x0b,\x0c2]',
]


def big(rng, share):
    """Long and deep documents."""
    if share == 0:
        yield '"' + 'abcdefghij' * 60 + '" ' + "'''" + 'x' * 200 + "'''\n'''" + 'y' * 200 + "''' 1"
    elif share == 1:
        yield '[(' * 25 + 'a' + ')]' * 25 + ' b'
        yield '{a:' * 40 + '1' + '}' * 40 + ' c'
        yield 'a::' * 60 + 'b'
    elif share == 2:
        yield '[' + ','.join(str(k) for k in range(150)) + ']'
        yield '7' * 300 + ' -' + '3' * 150 + '.' + '9' * 150 + ' 0x' + 'f' * 120
    else:
        import base64
        yield '{{' + base64.b64encode(bytes(bytearray(rng.randrange(256) for _ in range(300)))).decode() + '}} {{"' + 'c' * 300 + '"}}'
        yield '/* ' + 'c' * 500 + ' */ 1 //' + 'd' * 300 + '\n2'
