"""Symbolic text: sequences of code points (symbolic or not) and decimal renderings of integers."""
import re
import z3
from symex import core, data
from symex.core import SymBase, SymInt, SymBool, is_sym, Unsupported, concretize, ite, eq, lt, b_and, b_or, not_


class Dec(object):
    """the decimal digits of a symbolic integer (one opaque piece of a string)"""
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x


def pieces(s):
    if isinstance(s, SymStr):
        return s.cp
    if isinstance(s, str):
        return [ord(c) for c in s]
    raise TypeError('str expected, not %s' % type(s).__name__)


def mkstr(cp):
    for c in cp:
        if type(c) is not int:
            return SymStr(list(cp))
    return ''.join(map(chr, cp))


def concat(parts):
    out = []
    for p in parts:
        out.extend(pieces(p))
    return mkstr(out)


class SymStr(SymBase):
    __slots__ = ('cp',)
    __class__ = property(lambda self: str)

    def __init__(self, cp):
        self.cp = cp

    def _symlen(self):
        if any(isinstance(c, Dec) for c in self.cp):
            raise Unsupported('len of a formatted symbolic integer')
        return len(self.cp)

    def __len__(self):
        return self._symlen()

    def __repr__(self):
        return core._text(self, '<symstr>')

    def __str__(self):
        return '<symstr>'

    def __iter__(self):
        return iter([mkstr([c]) for c in self.cp])

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return concat([self, o])

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return concat([o, self])

    def __mul__(self, n):
        return mkstr(self.cp * concretize(n))

    def __mod__(self, args):
        return str_mod(self, args)

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        if core.RAW_HASH:
            return id(self) >> 4
        return hash(''.join(chr(concretize(c)) for c in self.cp))

    def __bool__(self):
        return bool(self.cp)

    def __getitem__(self, i):
        cp = self.cp
        self._symlen()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return mkstr(cp[slice(*[None if v is None else concretize(v) for v in (i.start, i.stop, i.step)])])
            a, n = data.slice_bounds(i, len(cp))
            a, n = concretize(a), concretize(n)
            return mkstr(cp[a:a + n])
        i = core.as_int(i)
        if is_sym(i):
            i = concretize(i)
        return mkstr([cp[i]])

    def __contains__(self, s):
        return find(self.cp, pieces(s)) != -1

    def _cmp_lt(self, o):
        a, b = self.cp, pieces(o)
        r = len(a) < len(b)
        for i in reversed(range(min(len(a), len(b)))):
            r = b_or(lt(a[i], b[i]), b_and(eq(a[i], b[i]), r))
        return r

    def __lt__(self, o):
        return self._cmp_lt(o)

    def ord(self):
        if len(self.cp) != 1:
            raise TypeError('ord() expected a character')
        return self.cp[0]

    # -- methods -----------------------------------------------------------
    def encode(self, enc='utf-8', errors='strict'):
        enc = enc.lower().replace('_', '-')
        if enc in ('ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            m = 127 if enc == 'ascii' else 255
            for c in self.cp:
                if bool(c > m):
                    raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range')
            return data.mkbytes([core.wrap(c, 8, False) for c in self.cp])
        if enc not in ('utf-8', 'utf8'):
            raise Unsupported('encoding %s' % enc)
        out = []
        for c in self.cp:
            if isinstance(c, Dec):
                raise Unsupported('encode of a formatted integer')
            out.extend(utf8_cells(c, errors))
        return data.mkbytes(out)

    def replace(self, old, new, count=-1):
        return mkstr(replace_cells(self.cp, pieces(old), pieces(new), count))

    def join(self, seq):
        return join(self, seq)

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        p = pieces(p)
        if len(p) > len(self.cp) and not any(isinstance(c, Dec) for c in self.cp):
            return False
        return str_eq(mkstr(self.cp[:len(p)]), mkstr(p))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        p = pieces(p)
        if len(p) > len(self.cp):
            return False
        return str_eq(mkstr(self.cp[len(self.cp) - len(p):]), mkstr(p))

    def lstrip(self, chars=None):
        cp = list(self.cp)
        chars = pieces(chars if chars is not None else ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')
        while cp and bool(b_or(*[eq(cp[0], k) for k in chars])):
            cp.pop(0)
        return mkstr(cp)

    def rstrip(self, chars=None):
        cp = list(self.cp)
        chars = pieces(chars if chars is not None else ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')
        while cp and bool(b_or(*[eq(cp[-1], k) for k in chars])):
            cp.pop()
        return mkstr(cp)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def lower(self):
        return mkstr([_lower(c) for c in self.cp])

    def upper(self):
        return mkstr([_upper(c) for c in self.cp])

    def capitalize(self):
        return mkstr([_upper(c) for c in self.cp[:1]] + [_lower(c) for c in self.cp[1:]])

    def isupper(self):
        cased = b_or(*[b_or(_is_upper(c), _is_lower(c)) for c in self.cp])
        return b_and(cased, *[not_(_is_lower(c)) for c in self.cp])

    def islower(self):
        cased = b_or(*[b_or(_is_upper(c), _is_lower(c)) for c in self.cp])
        return b_and(cased, *[not_(_is_upper(c)) for c in self.cp])

    def isdigit(self):
        return b_and(bool(self.cp), *[_is_digit(c) for c in self.cp])

    def isalpha(self):
        return b_and(bool(self.cp), *[b_or(_is_upper(c), _is_lower(c)) for c in self.cp])

    def isalnum(self):
        return b_and(bool(self.cp), *[b_or(_is_upper(c), _is_lower(c), _is_digit(c)) for c in self.cp])

    def isspace(self):
        return b_and(bool(self.cp), *[b_or(*[eq(c, k) for k in b' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0']) for c in self.cp])

    def isprintable(self):
        for c in self.cp:
            _ascii_only(c)
        return b_and(*[b_and(c >= 32, c < 127) for c in self.cp])

    def find(self, s, start=0, end=None):
        if start or end is not None:
            raise Unsupported('str.find with bounds')
        return find(self.cp, pieces(s))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split on whitespace')
        sep = pieces(sep)
        out = []
        cur = []
        i = 0
        cp = self.cp
        while i < len(cp):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(sep) <= len(cp) and \
                    bool(cps_eq(cp[i:i + len(sep)], sep)):
                out.append(mkstr(cur))
                cur = []
                i += len(sep)
            else:
                cur.append(cp[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def translate(self, table):
        out = []
        for c in self.cp:
            if is_sym(c):
                # keys with values of the same length go together
                groups = {}
                for k, v in table.items():
                    if isinstance(k, int) and c.lo <= k <= c.hi:
                        n = -1 if v is None else len(pieces(v)) if isinstance(v, str) else 1
                        groups.setdefault(n, []).append((k, v))
                for n in sorted(groups):
                    if bool(b_or(*[eq(c, k) for k, _ in groups[n]])):
                        break
                else:
                    out.append(c)
                    continue
                vs = [(k, [] if v is None else pieces(v) if isinstance(v, str) else [v]) for k, v in groups[n]]
                for i in range(max(n, 0)):
                    r = vs[0][1][i]
                    for k, p in vs[1:]:
                        r = ite(eq(c, k), p[i], r)
                    out.append(r)
                continue
            if c not in table:
                out.append(c)
                continue
            v = table[c]
            if v is None:
                continue
            out.extend(pieces(v) if isinstance(v, (str, SymStr)) else [v])
        return mkstr(out)

    def format(self, *a, **k):
        raise Unsupported('str.format on symbolic text')

    def title(self):
        raise Unsupported('title')


def _ascii_only(c):
    """case tables are only modelled for ASCII: inputs beyond must be excluded by the harness"""
    if isinstance(c, Dec):
        raise Unsupported('formatted integer')
    if is_sym(c):
        if c.hi > 127 and not core.CUR.holds(c < 128):
            raise Unsupported('case mapping of a symbolic non-ASCII character')
    return c


def _is_upper(c):
    if not is_sym(c):
        return chr(c).isupper()
    _ascii_only(c)
    return b_and(c >= 65, c <= 90)


def _is_lower(c):
    if not is_sym(c):
        return chr(c).islower()
    _ascii_only(c)
    return b_and(c >= 97, c <= 122)


def _is_digit(c):
    if not is_sym(c):
        return chr(c).isdigit()
    _ascii_only(c)
    return b_and(c >= 48, c <= 57)


def _lower(c):
    if not is_sym(c):
        r = chr(c).lower()
        return ord(r) if len(r) == 1 else c
    return ite(_is_upper(c), c + 32, c)


def _upper(c):
    if not is_sym(c):
        r = chr(c).upper()
        return ord(r) if len(r) == 1 else c
    return ite(_is_lower(c), c - 32, c)


def cps_eq(a, b):
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if isinstance(x, Dec) or isinstance(y, Dec):
            if isinstance(x, Dec) and isinstance(y, Dec):
                conds.append(eq(x.x, y.x))
                continue
            if isinstance(x, Dec):
                x, y = y, x
            # a digit string never equals a character other than a digit or '-'
            if is_sym(x):
                raise Unsupported('comparison of a formatted integer')
            if chr(x) in '-0123456789':
                raise Unsupported('comparison of a formatted integer')
            return False
        conds.append(eq(x, y))
    return b_and(*conds)


def str_eq(a, b):
    a, b = pieces(a), pieces(b)
    da = any(isinstance(c, Dec) for c in a)
    db = any(isinstance(c, Dec) for c in b)
    if not da and not db or (da and db and len(a) == len(b)):
        return cps_eq(a, b)
    if da and db:
        raise Unsupported('comparison of formatted integers')
    # one side has formatted integers, the other is plain text
    if db:
        a, b = b, a
    return _match_dec(a, b)


def _match_dec(a, b):
    """a: pieces with Dec; b: plain code points"""
    if not a:
        return not b
    if not isinstance(a[0], Dec):
        if not b:
            return False
        return b_and(eq(a[0], b[0]), _match_dec(a[1:], b[1:]))
    if any(is_sym(c) for c in b):
        raise Unsupported('comparison of a formatted integer with symbolic text')
    alts = []
    for k in range(1, len(b) + 1):
        t = ''.join(map(chr, b[:k]))
        if re.fullmatch(r'-?(0|[1-9][0-9]*)', t) and t != '-0':
            alts.append(b_and(eq(core.as_int(a[0].x), int(t)), _match_dec(a[1:], b[k:])))
    return b_or(*alts)


def find(cp, s):
    n, m = len(cp), len(s)
    for i in range(n - m + 1):
        if bool(cps_eq(cp[i:i + m], s)):
            return i
    return -1


def replace_cells(cp, old, new, count=-1):
    out = []
    i = 0
    m = len(old)
    if m == 0:
        raise Unsupported('replace of an empty string')
    while i < len(cp):
        if count != 0 and i + m <= len(cp) and not any(isinstance(c, Dec) for c in cp[i:i + m]) and \
                bool(cps_eq(cp[i:i + m], old)):
            out.extend(new)
            i += m
            count -= 1
        else:
            out.append(cp[i])
            i += 1
    return out


def join(sep, seq):
    out = []
    for i, p in enumerate(seq):
        if i:
            out.extend(pieces(sep))
        out.extend(pieces(p))
    return mkstr(out)


def utf8_cells(c, errors='strict'):
    if not is_sym(c):
        return list(chr(c).encode('utf-8', errors))
    if bool(c < 0x80):
        return [core.wrap(c, 8, False)]
    if bool(c < 0x800):
        return [0xC0 | (c >> 6), 0x80 | (c & 63)]
    if bool(c < 0x10000):
        if bool(b_and(c >= 0xD800, c <= 0xDFFF)):
            if errors == 'strict':
                raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
            if errors != 'surrogatepass':
                raise Unsupported('utf-8 error handler')
        return [0xE0 | (c >> 12), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63)]
    return [0xF0 | (c >> 18), 0x80 | ((c >> 12) & 63), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63)]


def decode(b, enc, errors):
    enc = enc.lower().replace('_', '-')
    cells = data.cells_of(b)
    if enc in ('latin-1', 'latin1', 'iso-8859-1'):
        return mkstr(list(cells))
    if enc == 'ascii':
        for c in cells:
            if bool(c > 127):
                raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range')
        return mkstr(list(cells))
    if enc not in ('utf-8', 'utf8') or errors != 'strict':
        raise Unsupported('decode(%s, %s)' % (enc, errors))
    out = []
    i = 0
    n = len(cells)

    def bad():
        raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid data')

    def cont(k, lo=0x80, hi=0xBF):
        if k >= n:
            bad()
        c = cells[k]
        if not bool(b_and(c >= lo, c <= hi)):
            bad()
        return c & 0x3F
    while i < n:
        c = cells[i]
        if bool(c < 0x80):
            out.append(c)
            i += 1
        elif bool(c < 0xC2):
            bad()
        elif bool(c < 0xE0):
            d = cont(i + 1)
            out.append(((c & 0x1F) << 6) | d)
            i += 2
        elif bool(c < 0xF0):
            if bool(c == 0xE0):
                d = cont(i + 1, 0xA0)
            elif bool(c == 0xED):
                d = cont(i + 1, 0x80, 0x9F)
            else:
                d = cont(i + 1)
            e = cont(i + 2)
            out.append(((c & 0x0F) << 12) | (d << 6) | e)
            i += 3
        elif bool(c < 0xF5):
            if bool(c == 0xF0):
                d = cont(i + 1, 0x90)
            elif bool(c == 0xF4):
                d = cont(i + 1, 0x80, 0x8F)
            else:
                d = cont(i + 1)
            e = cont(i + 2)
            f = cont(i + 3)
            out.append(((c & 0x07) << 18) | (d << 12) | (e << 6) | f)
            i += 4
        else:
            bad()
    return mkstr(out)


def chr_(x):
    if bool(b_or(x < 0, x > 0x10FFFF)):
        raise ValueError('chr() arg not in range(0x110000)')
    return mkstr([x])


def str_method(o, name, args, kw):
    """method of a concrete str with symbolic arguments"""
    if name == 'join':
        return join(o, args[0])
    if name == 'format':
        return str_format(o, args, kw)
    s = SymStr([ord(c) for c in o])
    return getattr(s, name)(*args, **kw)


def str_format(o, args, kw):
    import string
    from symex import rt
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out.extend(pieces(lit))
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            return '<sym>'
        if rt.TOKENS is not None and is_sym(v):
            if spec and type(v).__name__ == 'SymFloat':
                out.extend(pieces(format(rt.some_float(v), spec)))
            else:
                out.extend(pieces(rt.token(v)))
            continue
        if isinstance(v, SymStr) and not spec:
            out.extend(v.cp)
        elif isinstance(v, SymInt) and not spec and v.cls is None:
            out.append(Dec(v))
        elif is_sym(v):
            return '<sym>'
        else:
            if conv == 'r':
                v = repr(v)
            out.extend(pieces(format(v, spec or '')))
    return mkstr(out)


_SPEC = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def str_mod(a, b):
    """a % b with symbolic operands"""
    from symex import rt
    if isinstance(a, bytes):
        raise Unsupported('bytes %% formatting with symbolic operands')
    if isinstance(a, SymStr):
        if any(is_sym(c) for c in a.cp):
            raise Unsupported('symbolic format string')
    fmts = a if isinstance(a, str) else None
    args = list(b) if type(b) is tuple else [b]
    out = []
    pos = 0
    for m in _SPEC.finditer(fmts):
        out.extend(pieces(fmts[pos:m.start()]))
        pos = m.end()
        name, flags, width, prec, ch = m.groups()
        if ch == '%':
            out.append(37)
            continue
        if name:
            v = args[0][name]
        else:
            if not args:
                raise TypeError('not enough arguments for format string')
            v = args.pop(0)
        if not rt.deep_sym(v):
            if type(v) is tuple:
                v = (v,)
            out.extend(pieces(('%' + flags + width + ('.' + prec if prec else '') + ch) % v))
            continue
        if rt.TOKENS is not None and is_sym(v) and ch in 'drsxXieEfFgG':
            if type(v).__name__ == 'SymFloat' and (ch not in 'rs' or width or prec):
                out.extend(pieces(('%' + flags + width + ('.' + prec if prec else '') + ch) % rt.some_float(v)))
                continue
            if ch not in 'eEfFgG':
                out.extend(pieces(rt.s_str(v) if ch == 's' else rt.token(v)))
                continue
        if ch == 'd' and isinstance(v, (SymInt, SymBool)) and not flags and not width:
            out.append(Dec(core.as_int(v)))
        elif ch == 's' and not width:
            if isinstance(v, SymStr):
                out.extend(v.cp)
            elif isinstance(v, SymInt) and v.cls is None:
                out.append(Dec(v))
            else:
                s = rt.s_str(v)
                out.extend(pieces(s))
        elif ch == 'r':
            out.extend(pieces(rt.s_repr(v)))
        elif ch in 'xX' and isinstance(v, SymInt) and flags in ('', '0') and width in ('2', '4'):
            out.extend(hex_digits(v, int(width), flags, ch))
        else:
            out.extend(pieces('<sym>'))
    out.extend(pieces(fmts[pos:]))
    return mkstr(out)


def hex_digits(v, width, flags, ch):
    """fixed width hexadecimal rendering (forks if the value may not fit)"""
    if bool(b_or(v < 0, v >= 16 ** width)) or flags != '0':
        raise Unsupported('hex formatting')
    out = []
    base = 87 if ch == 'x' else 55
    for i in reversed(range(width)):
        d = (v >> (4 * i)) & 15
        out.append(ite(d < 10, d + 48, d + base))
    return out


def sym_repr(x):
    """repr() of a symbolic value"""
    from symex import rt
    if rt.TOKENS is not None:
        return rt.token(x)
    if isinstance(x, SymInt):
        return SymStr([Dec(x)])
    if isinstance(x, SymBool):
        return repr(bool(x))
    if isinstance(x, data.SymBytesBase) and not x._mutable:
        return bytes_repr(x)
    if isinstance(x, SymStr):
        return text_repr(x)
    return '<sym>'


def bytes_repr(x):
    cells = data.cells_of(x)
    sq = b_or(*[eq(c, 39) for c in cells])
    dq = b_or(*[eq(c, 34) for c in cells])
    quote = 34 if bool(b_and(sq, not_(dq))) else 39
    out = [98, quote]
    for c in cells:
        if bool(b_or(*[eq(c, k) for k in (quote, 92, 9, 10, 13)])):
            out.extend([92, ite(eq(c, 9), 116, ite(eq(c, 10), 110, ite(eq(c, 13), 114, c)))])
        elif bool(b_or(c < 32, c >= 127)):
            out.extend([92, 120])
            for d in ((c >> 4) & 15, c & 15):
                out.append(ite(d < 10, d + 48, d + 87))
        else:
            out.append(c)
    out.append(quote)
    return mkstr(out)


def text_repr(x):
    cp = x.cp
    sq = b_or(*[eq(c, 39) for c in cp])
    dq = b_or(*[eq(c, 34) for c in cp])
    quote = 34 if bool(b_and(sq, not_(dq))) else 39
    out = [quote]
    for c in cp:
        if is_sym(c):
            _ascii_only(c)
        if bool(b_or(*[eq(c, k) for k in (quote, 92, 9, 10, 13)])):
            out.extend([92, ite(eq(c, 9), 116, ite(eq(c, 10), 110, ite(eq(c, 13), 114, c)))])
        elif bool(b_or(c < 32, c == 127)):
            out.extend([92, 120])
            for d in ((c >> 4) & 15, c & 15):
                out.append(ite(d < 10, d + 48, d + 87))
        elif not is_sym(c) and c > 127:
            out.extend(pieces(repr(chr(c))[1:-1]))
        else:
            out.append(c)
    out.append(quote)
    return mkstr(out)


# ---------------------------------------------------------------------------
# regular expressions: a backtracking matcher over symbolic characters

def regex_method(pat, name, args, kw):
    try:
        from re import _parser as sre_parse, _constants as C
    except ImportError:
        import sre_parse
        import sre_constants as C
    if pat.flags & (re.IGNORECASE | re.VERBOSE | re.LOCALE):
        raise Unsupported('regex flags')
    tree = sre_parse.parse(pat.pattern, pat.flags & ~re.UNICODE)
    m = _Matcher(tree, C, pat)
    if name == 'sub':
        repl, s = args[0], args[1]
        count = args[2] if len(args) > 2 else kw.get('count', 0)
        return m.sub(repl, s, count)
    if name in ('match', 'search', 'fullmatch'):
        return m.find(args[0], name)
    if name == 'finditer':
        return iter(m.findall(args[0]))
    if name == 'split':
        s = pieces(args[0])
        out, pos = [], 0
        for mt in m.findall(args[0]):
            out.append(mkstr(s[pos:mt.start()]))
            out.extend(mt.groups())
            pos = mt.end()
        out.append(mkstr(s[pos:]))
        return out
    if name == 'findall':
        ms = m.findall(args[0])
        if pat.groups == 0:
            return [x.group(0) for x in ms]
        if pat.groups == 1:
            return [x.group(1) for x in ms]
        return [x.groups() for x in ms]
    raise Unsupported('regex method %s' % name)


class SymMatch(object):
    def __init__(self, cp, groups, ngroups, names):
        self.cp = cp
        self._g = groups
        self.n = ngroups
        self.names = names

    def start(self, k=0):
        return self._g[k][0] if k in self._g else -1

    def end(self, k=0):
        return self._g[k][1] if k in self._g else -1

    def span(self, k=0):
        return self.start(k), self.end(k)

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._one(k) for k in ks)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def _one(self, k):
        if isinstance(k, str):
            k = self.names[k]
        if k not in self._g:
            return None
        a, b = self._g[k]
        return mkstr(self.cp[a:b])

    def groups(self, default=None):
        return tuple(self._one(k) if k in self._g else default for k in range(1, self.n + 1))


class _Matcher(object):
    def __init__(self, tree, C, pat):
        self.tree = list(tree)
        self.C = C
        self.pat = pat

    def findall(self, s):
        cp = pieces(s)
        out = []
        pos = 0
        while pos <= len(cp):
            r = self._search(cp, pos)
            if r is None:
                break
            out.append(SymMatch(cp, r, self.pat.groups, self.pat.groupindex))
            a, b = r[0]
            pos = b if b > a else b + 1
        return out

    def find(self, s, how):
        cp = pieces(s)
        if how == 'search':
            r = self._search(cp, 0)
        else:
            r = None
            for end, g in self._m(self.tree, 0, cp, 0, {}):
                if how == 'match' or end == len(cp):
                    r = dict(g)
                    r[0] = (0, end)
                    break
        if r is None:
            return None
        return SymMatch(cp, r, self.pat.groups, self.pat.groupindex)

    def _search(self, cp, pos):
        for i in range(pos, len(cp) + 1):
            for end, g in self._m(self.tree, 0, cp, i, {}):
                r = dict(g)
                r[0] = (i, end)
                return r
        return None

    def sub(self, repl, s, count=0):
        cp = pieces(s)
        out = []
        pos = 0
        n = 0
        for m in self.findall(s):
            if count and n >= count:
                break
            out.extend(cp[pos:m.start()])
            if callable(repl):
                out.extend(pieces(repl(m)))
            else:
                out.extend(self._template(repl, m))
            pos = m.end()
            n += 1
        out.extend(cp[pos:])
        return mkstr(out)

    def _template(self, repl, m):
        out = []
        i = 0
        while i < len(repl):
            c = repl[i]
            if c == '\\' and i + 1 < len(repl):
                d = repl[i + 1]
                if d.isdigit():
                    out.extend(pieces(m.group(int(d)) or ''))
                    i += 2
                    continue
                if d == 'g':
                    k = repl.index('>', i)
                    nm = repl[i + 3:k]
                    out.extend(pieces(m.group(int(nm) if nm.isdigit() else nm) or ''))
                    i = k + 1
                    continue
                out.append(ord({'n': '\n', 't': '\t'}.get(d, d)))
                i += 2
                continue
            out.append(ord(c))
            i += 1
        return out

    def _m(self, seq, k, cp, i, g):
        """generator of (end, groups) in backtracking order"""
        C = self.C
        if k == len(seq):
            yield i, g
            return
        op, av = seq[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i < len(cp) and bool(self._char(op, av, cp[i])):
                for r in self._m(seq, k + 1, cp, i + 1, g):
                    yield r
        elif op is C.SUBPATTERN:
            gid, add, rem, sub = av
            for end, g2 in self._m(list(sub), 0, cp, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, end)
                for r in self._m(seq, k + 1, cp, end, g2):
                    yield r
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            for r in self._rep(list(sub), lo, hi, op is C.MAX_REPEAT, cp, i, g, seq, k, 0):
                yield r
        elif op is C.BRANCH:
            for alt in av[1]:
                for end, g2 in self._m(list(alt), 0, cp, i, g):
                    for r in self._m(seq, k + 1, cp, end, g2):
                        yield r
        elif op is C.AT:
            ok = None
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is C.AT_END_STRING:
                ok = i == len(cp)
            elif av is C.AT_END:
                ok = i == len(cp) or (i == len(cp) - 1 and bool(eq(cp[i], 10)))
            if ok is None:
                raise Unsupported('regex anchor')
            if ok:
                for r in self._m(seq, k + 1, cp, i, g):
                    yield r
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            sub = list(sub)
            if direction > 0:
                ok = any(True for _ in self._m(sub, 0, cp, i, g))
            else:
                ok = False
                for j in range(i, -1, -1):
                    for end, g2 in self._m(sub, 0, cp, j, g):
                        if end == i:
                            ok = True
                            break
                    if ok:
                        break
            if ok == (op is C.ASSERT):
                for r in self._m(seq, k + 1, cp, i, g):
                    yield r
        else:
            raise Unsupported('regex construct %s' % op)

    def _rep(self, sub, lo, hi, greedy, cp, i, g, seq, k, n):
        C = self.C
        more = (hi is C.MAXREPEAT or n < hi)
        if not greedy and n >= lo:
            for r in self._m(seq, k + 1, cp, i, g):
                yield r
        if more:
            for end, g2 in self._m(sub, 0, cp, i, g):
                if end == i and n >= lo:
                    continue
                for r in self._rep(sub, lo, hi, greedy, cp, end, g2, seq, k, n + 1):
                    yield r
        if greedy and n >= lo:
            for r in self._m(seq, k + 1, cp, i, g):
                yield r

    def _char(self, op, av, c):
        C = self.C
        if isinstance(c, Dec):
            raise Unsupported('regex on a formatted integer')
        if op is C.LITERAL:
            return eq(c, av)
        if op is C.NOT_LITERAL:
            return not_(eq(c, av))
        if op is C.ANY:
            if self.pat.flags & re.DOTALL:
                return True
            return not_(eq(c, 10))
        neg = False
        alts = []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                alts.append(eq(c, a))
            elif o is C.RANGE:
                alts.append(b_and(c >= a[0], c <= a[1]))
            elif o is C.CATEGORY:
                alts.append(self._cat(a, c))
            else:
                raise Unsupported('regex class')
        r = b_or(*alts)
        return not_(r) if neg else r

    def _cat(self, a, c):
        C = self.C
        if a in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
            r = _is_digit(c)
            return r if a is C.CATEGORY_DIGIT else not_(r)
        if a in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
            r = b_or(_is_digit(c), _is_upper(c), _is_lower(c), eq(c, 95))
            return r if a is C.CATEGORY_WORD else not_(r)
        if a in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
            r = b_or(*[eq(c, k) for k in b' \t\n\r\x0b\x0c'])
            return r if a is C.CATEGORY_SPACE else not_(r)
        raise Unsupported('regex category')
