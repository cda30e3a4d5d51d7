"""Names the solver chooses: strings of unknown content in the trigger catalogue.

In SQL text such a name is a token; the catalogue hands it out as an SVal of kind 'str', Python code
gets a SymStr."""
import re

import z3

from .terms import SVal, const, text_of, Not, _num
from .store import Unsupported
from . import explore

TERMS = []
TOKEN = re.compile('\x02(\\d+)\x03')
MAXLEN = 24
CHARS = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re('_'), z3.Re('-'), z3.Re('$'))


def fresh(label):
    """-> (token, term, constraints)"""
    v = z3.String('%s!%d' % (label, len(TERMS)))
    TERMS.append(v)
    return '\x02%d\x03' % (len(TERMS) - 1), v, [z3.InRe(v, z3.Plus(CHARS)), z3.Length(v) <= MAXLEN]


def term_of(token):
    m = TOKEN.fullmatch(token)
    return TERMS[int(m.group(1))] if m else None


def name_val(name):
    t = term_of(name)
    return const(name) if t is None else SVal(False, t, 'str')


def seq(v):
    """an SVal as a string term"""
    if v.kind == 'str':
        return v.v
    if _num(v.v) and text_of(v.v) is not None:
        return z3.StringVal(text_of(v.v))
    raise Unsupported('comparing a name with %s' % v.kind)


def any_case(text):
    parts = [z3.Union(z3.Re(c.lower()), z3.Re(c.upper())) if c.lower() != c.upper() else z3.Re(c) for c in text]
    return z3.Concat(*parts) if len(parts) > 1 else parts[0]


def like_re(pattern, esc, fold):
    """regular expression of an SQL LIKE pattern"""
    full = z3.AllChar(z3.ReSort(z3.StringSort()))
    out = [z3.Re('')]
    i = 0
    while i < len(pattern):
        ch = pattern[i]
        if esc and ch == esc and i + 1 < len(pattern):
            i += 1
            out.append(any_case(pattern[i]) if fold else z3.Re(pattern[i]))
        elif ch == '%':
            out.append(z3.Star(full))
        elif ch == '_':
            out.append(full)
        else:
            out.append(any_case(ch) if fold else z3.Re(ch))
        i += 1
    return z3.Concat(*out) if len(out) > 1 else out[0]


def parse(text):
    """a text with tokens as a string term"""
    parts = []
    pos = 0
    for m in TOKEN.finditer(text):
        if m.start() > pos:
            parts.append(z3.StringVal(text[pos:m.start()]))
        parts.append(TERMS[int(m.group(1))])
        pos = m.end()
    if pos < len(text) or not parts:
        parts.append(z3.StringVal(text[pos:]))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


class SymStr(object):
    __class__ = property(lambda self: str)

    def __init__(self, s, token=None):
        self.s, self.token = s, token

    def __bool__(self):
        return self.has(z3.Length(self.s) > 0)

    def has(self, c):
        return explore.CUR.decide(c)

    def startswith(self, p, start=0):
        if start:
            return self[start:].startswith(p)
        return any(self.has(z3.PrefixOf(self.other(x), self.s)) for x in ((p,) if isinstance(p, str) else p))

    def endswith(self, p):
        return any(self.has(z3.SuffixOf(self.other(x), self.s)) for x in ((p,) if isinstance(p, str) else p))

    def __contains__(self, p):
        return self.has(z3.Contains(self.s, self.other(p)))

    def other(self, o):
        if type(o) is SymStr:
            return o.s
        return parse(o) if isinstance(o, str) else None

    def __eq__(self, o):
        t = self.other(o)
        return False if t is None else self.has(self.s == t)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported('hash of a name')

    def __len__(self):
        return explore.CUR.concretize(z3.Length(self.s))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1) and (i.start or 0) >= 0 and (i.stop is None or i.stop >= 0):
            a = i.start or 0
            n = z3.Length(self.s) if i.stop is None else max(i.stop - a, 0)
            return SymStr(z3.SubString(self.s, a, n))
        if isinstance(i, int) and i >= 0:
            return SymStr(z3.SubString(self.s, i, 1))
        raise Unsupported('name[%s]' % (i,))

    def replace(self, a, b):
        if a in ('"', '`', "'", '%'):
            return self             # names do not contain these
        raise Unsupported('replace in a name')

    def partition(self, sep):
        raise Unsupported('partition of a name')

    def find(self, sub):
        for i in range(MAXLEN + 1):
            if self[i:].startswith(sub):
                return i
        return -1

    def __str__(self):
        if self.token is None:
            self.token = '\x02%d\x03' % len(TERMS)
            TERMS.append(self.s)
        return self.token
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __add__(self, o):
        return str(self) + o

    def __radd__(self, o):
        return o + str(self)

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported('str.%s of a name' % name)
        raise AttributeError(name)


def out(v):
    for i, t in enumerate(TERMS):
        if t.eq(v.v):
            return SymStr(v.v, '\x02%d\x03' % i)
    return SymStr(v.v)
