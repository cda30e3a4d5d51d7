"""The cache a cached field is declared with.  Keys built from symbolic numbers carry the number along;
two keys are the same entry if their texts agree and the solver says the numbers do."""
import re

from . import explore


class Store(object):
    def __init__(self):
        self.entries = []           # (pattern, terms, value), newest last

    def clear(self):
        self.entries = []

    def split(self, key):
        key = str(key)
        terms = []

        def term(m):
            terms.append(explore.TOKENS[int(m.group(1))])
            return '\x02'
        out = re.sub('\x02(\\d+)\x03', term, key) if explore.TOKENS is not None else key
        if explore.TOKENS is not None:
            # concrete numbers may equal symbolic ones
            def num(m):
                n = int(m.group(0))
                terms.append(explore.TOKENS.get(n - explore.MAGIC, n))
                return '\x02'
            out = re.sub('-?\\d+', num, out)
        return out, terms

    def find(self, key):
        text, terms = self.split(key)
        for i in range(len(self.entries) - 1, -1, -1):
            t, other, value = self.entries[i]
            if t == text and len(other) == len(terms) and all(self.same(a, b) for a, b in zip(terms, other)):
                return i
        return None

    def same(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return explore.CUR.decide(a == b)

    def get(self, key, default=None, version=None):
        i = self.find(key)
        return default if i is None else self.entries[i][2]

    def set(self, key, value, timeout=None, version=None):
        i = self.find(key)
        if i is not None:
            del self.entries[i]
        self.entries.append(self.split(key) + (value,))

    def add(self, key, value, timeout=None, version=None):
        if self.find(key) is not None:
            return False
        self.set(key, value)
        return True

    def get_or_set(self, key, default, timeout=None, version=None):
        i = self.find(key)
        if i is None:
            self.set(key, default() if callable(default) else default)
            i = self.find(key)
        return self.entries[i][2]

    def delete(self, key, version=None):
        i = self.find(key)
        if i is not None:
            del self.entries[i]

    def has_key(self, key, version=None):
        return self.find(key) is not None
    __contains__ = has_key

    def get_many(self, keys, version=None):
        return dict((k, self.get(k)) for k in keys if self.find(k) is not None)

    def set_many(self, data, timeout=None, version=None):
        for k, v in data.items():
            self.set(k, v)
        return []


STORE = Store()
