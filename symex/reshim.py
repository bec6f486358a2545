"""Regular expressions over strings with symbolic characters.

Every symbolic character is first decided against the characters the pattern
names; one that is none of them behaves as any other character.  Patterns
that tell other characters apart (classes such as \\w, ranges, ignoring case)
are outside the encoding when the string has symbolic characters."""
import re as _re

from .core import SymStr, Unsupported

for _k in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE',
           'A', 'ASCII', 'U', 'UNICODE', 'error'):
    globals()[_k] = getattr(_re, _k)


def plain(s):
    return str.__str__(s)[:] if isinstance(s, SymStr) else s


def lift(x):
    if isinstance(x, str):
        return SymStr(x)
    if isinstance(x, tuple):
        return tuple(lift(y) for y in x)
    if isinstance(x, list):
        return [lift(y) for y in x]
    if isinstance(x, dict):
        return {lift(k): lift(v) for k, v in x.items()}
    return x


class Match(object):
    def __init__(self, m):
        self.m = m

    def group(self, *a):
        return lift(self.m.group(*[plain(x) for x in a]))

    def __getitem__(self, i):
        return lift(self.m[plain(i)])

    def groups(self, default=None):
        return lift(self.m.groups(default))

    def groupdict(self, default=None):
        return lift(self.m.groupdict(default))

    def __getattr__(self, k):
        return getattr(self.m, k)


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self.pattern = plain(pattern)
        self.re = _re.compile(self.pattern, flags)
        self.flags = self.re.flags

    def _arg(self, s):
        if not (isinstance(s, SymStr) and s._sym()):
            return plain(s)
        p = self.pattern
        if self.re.flags & _re.I or any(
                '\\' + c in p for c in 'wWdDsSbB') or _re.search(
                    r'\[[^]]*[^\[^]-[^]]', p):
            raise Unsupported('a regular expression over unknown characters')
        return s._resolve([c for c in dict.fromkeys(p)])

    def _m(self, m):
        return None if m is None else Match(m)

    def match(self, s, *a):
        return self._m(self.re.match(self._arg(s), *a))

    def fullmatch(self, s, *a):
        return self._m(self.re.fullmatch(self._arg(s), *a))

    def search(self, s, *a):
        return self._m(self.re.search(self._arg(s), *a))

    def findall(self, s, *a):
        return lift(self.re.findall(self._arg(s), *a))

    def finditer(self, s, *a):
        return map(Match, self.re.finditer(self._arg(s), *a))

    def split(self, s, maxsplit=0):
        return lift(self.re.split(self._arg(s), maxsplit))

    def sub(self, repl, s, count=0):
        f = (lambda m: plain(repl(Match(m)))) if callable(repl) else plain(
            repl)
        return lift(self.re.sub(f, self._arg(s), count))


def compile(pattern, flags=0):
    return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def escape(s):
    return SymStr(_re.escape(plain(s)))
