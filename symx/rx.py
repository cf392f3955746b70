"""A backtracking regex matcher over symbolic strings, driven by CPython's
own regex parser.  Only used when the subject or the pattern is symbolic."""
import re
import re._parser as sp
import re._constants as sc
from . import values as V
from .values import SymStr, SymBytes, Ch, chtest, cheq
from .core import Unsupported

PUA = 0xE000
WORD = frozenset(i for i in range(256) if chr(i).isalnum() or i == 95)
WORD_B = frozenset(i for i in range(128) if chr(i).isalnum() or i == 95)
ALL = frozenset(range(0x3002))


class Pattern(object):
    """Stands for a compiled pattern with symbolic literal characters."""

    def __init__(self, pattern, flags=0):
        self.sym = {}
        self.bytes = isinstance(pattern, (bytes, SymBytes))
        if isinstance(pattern, re.Pattern):
            flags = pattern.flags
            pattern = pattern.pattern
            self.bytes = isinstance(pattern, bytes)
        if isinstance(pattern, (SymStr, SymBytes)):
            special = frozenset(map(ord, '.^$*+?{}[]\\|()'))
            out = []
            for c in pattern.c:
                if isinstance(c, int):
                    out.append(chr(c))
                elif chtest(c, special):
                    out.append(chr(V.E().realise(c.e, 300)))
                else:
                    k = chr(PUA + len(self.sym))
                    self.sym[PUA + len(self.sym)] = c
                    out.append(k)
            pattern = ''.join(out)
        elif self.bytes:
            pattern = pattern.decode('latin-1')
        self.pattern = pattern
        self.flags = flags
        self.tree = sp.parse(pattern, int(flags) & ~int(re.UNICODE)
                             if self.bytes else int(flags))
        self.flags = self.tree.state.flags
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        if self.flags & re.IGNORECASE:
            self.icase = True
        else:
            self.icase = False
        self.word = WORD_B if (self.bytes or self.flags & re.ASCII) else WORD
        self.ws = V.WS_BYTES if (self.bytes or self.flags & re.ASCII) \
            else V.WS_STR

    # API of compiled patterns
    def match(self, s, pos=0, endpos=None):
        return self._run(s, pos, 'match', endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        return self._run(s, pos, 'full', endpos)

    def search(self, s, pos=0, endpos=None):
        if endpos is not None:
            s = s[:endpos]
        n = len(s)
        for i in range(int(pos), n + 1):
            m = self._run(s, i, 'match')
            if m is not None:
                return m
        return None

    def _run(self, s, pos, mode, endpos=None):
        if endpos is not None:
            s = s[:endpos]
        cls = SymBytes if self.bytes else SymStr
        codes = cls.codes(s)
        if codes is None:
            raise TypeError('expected string or bytes-like object')
        full = mode == 'full'
        n = len(codes)
        for end, groups in self._m(list(self.tree), 0, codes, pos, {}):
            if full and end != n:
                continue
            return Match(self, s, codes, pos, end, groups)
        return None

    # matcher: generator of (end, groups) in priority order
    def _m(self, items, k, s, i, g):
        if k == len(items):
            yield i, g
            return
        op, av = items[k]
        if op is sc.LITERAL:
            if i < len(s) and self._lit(s[i], av):
                yield from self._m(items, k + 1, s, i + 1, g)
        elif op is sc.NOT_LITERAL:
            if i < len(s) and not self._lit(s[i], av):
                yield from self._m(items, k + 1, s, i + 1, g)
        elif op is sc.ANY:
            if i < len(s) and (self.flags & re.DOTALL or
                               not chtest(s[i], frozenset([10]))):
                yield from self._m(items, k + 1, s, i + 1, g)
        elif op is sc.IN:
            if i < len(s) and self._in(s[i], av):
                yield from self._m(items, k + 1, s, i + 1, g)
        elif op is sc.AT:
            if self._at(av, s, i):
                yield from self._m(items, k + 1, s, i, g)
        elif op is sc.BRANCH:
            for alt in av[1]:
                for e, g2 in self._m(list(alt), 0, s, i, g):
                    yield from self._m(items, k + 1, s, e, g2)
        elif op is sc.SUBPATTERN:
            gid, _, _, sub = av
            for e, g2 in self._m(list(sub), 0, s, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, e)
                yield from self._m(items, k + 1, s, e, g2)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            hi = None if hi is sc.MAXREPEAT else hi
            gen = self._rep(list(sub), lo, hi, s, i, g, 0,
                            op is sc.MAX_REPEAT)
            for e, g2 in gen:
                yield from self._m(items, k + 1, s, e, g2)
        elif op is sc.GROUPREF:
            if av not in g:
                return
            a, b = g[av]
            if bool(V.seqeq(s[i:i + b - a], s[a:b])):
                yield from self._m(items, k + 1, s, i + b - a, g)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Unsupported('lookbehind')
            hit = next(self._m(list(sub), 0, s, i, g), None)
            if (hit is not None) == (op is sc.ASSERT):
                yield from self._m(items, k + 1, s, i,
                                   hit[1] if hit else g)
        else:
            raise Unsupported('regex op %s' % op)

    def _rep(self, sub, lo, hi, s, i, g, n, greedy):
        if n < lo:
            for e, g2 in self._m(sub, 0, s, i, g):
                yield from self._rep(sub, lo, hi, s, e, g2, n + 1, greedy)
            return
        if not greedy:
            yield i, g
        if hi is None or n < hi:
            for e, g2 in self._m(sub, 0, s, i, g):
                if e == i:
                    continue
                yield from self._rep(sub, lo, hi, s, e, g2, n + 1, greedy)
        if greedy:
            yield i, g

    def _codes(self, av):
        if self.icase and av < 128 and chr(av).isalpha():
            return frozenset([ord(chr(av).lower()), ord(chr(av).upper())])
        return frozenset([av])

    def _lit(self, c, av):
        if av in self.sym:
            r = cheq(c, self.sym[av])
            return r if isinstance(r, bool) else V.E().decide(r)
        return chtest(c, self._codes(av))

    def _set(self, av):
        neg = False
        s = set()
        for op, v in av:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                if v in self.sym:
                    raise Unsupported('symbolic char in class')
                s |= self._codes(v)
            elif op is sc.RANGE:
                for x in range(v[0], v[1] + 1):
                    s |= self._codes(x)
            elif op is sc.CATEGORY:
                s |= self._cat(v)
            else:
                raise Unsupported('class op %s' % op)
        return neg, frozenset(s)

    def _cat(self, v):
        t = {sc.CATEGORY_DIGIT: V.DIGITS, sc.CATEGORY_SPACE: self.ws,
             sc.CATEGORY_WORD: self.word}
        if v in t:
            return t[v]
        t = {sc.CATEGORY_NOT_DIGIT: V.DIGITS, sc.CATEGORY_NOT_SPACE: self.ws,
             sc.CATEGORY_NOT_WORD: self.word}
        return ALL - t[v]

    def _in(self, c, av):
        neg, s = self._set(av)
        if isinstance(c, int) and c >= 0x3002:
            x = re.fullmatch('[%s]' % 'x', 'x')
            raise Unsupported('exotic char')
        return chtest(c, s) != neg

    def _at(self, av, s, i):
        n = len(s)
        ml = self.flags & re.MULTILINE
        nl = frozenset([10])
        if av is sc.AT_BEGINNING:
            return i == 0 or bool(ml and chtest(s[i - 1], nl))
        if av is sc.AT_BEGINNING_STRING:
            return i == 0
        if av is sc.AT_END_STRING:
            return i == n
        if av is sc.AT_END:
            if i == n or (i == n - 1 and chtest(s[i], nl)):
                return True
            return bool(ml and chtest(s[i], nl))
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            a = i > 0 and chtest(s[i - 1], self.word)
            b = i < n and chtest(s[i], self.word)
            return (a != b) == (av is sc.AT_BOUNDARY)
        raise Unsupported('regex at %s' % av)

    def finditer(self, s, pos=0):
        i, n = pos, len(s)
        cls = SymBytes if self.bytes else SymStr
        codes = cls.codes(s)
        last_empty_at = None
        while i <= n:
            found = None
            for j in range(i, n + 1):
                for end, g in self._m(list(self.tree), 0, codes, j, {}):
                    if end == j and last_empty_at == j:
                        continue
                    found = Match(self, s, codes, j, end, g)
                    break
                if found:
                    break
            if not found:
                return
            yield found
            i = found._e
            last_empty_at = found._e

    def findall(self, s, pos=0):
        out = []
        for m in self.finditer(s, pos):
            if self.groups == 0:
                out.append(m.group(0))
            elif self.groups == 1:
                out.append(m._g(1, self._empty()))
            else:
                out.append(tuple(m._g(k, self._empty())
                                 for k in range(1, self.groups + 1)))
        return out

    def _empty(self):
        return b'' if self.bytes else ''

    def split(self, s, maxsplit=0):
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last:m._s])
            out.extend(m.groups())
            last = m._e
            n += 1
        out.append(s[last:])
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        out, last, n = self._empty(), 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out = out + s[last:m._s]
            if callable(repl):
                out = out + repl(m)
            else:
                r = repl
                if isinstance(r, str) and '\\' in r:
                    r = _template(r, m)
                out = out + r
            last = m._e
            n += 1
        return out + s[last:], n


def _template(r, m):
    out, i = '', 0
    while i < len(r):
        if r[i] == '\\' and i + 1 < len(r):
            c = r[i + 1]
            if c.isdigit():
                out = out + m._g(int(c), '')
                i += 2
                continue
            if c == '\\':
                out = out + '\\'
                i += 2
                continue
            raise Unsupported('sub template')
        out = out + r[i]
        i += 1
    return out


class Match(object):
    def __init__(self, p, s, codes, a, e, g):
        self.re, self.string = p, s
        self._s, self._e, self._groups = a, e, dict(g)
        self._groups[0] = (a, e)
        self.pos, self.endpos = 0, len(s)

    def _id(self, k):
        if isinstance(k, str):
            return self.re.groupindex[k]
        k = int(k)
        if k > self.re.groups or k < 0:
            raise IndexError('no such group')
        return k

    def _g(self, k, default=None):
        k = self._id(k)
        if k not in self._groups:
            return default
        a, b = self._groups[k]
        return self.string[a:b]

    def group(self, *ks):
        if not ks:
            ks = (0,)
        if len(ks) == 1:
            return self._g(ks[0])
        return tuple(self._g(k) for k in ks)

    __getitem__ = _g

    def groups(self, default=None):
        return tuple(self._g(k, default)
                     for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._g(k, default)
                for n, k in self.re.groupindex.items()}

    def start(self, k=0):
        return self._groups.get(self._id(k), (-1, -1))[0]

    def end(self, k=0):
        return self._groups.get(self._id(k), (-1, -1))[1]

    def span(self, k=0):
        return self._groups.get(self._id(k), (-1, -1))

    def __bool__(self):
        return True

    @property
    def lastindex(self):
        raise Unsupported('lastindex')
