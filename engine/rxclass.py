"""Character classes of the regex crate, evaluated on a finite alphabet."""
import re
import unicodedata


class Bad(Exception):
    pass


def prop(name, c):
    name = name.strip('{}')
    name = {'Letter': 'L', 'Number': 'N', 'Decimal_Number': 'Nd', 'Punctuation': 'P', 'Separator': 'Z', 'Mark': 'M', 'Symbol': 'S', 'Other': 'C', 'Alphabetic': 'L'}.get(name, name)
    if not re.fullmatch(r'[LMNPSZC][a-z]?', name):
        raise Bad(name)
    return unicodedata.category(c).startswith(name)


class Parser:
    def __init__(self, s, i):
        self.s, self.i = s, i

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def escape(self):
        """after a backslash: a predicate, or a character"""
        c = self.peek()
        self.i += 1
        if c in 'pP':
            if self.peek() == '{':
                j = self.s.index('}', self.i)
                name = self.s[self.i:j + 1]
                self.i = j + 1
            else:
                name = self.peek()
                self.i += 1
            return lambda x, n=name, neg=c == 'P': prop(n, x) != neg
        if c in 'dD':
            return lambda x, neg=c == 'D': (unicodedata.category(x) == 'Nd') != neg
        if c in 'wW':
            return lambda x, neg=c == 'W': (x.isalnum() or x == '_' or unicodedata.category(x)[0] == 'M') != neg
        if c in 'sS':
            return lambda x, neg=c == 'S': x.isspace() != neg
        if c in 'xu':
            m = re.match(r'\{([0-9A-Fa-f]+)\}|([0-9A-Fa-f]{2})' if c == 'x' else r'\{([0-9A-Fa-f]+)\}|([0-9A-Fa-f]{4})', self.s[self.i:])
            if not m:
                raise Bad('escape')
            self.i += m.end()
            return chr(int(m.group(1) or m.group(2), 16))
        if c in 'ntrfv':
            return {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v'}[c]
        if c.isalnum():
            raise Bad('escape')
        return c

    def cls(self):
        """at an opening bracket: the predicate of the class"""
        self.i += 1
        neg = self.peek() == '^'
        if neg:
            self.i += 1
        terms, cur, first = [], [], True
        while True:
            c = self.peek()
            if not c:
                raise Bad('open class')
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            if self.peek(2) == '&&':
                self.i += 2
                terms.append(cur)
                cur = []
                continue
            if self.peek(2) in ('--', '~~') and self.s[self.i + 2:self.i + 3] != ']':
                raise Bad('set operation')
            if self.peek(2) == '[:':
                raise Bad('named class')
            if c == '[':
                cur.append(self.cls())
                continue
            a = self.one()
            if not isinstance(a, str):
                cur.append(a)
                continue
            if self.peek() == '-' and self.s[self.i + 1:self.i + 2] not in (']', '-', ''):
                self.i += 1
                b = self.one()
                if not isinstance(b, str):
                    raise Bad('range')
                cur.append(lambda x, a=a, b=b: a <= x <= b)
            else:
                cur.append(lambda x, a=a: x == a)
        terms.append(cur)
        return lambda x: all(any(p(x) for p in t) for t in terms) != neg

    def one(self):
        c = self.peek()
        self.i += 1
        return self.escape() if c == '\\' else c


def expand(p, alphabet):
    """the pattern with every class spelled out over the alphabet"""
    out, i = '', 0
    spell = lambda f: '[' + ''.join(re.escape(c) if c not in '^-]\\[' else '\\' + c for c in alphabet if f(c)) + ']'
    while i < len(p):
        c = p[i]
        if c == '[':
            q = Parser(p, i)
            f = q.cls()
            i = q.i
            if not any(f(x) for x in alphabet):
                raise Bad('class without a character of the alphabet')
            out += spell(f)
        elif c == '\\' and i + 1 < len(p):
            if p[i + 1] in 'bBAz':
                out += {'z': '\\Z'}.get(p[i + 1], p[i:i + 2])
                i += 2
                continue
            q = Parser(p, i + 1)
            f = q.escape()
            i = q.i
            out += re.escape(f) if isinstance(f, str) else spell(f)
        else:
            out += c
            i += 1
    return out
