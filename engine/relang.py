"""Languages of regular expressions: patterns as automata over a finite alphabet, compared exactly."""
import re
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:                              # Python before 3.11
    import sre_parse as sp
    import sre_constants as sc
from engine import rx


class Unknown(Exception):
    pass


def category(c, ch):
    n = str(c)
    r = ch.isdecimal() if 'DIGIT' in n else ch.isspace() if 'SPACE' in n else (ch.isalnum() or ch == '_') if 'WORD' in n else None
    if r is None:
        raise Unknown(n)
    return r != ('NOT' in n)


def inset(items, ch):
    neg, hit = False, False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            hit |= ord(ch) == av
        elif op is sc.RANGE:
            hit |= av[0] <= ord(ch) <= av[1]
        elif op is sc.CATEGORY:
            hit |= category(av, ch)
        else:
            raise Unknown(str(op))
    return hit != neg


class NFA:
    """Thompson automaton of the syntax tree of a pattern; edges carry a predicate on characters"""

    def __init__(self, pattern, fold=False):
        self.eps, self.step, self.end, self.begin = {}, {}, {}, {}
        self.n = 0
        self.fold = fold
        try:
            pattern = re.sub(r'\\p\{(?:Nd|Decimal_Number)\}', r'\\d', pattern)
            if re.search(r'\\[pP][{A-Z]|&&|\[\[|\\b|\(\?[a-zA-Z]*-', pattern):
                raise Unknown('unmodelled syntax')
            tree = sp.parse(rx.norm(pattern))
            self.fold = fold or bool(tree.state.flags & re.I)
        except (re.error, OverflowError, RecursionError) as x:
            raise Unknown(str(x))
        self.start, self.final = self.new(), self.new()
        self.seq(list(tree), self.start, self.final)

    def new(self):
        self.n += 1
        if self.n > 60000:
            raise Unknown('too large')
        return self.n

    def e(self, a, b, kind=None):
        (self.end if kind == 'end' else self.begin if kind == 'begin' else self.eps).setdefault(a, []).append(b)

    def ch(self, a, b, p):
        self.step.setdefault(a, []).append((p, b))

    def seq(self, items, a, b):
        for k, it in enumerate(items):
            c = b if k == len(items) - 1 else self.new()
            self.one(it, a, c)
            a = c
        if not items:
            self.e(a, b)

    def lit(self, p):
        if not self.fold:
            return p
        return lambda c: p(c) or p(c.lower()) or len(c.upper()) == 1 and p(c.upper())

    def one(self, it, a, b):
        op, av = it
        if op is sc.LITERAL:
            self.ch(a, b, self.lit(lambda c, x=av: ord(c) == x))
        elif op is sc.NOT_LITERAL:
            self.ch(a, b, lambda c, x=av: ord(c) != x)
        elif op is sc.ANY:
            self.ch(a, b, lambda c: c != '\n')
        elif op is sc.IN:
            self.ch(a, b, self.lit(lambda c, x=av: inset(x, c)))
        elif op is sc.BRANCH:
            for alt in av[1]:
                self.seq(list(alt), a, b)
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unknown('flags')
            self.seq(list(av[3]), a, b)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            for _ in range(lo):
                c = self.new()
                self.seq(list(body), a, c)
                a = c
            if hi is sc.MAXREPEAT:
                c, d = self.new(), self.new()
                self.e(a, c)
                self.seq(list(body), c, d)
                self.e(d, c)
                self.e(c, b)
            else:
                for _ in range(hi - lo):
                    c = self.new()
                    self.seq(list(body), a, c)
                    self.e(a, b)
                    a = c
                self.e(a, b)
        elif op is sc.AT:
            n = str(av)
            if n in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                self.e(a, b, 'begin')
            elif n in ('AT_END', 'AT_END_STRING'):
                self.e(a, b, 'end')
            else:
                raise Unknown(n)
        else:
            raise Unknown(str(op))

    def close(self, states, begin=False, end=False):
        todo, seen = list(states), set(states)
        while todo:
            s = todo.pop()
            for t in self.eps.get(s, []) + (self.begin.get(s, []) if begin else []) + (self.end.get(s, []) if end else []):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)


class DFA:
    """does the pattern match somewhere in the text (is_match), or the whole text"""

    def __init__(self, pattern, alphabet, whole=False, fold=False):
        self.m = NFA(pattern, fold)
        self.whole = whole
        self.first = self.m.close([self.m.start], begin=True)
        self.loop = self.m.close([self.m.start])
        self.memo = {}
        self.preds = {}
        for s, es in self.m.step.items():
            self.preds[s] = [(frozenset(c for c in alphabet if p(c)), t) for p, t in es]

    def start(self):
        return (self.first, not self.whole and self.m.final in self.first)

    def next(self, st, c):
        k = (st, c)
        if k not in self.memo:
            s, done = st
            if done:
                self.memo[k] = st
            else:
                t = self.m.close([b for q in s for cs, b in self.preds.get(q, ()) if c in cs])
                if not self.whole:
                    t = t | self.loop
                self.memo[k] = (t, not self.whole and self.m.final in t)
        return self.memo[k]

    def accepts(self, st):
        return st[1] or self.m.final in self.m.close(st[0], end=True)


def differ(pattern, alphabet, start, step, accept, whole=False, limit=20000, fold=False):
    """a text on which the pattern and a reference automaton disagree, or None; Unknown when it cannot be decided"""
    d = DFA(pattern, alphabet, whole, fold)
    first = (d.start(), start)
    seen = {first: ''}
    todo = [first]
    while todo:
        cur = todo.pop(0)
        if bool(d.accepts(cur[0])) != bool(accept(cur[1])):
            return seen[cur]
        for c in alphabet:
            n = (d.next(cur[0], c), step(cur[1], c))
            if n not in seen:
                if len(seen) > limit:
                    raise Unknown('too large')
                seen[n] = seen[cur] + c
                todo.append(n)
    return None


def contains(pattern, others, alphabet, whole=False, limit=20000):
    """a text the pattern matches although none of the others does, or None"""
    d = DFA(pattern, alphabet, whole)
    os = [DFA(p, alphabet, whole) for p in others]
    first = (d.start(), tuple(o.start() for o in os))
    seen, todo = {first: ''}, [first]
    while todo:
        cur = todo.pop(0)
        if d.accepts(cur[0]) and not any(o.accepts(s) for o, s in zip(os, cur[1])):
            return seen[cur]
        for c in alphabet:
            n = (d.next(cur[0], c), tuple(o.next(s, c) for o, s in zip(os, cur[1])))
            if n not in seen:
                if len(seen) > limit:
                    raise Unknown('too large')
                seen[n] = seen[cur] + c
                todo.append(n)
    return None
