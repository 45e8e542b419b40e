"""Bit provenance and reference automata for the base64 codec.

The loops of the codec come out of the abstract interpreter as graphs: one node for each partition of the loop head, one edge for
each way through the body.  Here such a graph is walked together with a reference automaton.  Along the walk every loop-carried
variable holds one of
  ('lin', ((name, factor), ...), c)   a linear combination of the automaton's counters (g groups done, n characters taken, N bytes
                                      of input)
  ('bits', (b0, b1, ...))             bit by bit where it comes from: 0, 1, (label, k) = bit k of that unit, or '?'
or nothing known (None)."""
from .common import *
from sa.models import catparts

WIDTH = 40
ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
SPACE = (9, 10, 11, 12, 13, 32)


def L(c, **k):
    return ('lin', tuple(sorted((n, f) for n, f in k.items() if f)), c)


def ladd(a, b, kb=1):
    d = dict(a[1])
    for n, f in b[1]:
        d[n] = d.get(n, 0) + kb * f
    return ('lin', tuple(sorted((n, f) for n, f in d.items() if f)), a[2] + kb * b[2])


def lscale(a, k):
    return ('lin', tuple((n, f * k) for n, f in a[1] if f * k), a[2] * k)


def lconst(a):
    return a[2] if a is not None and a[0] == 'lin' and not a[1] else None


def bits_of(v):
    if v is None:
        return None
    if v[0] == 'bits':
        return v[1]
    c = lconst(v)
    if c is None or c < 0:
        return None
    return tuple((c >> i) & 1 for i in range(WIDTH))


def label(name, n):
    return ('bits', tuple((name, i) if i < n else 0 for i in range(WIDTH)))


def known(b):
    if all(x in (0, 1) for x in b):
        return L(sum(x << i for i, x in enumerate(b)))
    return ('bits', tuple(b))


class Abs:
    """abstract value of a term; env gives the values of atoms (phi terms, characters, cells)"""

    def __init__(self, env, tables, atom=None):
        self.env, self.tables, self.atom = env, tables, atom
        self.memo = {}

    def val(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = r = self._val(t)
        return r

    def _val(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k == 'B':
            return L(t[1])
        if k == 'n':
            if not t[2]:
                return L(t[1])
            parts = [(self.val(x), f) for x, f in t[2]]
            if len(parts) == 1 and parts[0][1] == 1 and t[1] == 0:
                return parts[0][0]
            if any(v is None for v, f in parts):
                return None
            if all(v[0] == 'lin' for v, f in parts):
                r = L(t[1])
                for v, f in parts:
                    r = ladd(r, v, f)
                return r
            # a sum of bit fields that do not overlap
            out = [0] * WIDTH
            items = [(bits_of(v), f) for v, f in parts] + ([(bits_of(L(t[1])), 1)] if t[1] else [])
            for b, f in items:
                if b is None or f <= 0 or f & (f - 1):
                    return None
                sh = f.bit_length() - 1
                for i in range(WIDTH - sh):
                    if b[i] != 0:
                        if out[i + sh] != 0:
                            return None
                        out[i + sh] = b[i]
                if any(x != 0 for x in b[WIDTH - sh:]):
                    return None
            return known(out)
        if k != 't':
            return None
        op = t[1]
        if self.atom is not None:
            r = self.atom(self, t)
            if r is not None:
                return r if r != () else None
        if op in ('uchar', 'byte', 'schar', 'char'):
            v = self.val(t[2])
            b = bits_of(v)
            if b is None:
                return None
            if op in ('schar', 'char') and b[7] != 0:
                if b[7] == 1 and all(x in (0, 1) for x in b[:8]):
                    return L(sum(x << i for i, x in enumerate(b[:8])) - 256)
                return None
            return known(tuple(b[:8]) + (0,) * (WIDTH - 8))
        if op in ('<<', '>>'):
            b, n = bits_of(self.val(t[2])), lconst(self.val(t[3]))
            if b is None or n is None or not 0 <= n < 32:
                return None
            if op == '<<':
                if any(x != 0 for x in b[WIDTH - n:]):
                    return None
                return known((0,) * n + tuple(b[:WIDTH - n]))
            return known(tuple(b[n:]) + (0,) * n)
        if op in ('&', '|', '^'):
            a, b = bits_of(self.val(t[2])), bits_of(self.val(t[3]))
            if a is None and op == '&':
                a, b = b, a
            if a is None:
                return None
            if b is None:
                if op != '&':
                    return None
                b = ('?',) * WIDTH
            f = {'&': band, '|': bor, '^': bxor}[op]
            return known(tuple(f(x, y) for x, y in zip(a, b)))
        if op == '*':
            a, b = self.val(t[2]), self.val(t[3])
            if lconst(a) is None:
                a, b = b, a
            c = lconst(a)
            if c is None or b is None:
                return None
            if b[0] == 'lin':
                return lscale(b, c)
            if c > 0 and not c & (c - 1):
                n = c.bit_length() - 1
                return known((0,) * n + tuple(b[1][:WIDTH - n]))
            return None
        if op in ('/', '%'):
            a, d = self.val(t[2]), lconst(self.val(t[3]))
            if a is None or not d or d < 0:
                return None
            if a[0] == 'lin':
                if a[2] < 0 or any(f % d or f < 0 for n, f in a[1]):
                    return None
                if op == '%':
                    return L(a[2] % d)
                return ('lin', tuple((n, f // d) for n, f in a[1]), a[2] // d)
            if not d & (d - 1):
                n = d.bit_length() - 1
                b = a[1]
                return known(tuple(b[n:]) + (0,) * n) if op == '/' else known(tuple(b[:n]) + (0,) * (WIDTH - n))
            return None
        if op == 'tab':
            i = lconst(self.val(t[3]))
            tab = self.tables(t[2])
            if i is not None and tab and 0 <= i < len(tab):
                return L(tab[i])
            return None
        return None


def band(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    return x if x == y else '?'


def bor(x, y):
    if x == 1 or y == 1:
        return 1
    if x == 0:
        return y
    if y == 0:
        return x
    return x if x == y else '?'


def bxor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x in (0, 1) and y in (0, 1):
        return x ^ y
    return '?'


def cval(t, ch, pos, tables):
    """value of a term when the character at hand has the byte value ch (None for the end of the input)"""
    k = t[0]
    if k == 'B':
        return t[1]
    if k == 'n':
        r = t[1]
        for x, f in t[2]:
            v = cval(x, ch, pos, tables)
            if v is None:
                return None
            r += f * v
        return r
    if k == 's' and len(t[1]) == 1:
        return ord(t[1])
    if k != 't':
        return None
    op = t[1]
    if op == 'at':
        return None if ch is None else (ch if ch < 128 else ch - 256)
    if op in ('uchar', 'byte', 'chr'):
        v = cval(t[2], ch, pos, tables)
        return None if v is None else (v & 255 if op != 'chr' else v)
    if op in ('schar', 'char'):
        v = cval(t[2], ch, pos, tables)
        return None if v is None else ((v & 255) ^ 128) - 128
    if op == 'tab':
        i = cval(t[3], ch, pos, tables)
        tab = tables(t[2])
        if i is None or not tab or not 0 <= i < len(tab):
            return None
        return tab[i]
    if op in ('&', '|', '^', '<<', '>>', '*'):
        a, b = cval(t[2], ch, pos, tables), cval(t[3], ch, pos, tables)
        if a is None or b is None:
            return None
        return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if b < 64 else 0, '>>': a >> b, '*': a * b}[op]
    return None


def refuted(st, ch, tables, flag=None, flagval=None):
    """do the facts of the state exclude this character (or this value of the flag)?"""
    for x in st.le:
        v = cval(x, ch, None, tables)
        if v is not None and v > 0:
            return True
    for x in st.ne:
        v = cval(x, ch, None, tables)
        if v is not None and v == 0:
            return True
    for t, w in st.bind.items():
        a, b = cval(t, ch, None, tables), cval(w, ch, None, tables)
        if a is not None and b is not None and a != b:
            return True
    for t, (lo, hi) in st.iv.items():
        v = cval(t, ch, None, tables) if t[:2] in (('t', 'tab'), ('t', 'at'), ('t', 'uchar'), ('t', 'schar'), ('t', 'char')) else None
        if v is not None and (lo is not None and v < lo or hi is not None and v > hi):
            return True
    for t, b in st.facts.items():
        if flag is not None and t == flag[0] and (bool(b) == bool(flag[1])) != bool(flagval):
            return True
    return False


def positions(st, *terms):
    """index terms of the characters that the facts and the given terms look at"""
    out = set()
    for t in list(st.le) + list(st.ne) + list(st.bind) + [w for w in st.bind.values()] + list(st.facts) + list(terms):
        if isinstance(t, tuple):
            for x in subterms(t):
                if isinstance(x, tuple) and x[:2] == ('t', 'at') and len(x) > 3:
                    out.add(x[3])
    return out


class Edge:
    """one way from a loop head: to the next head, or out of the function"""
    def __init__(self, key, st, what, key2=None, val=None, h0=None):
        self.key, self.st, self.what, self.key2, self.val, self.h0 = key, st, what, key2, val, h0


def graph(r):
    """(loop, edges of every head) of a function with one loop, or None"""
    if len(r.loops) != 1:
        return None
    loop = r.loops[0]
    es = {}
    for key, h0, b, k2 in loop.iters:
        es.setdefault(key, []).append(Edge(key, b, 'next', k2, None, h0))
    before = []
    for st, v, what in [(st, v, 'return') for st, v in r.rets] + [(st, et, 'throw') for st, et, v in r.throws]:
        ls = [e for e in st.events() if e[0] == 'loop']
        if ls:
            es.setdefault(ls[-1][2], []).append(Edge(ls[-1][2], st, what, None, v, loop.heads[ls[-1][2]]))
        else:
            before.append(Edge(None, st, what, None, v, None))
    return loop, es, before


def own_stores(e):
    """what happens on the edge: stores since the head"""
    return [x for x in e.st.events(e.h0.ev if e.h0 is not None else None) if x[0] == 'store']


# --- the reference automaton of decoding
# states: 0..3 data characters of the group taken; 'p' two data characters and one '=' taken; ('D', c) the data has ended with a last
# group of c bytes; 'R' the input is invalid

def spec(q, ch, ignore):
    """('next', state) | ('accept', bytes of the last group) | ('reject',)"""
    if q == 'R':
        return ('reject',)
    if isinstance(q, tuple):
        return ('accept', q[1]) if ch is None else ('next', q)
    if ch is None:
        return ('accept', 0) if q == 0 else ('reject',)
    c = chr(ch)
    if c in ALPHABET:
        return ('reject',) if q == 'p' else ('next', (q + 1) % 4)
    if c == '=':
        if q in (0, 1):
            return ('reject',)
        if q == 2:
            return ('next', 'p')
        return ('accept', 1 if q == 'p' else 2)
    if ch in SPACE or ignore:
        return ('next', q)
    return ('reject',)


def expected(k):
    """bits of the k-th byte of a group"""
    b = []
    for i in range(8):          # bit i of the byte is bit 23-8k-7+i of the 24 bit group
        pos = 8 * (2 - k) + i
        m, j = 3 - pos // 6, pos % 6
        b.append((('d', m), j))
    return ('bits', tuple(b) + (0,) * (WIDTH - 8))


class Walk:
    """product of the graph of a decoding function with the reference automaton"""

    def __init__(self, c, f, r, flag, writes):
        self.c, self.f, self.r, self.flag, self.writes = c, f, r, flag, writes
        self.tables = r.E.table
        self.loop, self.edges, self.before = graph(r)
        self.problems = []       # (verdict, text, state, line)
        self.n = 0
        self.cache = {}
        self.now = None          # (characters, groups) in the exact walk over short inputs

    def here(self):
        return L(0, n=1) if self.now is None else L(self.now[0])

    def groups(self, k, c=0):
        return L(c, g=k) if self.now is None else L(c + k * self.now[1])

    def exact(self, depth=9):
        """the same walk for short inputs, each counter with its value: finds what the joins of the other walk hide"""
        self.basis = {}
        self.exactly = True
        key = next(iter(self.loop.heads))
        a = Abs({}, self.tables)
        env = {phi: (a.val(self.loop.entry.mem[loc]) if loc in self.loop.entry.mem else None) for loc, phi in self.loop.phi.items()}
        todo = [((key, 0, frozenset()), env, {}, 0, 0)]
        seen = set()
        while todo and len(seen) < 4000 and not any(p[0] is False for p in self.problems):
            s, env, wr, n, g = todo.pop(0)
            k = (s, tuple(sorted(env.items(), key=lambda x: repr(x[0]))), tuple(sorted(wr.items())), n, g)
            if k in seen or n > depth:
                continue
            seen.add(k)
            self.now = (n, g)
            for s2, env2, wr2, dn, dg in list(self.steps(s, env, wr, True)):
                todo.append((s2, env2, wr2, n + dn, g + dg))

    def content_len(self):
        return strlen(self.content)

    def start(self, only=None, basis=None):
        key = next(iter(self.loop.heads))
        env = {}
        a = Abs({}, self.tables)
        for loc, phi in self.loop.phi.items():
            v = self.loop.entry.mem.get(loc)
            x = a.val(v) if v is not None else None
            c0 = lconst(x)
            if c0 is not None and c0 >= 0 and self.counter(loc):
                if only is not None:
                    x = ladd(L(c0), basis) if loc == only else None
                else:
                    x = ladd(L(c0), self.basis[loc]) if loc in self.basis else None
            env[phi] = x
        return (key, 0, frozenset()), env, {}

    def counter(self, loc):
        """an integer that the loop does not keep to a few values"""
        return any(tag[0] == 'top' for key in self.loop.heads for l, tag in key if l == loc)

    def bases(self):
        """which combination of characters and groups each counter of the loop is: the one that the walk keeps up"""
        self.basis = {}
        for loc in sorted(self.loop.phi, key=skey):
            x = Abs({}, self.tables).val(self.loop.entry.mem.get(loc) or num(0))
            if lconst(x) is None or not self.counter(loc) or loc not in self.loop.entry.mem:
                continue
            for b in (L(0, n=1), L(0, g=3), L(0, g=4), L(0, g=1)):
                tab = self.fix(loc, b, partial=True)
                phi = self.loop.phi[loc]
                if tab and all(env[phi] is not None for (k, q, w), (env, wr) in tab.items() if q != 'R' and not isinstance(q, tuple)):
                    self.basis[loc] = b
                    break

    def run(self):
        # the text: what the characters are taken from
        texts = set()
        for es in self.edges.values():
            for e in es:
                for t in list(e.st.bind) + list(e.st.ne) + list(e.st.le) + list(e.st.mem.values()):
                    if isinstance(t, tuple):
                        for x in subterms(t):
                            if isinstance(x, tuple) and x[:2] == ('t', 'at') and len(x) > 3:
                                texts.add(x[2])
        if len(texts) != 1:
            return 'the characters come from %d texts' % len(texts)
        self.content = texts.pop()
        self.bases()
        tab = self.fix()
        if tab is None:
            return 'the walk does not come to an end'
        for s in sorted(tab, key=repr):
            list(self.steps(s, *tab[s], report=True))
        self.states = len(tab)
        return None

    def fix(self, only=None, basis=None, partial=False):
        s, env, wr = self.start(only, basis)
        tab = {s: (env, wr)}
        work = [s]
        rounds = 0
        while work:
            rounds += 1
            if rounds > 3000:
                return None
            s = work.pop()
            for s2, env2, wr2 in self.steps(s, *tab[s], report=False):
                if partial:
                    env2 = {k: v for k, v in env2.items() if k == self.loop.phi[only]}
                    wr2 = {}
                    s2 = (s2[0], s2[1], frozenset())
                    if env2[self.loop.phi[only]] is None and s2[1] != 'R' and not isinstance(s2[1], tuple):
                        return None
                if s2 not in tab:
                    tab[s2] = (env2, wr2)
                    work.append(s2)
                else:
                    j = join(tab[s2], (env2, wr2))
                    if j != tab[s2]:
                        tab[s2] = j
                        if s2 not in work:
                            work.append(s2)
        return tab

    def steps(self, s, env, wr, report):
        key, q, _ = s
        pos = [phi for phi, v in env.items() if v == self.here()]
        done = {}
        es = self.edges.get(key, [])
        ends = [any(e.st.prove_le(sub(self.content_len(), p)) for p in pos) for e in es]
        goes = [any(e.st.prove_le(sub(add(p, num(1)), self.content_len())) for p in pos) for e in es]
        no = [self.contradicted(e, env) for e in es]
        for ch in [None] + list(range(256)):
            for ign in (0, 1):
                want = spec(q, ch, ign)
                allowed = [i for i, e in enumerate(es) if not no[i] and not self.refuted(e, ch, ign) and not (goes[i] if ch is None else ends[i])]
                data = ch is not None and chr(ch) in ALPHABET
                memo = (tuple(allowed), want, data and q in (0, 1, 2, 3) and self.table_values(ch))
                if memo in done:
                    continue
                done[memo] = (ch, ign)
                yield from self.one(s, env, wr, ch, ign, want, [es[i] for i in allowed], report, pos)

    def contradicted(self, e, env):
        """do the values of the walk exclude the edge, whatever the character?"""
        a = Abs(env, self.tables)
        for x in e.st.le:
            v = lconst(a.val(x))
            if v is not None and v > 0:
                return True
        for x in e.st.ne:
            if lconst(a.val(x)) == 0:
                return True
        for t, w in e.st.bind.items():
            x, y = lconst(a.val(t)), lconst(a.val(w))
            if x is not None and y is not None and x != y:
                return True
        return False

    def refuted(self, e, ch, ign):
        k = (id(e), ch, ign)
        if k not in self.cache:
            self.cache[k] = refuted(e.st, ch, self.tables, self.flag, ign)
        return self.cache[k]

    def table_values(self, ch):
        """do all tables map the character to its value?  (for grouping)"""
        return tuple(sorted((k, (self.tables(k) or [])[ch] == ALPHABET.index(chr(ch)) or (ch, self.tables(k)[ch])) for k in self.tabs() if len(self.tables(k) or []) > ch))

    def tabs(self):
        if 'tabs' not in self.__dict__:
            self._tabs()
        return self.__dict__['tabs_']

    def _tabs(self):
        out = set()
        for es in self.edges.values():
            for e in es:
                for t in list(e.st.bind) + list(e.st.ne) + list(e.st.le) + list(e.st.mem.values()):
                    if isinstance(t, tuple):
                        for x in subterms(t):
                            if isinstance(x, tuple) and x[:2] == ('t', 'tab'):
                                out.add(x[2])
        self.tabs_ = out
        self.tabs = lambda: out

    def one(self, s, env, wr, ch, ign, want, allowed, report, pos):
        key, q, _ = s
        if report:
            self.n += 1
        res = []
        for e in allowed:
            res.append(self.edge(s, env, wr, ch, ign, want, e))
        bad = [(e, x[1]) for e, x in zip(allowed, res) if x[0] is False]
        maybe = [(e, x[1]) for e, x in zip(allowed, res) if x[0] is None]
        if report:
            for e, why in bad:
                sure = True if len(bad) == len(allowed) else all(self.complete(e, ch, pos))
                v = None if e.st.unk or not sure else False
                self.problems.append((v, '%s: %s' % (describe(q, ch, ign), why), e.st, self.line(e)))
            for e, why in maybe:
                self.problems.append((None, '%s: %s' % (describe(q, ch, ign), why), e.st, self.line(e)))
        for x in res:
            if x[0] is not False and x[2] is not None:
                yield x[2]

    def line(self, e):
        return self.loop.line

    def complete(self, e, ch, pos):
        """does every fact that the edge adds concern the character, the flag or the position?"""
        h = e.h0
        ok = set(pos) | {T('len', self.content)}
        for x in list(e.st.le) + list(e.st.ne):
            if h is not None and (x in h.le or x in h.ne):
                continue
            yield cval(x, ch, None, self.tables) is not None or all(t in ok for t, k in lin(x)[2])
        for t in e.st.bind:
            if h is not None and t in h.bind:
                continue
            yield cval(t, ch, None, self.tables) is not None or t in ok
        for t in e.st.facts:
            if h is not None and t in h.facts:
                continue
            yield (self.flag is not None and t == self.flag[0]) or t[0] == 'null'

    def edge(self, s, env, wr, ch, ign, want, e):
        """(True | False | None, why, next product state or None)"""
        key, q, _ = s
        data = ch is not None and chr(ch) in ALPHABET and q in (0, 1, 2, 3)
        wrong = []

        def atom(a, t):
            if t[1] == 'at':
                i = a.val(t[3])
                if t[2] != self.content or i is None:
                    return ()
                if i != self.here():
                    wrong.append(i)
                return L(ch if ch < 128 else ch - 256) if ch is not None else L(0)
            if t[1] == 'tab':
                v = cval(t, ch, None, self.tables)
                if v is None:
                    return None
                a.val(t[3])
                if data and v == ALPHABET.index(chr(ch)):
                    return label(('d', q), 6)
                return L(v)
            return None
        a = Abs(env, self.tables, atom)
        # which characters the edge looks at
        look = {a.val(p) for p in positions(e.st, *[x for x in e.st.mem.values() if isinstance(x, tuple)])}
        old = {a.val(p) for p in positions(e.h0)} if e.h0 is not None else set()
        for x in look:
            if self.now is None and x is not None and x[0] == 'lin' and dict(x[1]).get('n') == 1 and x[2] > 0:
                return (False, 'looks at a character %d further on' % x[2], None)
        # the bytes written
        wr2 = dict(wr)
        if self.writes:
            for ev in own_stores(e):
                loc, v = ev[1], ev[2]
                k = self.outpos(loc, a)
                if k is None:
                    continue
                if k == '?':
                    if q != 'R' and want[0] != 'reject':
                        return (None, 'writes to a place that is not understood', None)
                    continue
                if q == 'R' or want[0] == 'reject':
                    continue
                if not 0 <= k <= 2 or isinstance(q, tuple):
                    return (False, 'writes byte %d of a group of three' % k, None)
                x = a.val(v)
                b = bits_of(x)
                wr2[k] = ('bits', b) if b is not None else None
        if want[0] == 'reject':
            if e.what == 'throw':
                return (True, '', None) if self.writes else (False, 'throws', None)
            if e.what == 'return':
                if self.writes:
                    return (False, 'returns although the input is invalid', None)
                v = a.val(e.val)
                if v == L(0):
                    return (True, '', None)
                if v is None:
                    return (None, 'returns something that is not understood', None)
                if v[0] == 'lin' and v[2] == 0 and not v[1]:
                    return (True, '', None)
                return (False, 'returns %s, not 0, although the input is invalid' % showabs(v), None)
            return self.go(e, a, 'R', {}, 0, False)
        if want[0] == 'accept' or isinstance(q, tuple):
            cnt = want[1] if want[0] == 'accept' else q[1]
            if not isinstance(q, tuple) and self.writes:
                w = self.group(wr2, cnt)
                if w is not None:
                    return w
            if e.what == 'throw':
                return (False, 'throws although the input is valid', None)
            if e.what == 'return':
                v = a.val(e.val)
                if v == self.groups(3, cnt):
                    return (True, '', None)
                if v is None:
                    return (None, 'returns something that is not understood', None)
                return (False, 'returns %s and not 3 for each group and %d' % (showabs(v), cnt), None)
            if ch is None:
                return (False, 'reads on after the end of the input', None)
            return self.go(e, a, ('D', cnt), {}, 0, False)
        q2 = want[1]
        if e.what == 'throw':
            return (False, 'throws although the input may be valid', None)
        if e.what == 'return':
            return (False, 'returns although the input goes on', None)
        full = q == 3 and q2 == 0
        if full and self.writes:
            w = self.group(wr2, 3)
            if w is not None:
                return w
        return self.go(e, a, q2, {} if full else wr2, 1 if full else 0, full)

    def group(self, wr, n):
        if set(wr) != set(range(n)):
            return (False, 'writes %d bytes for a group of %d' % (len(wr), n), None)
        for k in range(n):
            if wr[k] is None:
                return (None, 'byte %d of a group is not understood' % k, None)
            if wr[k] != expected(k):
                if any(x == '?' for x in wr[k][1]):
                    return (None, 'byte %d of a group is not understood' % k, None)
                return (False, 'byte %d of a group is made of the wrong bits' % k, None)
        return None

    def outpos(self, loc, a):
        """position in the current group that is written; None if it is no output"""
        base = ('d', T('par', 1))
        if loc == base:
            i = L(0)
        elif loc[0] in ('e', 'c') and loc[1] == base:
            i = a.val(loc[2])
        elif loc[0] == 'd' and loc[1] != T('par', 1):
            i = self.through(loc[1], a)
            if i is False:
                return None
        else:
            return '?' if contains(loc, lambda x: x == T('par', 1)) else None
        if i is None:
            return '?'
        d = ladd(i, self.groups(3), -1)
        k = lconst(d)
        return '?' if k is None else k

    def through(self, p, a):
        return False

    def go(self, e, a, q2, wr2, dg, full):
        env2 = {}
        for loc, phi in self.loop.phi.items():
            v = e.st.mem.get(loc)
            x = a.val(v) if v is not None else None
            if self.now is None and x is not None and x[0] == 'lin':
                d = dict(x[1])
                x = ('lin', x[1], x[2] - d.get('n', 0) - d.get('g', 0) * dg)
            elif x is not None and x[0] == 'bits' and full:
                x = known(tuple('?' if isinstance(b, tuple) else b for b in x[1]))
            env2[phi] = x
        s2 = (e.key2, q2, frozenset(wr2))
        return (True, '', (s2, env2, wr2) if self.now is None else (s2, env2, wr2, 1, dg))


def join(a, b):
    env = {}
    for k in set(a[0]) | set(b[0]):
        env[k] = jv(a[0].get(k), b[0].get(k))
    wr = {k: jv(a[1][k], b[1].get(k)) for k in a[1]}
    return env, wr


def jv(x, y):
    if x == y:
        return x
    bx, by = bits_of(x), bits_of(y)
    if bx is None or by is None:
        return None
    return known(tuple(p if p == q else '?' for p, q in zip(bx, by)))


def showabs(v):
    if v is None:
        return 'something unknown'
    if v[0] == 'lin':
        return ' + '.join(['%d %s' % (f, {'g': 'for each group', 'n': 'for each character', 'N': 'for each byte'}[n]) for n, f in v[1]] + ([str(v[2])] if v[2] or not v[1] else []))
    return 'bits ' + ' '.join(str(b) for b in v[1][:8])


def describe(q, ch, ign):
    st = {'p': 'after the first of two "="', 'R': 'after invalid input'}.get(q) if not isinstance(q, (tuple, int)) else ('after the last group' if isinstance(q, tuple) else 'after %d characters of a group' % q)
    c = 'the end of the input' if ch is None else ('%r' % chr(ch) if ch < 128 else 'byte %d' % ch)
    return '%s, at %s%s' % (st, c, ', invalid characters ignored' if ign and ch is not None and chr(ch) not in ALPHABET + '=' and ch not in SPACE else '')
