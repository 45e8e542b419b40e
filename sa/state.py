"""Abstract state of one partition of the dataflow analysis: a store that maps
locations to value numbers, plus the branch facts known on that partition."""
from .terms import *

NPOS = (1 << 64) - 1
SMAX = (1 << 62)
# memory keys that describe a location instead of holding the value of one
TAGS = frozenset(('alive', 'dead', 'opq', 'zero', 'hav', 'count', 'str', 'bytes', 'sst', 'prec', 'fmt', 'in', 'cnt', 'fname', 'statof'))

_INTR = {
    'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
    'short': (-32768, 32767), 'unsigned short': (0, 65535), 'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1),
    'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1), 'long long': (-2**63, 2**63 - 1),
    'unsigned long long': (0, 2**64 - 1), '__int128': (-2**127, 2**127 - 1), 'wchar_t': (-2**31, 2**31 - 1),
}


def int_range(t):
    if t is None:
        return None
    t = t.replace('const ', '').replace('volatile ', '').strip()
    return _INTR.get(t)


def is_unsigned(t):
    r = int_range(t)
    return r is not None and r[0] == 0 and t != 'bool'


def is_float(t):
    return t in ('float', 'double', 'long double')


def mkptr(loc):
    if loc[0] == 'd':
        return loc[1]
    return ('p', loc)


def loc_base(loc):
    while loc[0] in ('f', 'e', 'c'):
        loc = loc[1]
    return loc


class St:
    __slots__ = ('mem', 'facts', 'le', 'bind', 'iv', 'cset', 'typ', 'ev', 'live', 'unk', 'n', 'gen', 'tmps', 'ne', 'cache')

    def __init__(self):
        self.mem = {}
        self.facts = {}      # non arithmetic atoms
        self.le = ()         # linear forms known <= 0
        self.ne = ()         # linear forms known != 0
        self.bind = {}       # term -> linear form
        self.iv = {}         # term -> (lo, hi)
        self.cset = {}       # term -> frozenset of possible values
        self.typ = {}        # loc -> frozenset of possible exact classes
        self.ev = None       # linked list (prev, item)
        self.live = ()       # automatic objects that need destruction
        self.tmps = ()
        self.unk = ()
        self.n = 0
        self.gen = 0
        self.cache = None

    def fork(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.le = self.le
        s.ne = self.ne
        s.bind = dict(self.bind)
        s.iv = dict(self.iv)
        s.cset = dict(self.cset)
        s.typ = dict(self.typ)
        s.ev = self.ev
        s.live = self.live
        s.tmps = self.tmps
        s.unk = self.unk
        s.n = self.n
        s.cache = self.cache
        s.gen = self.gen
        return s

    def join(self, o):
        """keep only what both partitions know"""
        f2 = o.facts
        self.facts = {a: v for a, v in self.facts.items() if f2.get(a) == v}
        keep = []
        for f in self.le:
            if f in o.le or o.prove_le(f):
                keep.append(f)
        for f in o.le:
            if f not in keep and self.prove_le(f):
                keep.append(f)
        self.ne = tuple(v for v in self.ne if v in o.ne or o.decide_atom(('eq0', v)) == 0)
        bind = {}
        for t, v in self.bind.items():
            if o.bind.get(t) == v:
                bind[t] = v
        iv = {}
        for t in set(self.iv) | set(o.iv) | set(self.bind) | set(o.bind):
            a, b = self.bounds(lin(t)), o.bounds(lin(t))
            lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
            hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
            if lo is not None or hi is not None:
                iv[t] = (lo, hi)
        cs = {}
        for t, c in self.cset.items():
            if t in o.cset:
                cs[t] = c | o.cset[t]
        self.le = tuple(keep)
        self.bind, self.iv, self.cset = bind, iv, cs
        self.n = max(self.n, o.n)
        self.gen = max(self.gen, o.gen)

    # -- trace ---------------------------------------------------------------
    def emit(self, *item):
        self.ev = (self.ev, item)

    def events(self, since=None):
        out = []
        p = self.ev
        while p is not None and p is not since:
            out.append(p[1])
            p = p[0]
        out.reverse()
        return out

    def fresh(self):
        self.n += 1
        return self.n

    def unknown(self, why):
        if why not in self.unk:
            self.unk = self.unk + (why,)

    # -- integers --------------------------------------------------------------
    def norm(self, v):
        """substitute known bindings in a linear form"""
        v = lin(v)
        if not self.bind or not v[2]:
            return v
        for _ in range(8):
            hit = False
            for t, k in v[2]:
                b = self.bind.get(t)
                if b is not None:
                    v = add(sub(v, scale(lin(t), k)), scale(b, k))
                    hit = True
                    break
            if not hit:
                return v
        return v

    def tiv(self, t):
        r = self.iv.get(t)
        if r is not None:
            return r
        r = default_iv(t)
        cs = self.cset.get(t)
        if cs:
            r = (min(cs), max(cs))
        return r

    def bounds(self, v):
        v = self.norm(v)
        lo = hi = v[1]
        for t, k in v[2]:
            r = self.tiv(t)
            a, b = r if r else (None, None)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def le_forms(self):
        """the known inequalities with the bindings put in, as dictionaries"""
        c = self.cache
        if c is not None and c[0] is self.le and c[1] == self.bind:
            return c[2]
        out = []
        for f in self.le:
            f = self.norm(f)
            if f[2]:
                out.append((f, dict(f[2])))
        self.cache = (self.le, dict(self.bind), out)
        return out

    def prove_le(self, v, depth=2):
        """v <= 0 on every run of this partition?"""
        return self.prove_norm(self.norm(v), depth)

    def prove_norm(self, v, depth):
        hi = v[1]
        for t, k in v[2]:
            r = self.tiv(t)
            b = (r[1] if k > 0 else r[0]) if r else None
            if b is None:
                hi = None
                break
            hi += k * b
        if hi is not None and hi <= 0:
            return True
        if not v[2] or depth == 0:
            return False
        limit = len(v[2]) + (1 if depth > 1 else 0)
        for f, fd in self.le_forms():
            n = len(v[2]) + len(fd)
            common = False
            for t, k in v[2]:
                kf = fd.get(t)
                if kf is not None:
                    common = True
                    n -= 2 if kf == k else 1
            if not common or n > limit:
                continue
            if self.prove_norm(sub(v, f), depth - 1):
                return True
        return False

    def decide(self, b):
        """1 / 0 / None for a boolean value"""
        if b[0] == 'B':
            return b[1]
        if b[0] == 'b':
            r = self.decide_atom(b[1])
            if r is None:
                return None
            return r if b[2] else 1 - r
        return None

    def decide_atom(self, a):
        k = a[0]
        if k == 'le':
            if self.prove_le(a[1]):
                return 1
            if self.prove_le(sub(num(1), a[1])):
                return 0
            return None
        if k == 'eq0':
            v = self.norm(a[1])
            if not v[2]:
                return 1 if v[1] == 0 else 0
            lo, hi = self.bounds(v)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return 0
            if lo == 0 and hi == 0:
                return 1
            if len(v[2]) == 1 and abs(v[2][0][1]) == 1:
                t, kk = v[2][0]
                val = -v[1] * kk
                cs = self.cset.get(t)
                if cs is not None:
                    if val not in cs:
                        return 0
                    if len(cs) == 1:
                        return 1
            for w in self.ne:
                w = self.norm(w)
                if w == v or scale(w, -1) == v:
                    return 0
            if self.prove_le(v) and self.prove_le(scale(v, -1)):
                return 1
            if self.prove_le(add(v, num(1))) or self.prove_le(sub(num(1), v)):
                return 0
            return None
        if k == 'eq':
            return self.decide_eq(a[1], a[2])
        if k == 'null':
            return self.decide_null(a[1])
        if k == 'isa':
            r = self.facts.get(a)
            return None if r is None else int(r)
        r = self.facts.get(a)
        if r is None and k == 'true' and a[1][0] == 't':
            # a stream that is at its end or broken: bad implies fail
            op = a[1][1]
            if op == 'fail' and self.facts.get(('true', T('bad', a[1][2]))) is True:
                return 1
            if op == 'bad' and self.facts.get(('true', T('fail', a[1][2]))) is False:
                return 0
        return None if r is None else int(r)

    def eqclass(self, x):
        out, todo = {x}, [x]
        while todo:
            y = todo.pop()
            for a, r in self.facts.items():
                if r and a[0] == 'eq':
                    z = a[2] if a[1] == y else a[1] if a[2] == y else None
                    if z is not None and z not in out:
                        out.add(z)
                        todo.append(z)
        return out

    def decide_eq(self, x, y):
        if x == y:
            return 1
        r = self.facts.get(eqatom(x, y))
        if r is not None:
            return int(r)
        cx = self.eqclass(x)
        if y in cx:
            return 1
        cy = self.eqclass(y)
        for p in cx:
            for q in cy:
                if distinct(p, q):
                    return 0
                if self.facts.get(eqatom(p, q)) is False:
                    return 0
        for a, b in ((x, y), (y, x)):
            if b == ('s', ''):
                return self.decide(mk_eq0(strlen(a)))
        return None

    def decide_null(self, p):
        if p == NULL:
            return 1
        if p[0] == 'p' or p[0] == 'fnp' or p[0] == 's' or p[0] == 'mp':
            return 0
        r = self.facts.get(('null', p))
        if r is not None:
            return int(r)
        if p[0] == 't' and p[1] in ('cstr',):
            return 0
        for q in self.eqclass(p):
            if q == NULL:
                return 1
            if q[0] == 'p' or self.facts.get(('null', q)) is False:
                return 0
        return None

    def assume(self, b, pol=1):
        """restrict this partition; False if it becomes empty"""
        d = self.decide(b)
        if d is not None:
            return bool(d) == bool(pol)
        if b[0] != 'b':
            return True
        a = b[1]
        want = bool(pol) == bool(b[2])
        k = a[0]
        if k == 'le':
            return self.add_le(a[1] if want else sub(num(1), a[1]))
        if k == 'eq0':
            v = self.norm(a[1])
            if want:
                return self.add_eq0(v)
            if len(v[2]) == 1 and abs(v[2][0][1]) == 1:
                t, kk = v[2][0]
                val = -v[1] * kk
                cs = self.cset.get(t)
                if cs is not None:
                    cs = cs - {val}
                    if not cs:
                        return False
                    self.cset[t] = cs
                    if len(cs) == 1:
                        self.bind[t] = num(next(iter(cs)))
                r = self.tiv(t)
                if r and r[0] == val:
                    self.iv[t] = (val + 1, r[1])
                elif r and r[1] == val:
                    self.iv[t] = (r[0], val - 1)
            self.ne = self.ne + (v,)
            # sharpen with known inequalities
            if self.prove_le(v):
                self.add_le(add(v, num(1)))
            elif self.prove_le(scale(v, -1)):
                self.add_le(sub(num(1), v))
            return True
        self.facts[a] = want
        return True

    def add_le(self, v):
        v = self.norm(v)
        if not v[2]:
            return v[1] <= 0
        if len(v[2]) == 1:
            t, k = v[2][0]
            r = self.tiv(t) or (None, None)
            lo, hi = r
            if k > 0:
                b = (-v[1]) // k
                hi = b if hi is None else min(hi, b)
            else:
                b = _ceil(v[1], -k)
                lo = b if lo is None else max(lo, b)
            if lo is not None and hi is not None and lo > hi:
                return False
            self.iv[t] = (lo, hi)
            cs = self.cset.get(t)
            if cs is not None:
                cs = frozenset(c for c in cs if (lo is None or c >= lo) and (hi is None or c <= hi))
                if not cs:
                    return False
                self.cset[t] = cs
            if lo is not None and lo == hi:
                self.bind[t] = num(lo)
            else:
                for w in self.ne:
                    w = self.norm(w)
                    if len(w[2]) == 1 and w[2][0][0] == t and abs(w[2][0][1]) == 1:
                        val = -w[1] * w[2][0][1]
                        if val == hi:
                            return self.add_le(sub(lin(t), num(val - 1)))
                        if val == lo:
                            return self.add_le(sub(num(val + 1), lin(t)))
            return True
        lo, hi = self.bounds(v)
        if lo is not None and lo > 0:
            return False
        if v not in self.le:
            self.le = self.le + (v,)
            neg = scale(v, -1)
            if neg in self.le:
                return self.add_eq0(v)
            for w in self.ne:
                w = self.norm(w)
                if w == v or w == neg:
                    self.le = self.le + (add(v, num(1)),)
                    break
        return True

    def add_eq0(self, v):
        v = self.norm(v)
        if not v[2]:
            return v[1] == 0
        # solve for a term with unit coefficient; prefer recent/opaque ones
        for t, k in sorted(v[2], key=lambda x: (0 if x[0][0] == 't' and x[0][1] in ('phi', 'find', 'ret', 'undef') else 1, skey(x[0]))):
            if abs(k) == 1:
                rest = sub(v, scale(lin(t), k))
                val = scale(rest, -k)
                if not val[2]:
                    r = self.tiv(t)
                    if r and ((r[0] is not None and val[1] < r[0]) or (r[1] is not None and val[1] > r[1])):
                        return False
                    cs = self.cset.get(t)
                    if cs is not None and val[1] not in cs:
                        return False
                else:
                    r = self.tiv(t)
                    if r:
                        if r[0] is not None and not self.add_le(sub(num(r[0]), val)):
                            return False
                        if r[1] is not None and not self.add_le(sub(val, num(r[1]))):
                            return False
                self.bind[t] = val
                for f in self.le:
                    g = self.norm(f)
                    if not g[2] and g[1] > 0:
                        return False
                    lo, hi = self.bounds(g)
                    if lo is not None and lo > 0:
                        return False
                for w in self.ne:
                    g = self.norm(w)
                    if not g[2] and g[1] == 0:
                        return False
                return True
        return True


def _ceil(a, b):
    return -((-a) // b)


def default_iv(t):
    if t[0] == 't':
        op = t[1]
        if op in ('len', 'lsize'):
            return (0, SMAX)
        if op == 'at':
            return (-128, 127)
        if op == 'uchar':
            return (0, 255)
        if op == 'tab' and len(t) > 4 and t[4]:
            return t[4]
        if op == 'b2i':
            return (0, 1)
        if op == 'typed':
            return t[2]
    return None


def eqatom(x, y):
    if skey(y) < skey(x):
        x, y = y, x
    return ('eq', x, y)


FRESHBASE = ('v', 'h', 't', 'g')


def distinct(p, q):
    """are these value numbers certainly different?"""
    if p[0] == 's' and q[0] == 's':
        return p != q
    if p == NULL:
        return q[0] == 'p' or q[0] == 'fnp'
    if q == NULL:
        return p[0] == 'p' or p[0] == 'fnp'
    if p[0] == 'p' and q[0] == 'p':
        a, b = p[1], q[1]
        ba, bb = loc_base(a), loc_base(b)
        if ba != bb:
            return ba[0] in FRESHBASE and bb[0] in FRESHBASE
        return False
    if p[0] == 'fnp' and q[0] == 'fnp':
        return p != q
    if p[0] == 'cat' and q[0] == 's' or p[0] == 's' and q[0] == 'cat':
        c, s = (p, q) if p[0] == 'cat' else (q, p)
        first, last = c[1][0], c[1][-1]
        if first[0] == 's' and not s[1].startswith(first[1]):
            return True
        if last[0] == 's' and not s[1].endswith(last[1]):
            return True
        mn = sum(len(x[1]) for x in c[1] if x[0] == 's')
        return mn > len(s[1])
    return False


def mk_le(v):
    v = lin(v)
    if not v[2]:
        return B(v[1] <= 0)
    return ('b', ('le', v), 1)


def mk_eq0(v):
    v = lin(v)
    if not v[2]:
        return B(v[1] == 0)
    if v[2][0][1] < 0:
        v = scale(v, -1)
    return ('b', ('eq0', v), 1)


def mk_eq(a, b):
    """equality of non-integer values"""
    if a == b:
        return TRUE
    if distinct(a, b):
        return FALSE
    if a == NULL:
        return mk_null(b)
    if b == NULL:
        return mk_null(a)
    if a == ('s', '') or b == ('s', ''):
        x = b if a == ('s', '') else a
        if x[0] in ('t', 'cat', 's'):
            return mk_eq0(strlen(x))
    return ('b', eqatom(a, b), 1)


def mk_null(p):
    if p == NULL:
        return TRUE
    if p[0] in ('p', 'fnp', 's', 'mp'):
        return FALSE
    return ('b', ('null', p), 1)


def mk_true(t):
    if t[0] in ('B', 'b'):
        return t
    return ('b', ('true', t), 1)


def mk_not(b):
    if b[0] == 'B':
        return B(not b[1])
    if b[0] == 'b':
        return ('b', b[1], 1 - b[2])
    return ('b', ('true', b), 0)
