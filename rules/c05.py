"""C05 Tolerance only when asked for, and by the documented formula."""
from .common import *
from . import dispatch as dp
from .c04 import tolerant
from .measure import M, DM, concrete, method, as_class, role
from .dispatch import ND
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
CompareMeasurement is interpreted abstractly to the end, through the comparison visitor that is really created, for every
class that can run tests and every measurement class: on every path that compares two numeric measurements, the tolerant
comparison must be the one that decides, with exactly the configured tolerance, if the branch facts say that tolerance was
asked for and that the configured one is not zero, and must not be called if they say otherwise.  The tolerant comparison of
each numeric class is interpreted with the two values as symbolic results of reading the two contents; each floating point
comparison it branches on is brought to normal form and identified with one of |u-v|<=e|u|, |u-v|<=e|v|, |u|<epsilon,
|v|<epsilon, u=v (checking the type in which every operation is computed), and the truth value returned on each path must be
entailed by the documented formula over them; where a content cannot be read, by the equality of the contents."""
ASSUME = ['reading a number from a text gives the documented result or fails, and never gives NaN', 'the configured tolerance is a number that is not negative', 'rounding of the products and differences in long double is disregarded']

EPS = {'float': 1.1920929E-7, 'double': 2.220446049250313e-16, 'long': 0.0, 'int': 0.0}
RANK = {'float': 0, 'double': 1, 'long double': 2}


def check(ck):
    nums = [k for k in concrete(ck, ND)]
    if not nums:
        raise BrokenAnalysis('no numeric measurement class')
    tasks = []
    for f, cls, K in dp.pairs(ck):
        tasks.append(('%s as %s of %s' % (f['qual'], cls, K), lambda c, f=f, cls=cls, K=K: use(c, f, cls, K)))
    for K in nums:
        tasks.append(('formula of ' + K, lambda c, K=K: formula(c, K)))
    for cls in ck.p.derived(RT):
        tasks.append(('configured tolerance of ' + cls, lambda c, cls=cls: configured(c, cls)))
    ck.run(tasks)


def configured(c, cls):
    q = dp.tolerance_role(c, cls)
    f = method(c, cls, 'SetRelativeTolerance')
    w = c.where(f)
    if q is None:
        c.violated('the configured tolerance', 'as %s: setting the tolerance does not keep it' % cls, w)
        return
    g = method(c, cls, 'GetRelativeTolerance')
    r = c.analyse(g, setup=as_class(cls))
    for st, v in r.rets:
        ok = v == T('init', field(r.this, q))
        c.decide(True if ok else verdict(st, 0, v), 'the configured tolerance', 'as %s: the tolerance read is the one set (%s)' % (cls, show(v)), c.where(g), facts(st))
    for k, ws in writers(c, q).items():
        fn = c.p.functions[k]
        ok = fn['kind'] == 'ctor' or fn['name'] == f['name']
        if not ok:
            c.undecided('the configured tolerance', '%s changes the tolerance' % fn['qual'], c.where(fn, ws[0][0]))
        else:
            c.held('the configured tolerance', '%s may write it' % fn['qual'], c.where(fn))


def use(c, f, cls, K):
    tolq = dp.tolerance_role(c, cls)
    r = dp.run(c, f, cls, K)
    w = c.where(f)
    isnum = c.p.is_a(K, ND)
    what = 'as %s: a %s' % (cls.split('::')[-1], K.split('::')[-1])
    rule = 'tolerance exactly when asked for'
    ntol = 0
    for st, v in r.rets:
        js = evs(st, 'judged')
        tol = [e for e in js if e[1] == 'tolerant']
        if not isnum:
            c.decide(True if not tol else verdict(st, 0), rule, '%s is compared %s' % (what, 'with a tolerance' if tol else 'without tolerance'), w, facts(st, 30))
            continue
        if dp.compared(st) != 1:
            c.decide(True if not tol else verdict(st, 0), rule, '%s without a fitting entry is not compared' % what, w, facts(st, 30))
            continue
        bn = st.decide(('b', ('isa', dp.FRONT, ND), 1))
        if bn == 0:
            continue    # C04
        tl = tolerant(c, st, tolq)
        z = zero(st, v)
        ntol += bool(tol)
        if tl == 0:
            c.decide(True if not tol else verdict(st, 0), rule, '%s is compared %s where no tolerance applies' % (what, 'with a tolerance' if tol else 'exactly'), w, facts(st, 30))
        elif tl == 1:
            ok = len(js) == 1 and len(tol) == 1 and {tol[0][2], tol[0][3]} == {dp.PAR, dp.FRONT}
            c.decide(True if ok else verdict(st, 0), rule, '%s is judged by %s where a tolerance applies' % (what, ', '.join(e[1] for e in js) or 'nothing'), w, facts(st, 30))
            if ok:
                want = T('init', field(('d', T('this')), tolq))
                got = tol[0][4]
                c.decide(True if got == want else verdict(st, 0, got or NULL), rule, '%s is judged with the tolerance %s' % (what, show(got)), w, facts(st, 30))
                d = st.decide(mk_true(T('judged', tol[0][6])))
                ok = d is not None and z is not None and z == d
                c.decide(True if ok else verdict(st, 0, v), 'the tolerant verdict counts', '%s judged %s gives %s' % (what, {1: 'equal', 0: 'different', None: 'something'}[d], show(v)), w, facts(st, 30))
        else:
            c.decide(verdict(st, 0), rule, '%s is judged by %s although it is not known whether a tolerance applies' % (what, ', '.join(e[1] for e in js) or 'nothing'), w, facts(st, 30))
    if isnum and not ntol:
        c.undecided(rule, '%s: no path compares with a tolerance' % what, w)


# ---- the formula -------------------------------------------------------------
def value_of(c, K):
    """(value term of this object, its type) as GetValue reads it from the content"""
    g = method(c, K, 'GetValue')
    s = method(c, K, 'SetValue')
    if not g or not s:
        return None, None, None
    r = c.analyse(g, setup=as_class(K), merge=False)
    vals = set()
    for st, v in r.rets:
        for t in subterms(v):
            if t[:1] == ('t',) and t[1] == 'parse':
                vals.add(t)
        if v[0] in ('B', 'n', 'fl'):
            for a, x in st.facts.items():
                for t in subterms(a):
                    if t[:1] == ('t',) and t[1] == 'parse':
                        vals.add(t)
    return (vals.pop() if len(vals) == 1 else None), s['params'][0]['t'], (g, r)


class Norm:
    """normal form of floating point terms over the values u and v"""

    def __init__(self, u, v, typ, tol):
        self.u, self.v, self.typ, self.tol = u, v, typ, tol
        self.problem = None
        self.sign = 0

    def val(self, t):
        """(name, type it is computed in, exact) of a term that is just a value"""
        t = unlin(t) if t[0] == 'n' else t
        if t == self.u:
            return 'u', self.typ
        if t == self.v:
            return 'v', self.typ
        if t[:2] == ('t', 'i2f'):
            x = self.val(t[2])
            if x and x[1] in ('long', 'int'):
                if RANK.get(t[3], 0) < 2:
                    return x[0] + '~', t[3]
                return x[0], t[3]
            return x
        if t[:2] == ('t', 'f2f'):
            x = self.val(t[2])
            if x and x[1] in RANK and RANK[t[3]] < RANK[x[1]]:
                return x[0] + '~', t[3]
            return x and (x[0], t[3])
        return None

    def nf(self, t):
        t = unlin(t) if t[0] == 'n' else t
        if t == self.tol:
            return ('e',)
        if t[0] == 'fl':
            return ('const', float(t[1]))
        if t[0] == 'n' and isnum(t):
            return ('const', float(t[1]))
        x = self.val(t)
        if x:
            if x[0].endswith('~'):
                self.problem = 'a value is rounded to %s' % x[1]
                return None
            return ('val', x[0])
        if t[0] == 't':
            if t[1] in ('fabs',):
                x = self.nf(t[2])
                if x is None:
                    return None
                if x == ('e',):
                    return x
                if x[0] == 'val':
                    return ('abs', x[1])
                if x[0] == 'diff':
                    return ('absdiff',)
                if x[0] in ('abs', 'absdiff', 'const'):
                    return x if x[0] != 'const' else ('const', abs(x[1]))
                return None
            if t[1] == 'abs':
                x = self.val(t[2])
                if x and x[1] in ('long', 'int'):
                    self.problem = 'the absolute value of the smallest %s overflows' % x[1]
                    return None
                return None
            if t[1] == 'i2f':
                return self.nf(t[2])
            if t[1] == 'f2f':
                x = self.nf(t[2])
                if x and x[0] in ('absdiff', 'diff', 'abs', 'val', 'prod'):
                    self.problem = self.problem or ('a result is rounded to %s' % t[3] if x[0] != 'prod' else None)
                    return None if self.problem else x
                return x
            if t[1] == 'f-':
                a, b = self.nf(t[2]), self.nf(t[3])
                if a and b and {a, b} == {('val', 'u'), ('val', 'v')}:
                    need = {'float': 1, 'double': 2}.get(self.typ, 2)
                    if RANK.get(t[4], 2) < need:
                        self.problem = 'the difference is computed in %s' % t[4]
                        return None
                    return ('diff', 1 if a[1] == 'u' else -1)
                if a and a == b and a[0] == 'val':
                    self.problem = 'a value is compared with itself'
                return None
            if t[1] == 'f*':
                a, b = self.nf(t[2]), self.nf(t[3])
                if a and b:
                    if b == ('e',):
                        a, b = b, a
                    if a == ('e',) and b[0] == 'abs':
                        return ('prod', b[1])
                    if a == ('e',) and b[0] == 'val':
                        return ('eprod', b[1])
                return None
        if t[0] == 'n' and not isnum(t):
            # a linear combination of integers: the difference computed in an integer type
            ts = {self.val(x): k for x, k in t[2]}
            if t[1] == 0 and set(ts.values()) == {1, -1} and {x and x[0] for x in ts} == {'u', 'v'}:
                self.problem = 'the difference is computed in %s' % self.typ
        return None

    def atom(self, a):
        """('A1'|'A2'|'A3'|'A4'|'E'|..., sign) or None"""
        if a[0] in ('fle', 'flt'):
            x, y = self.nf(a[1]), self.nf(a[2])
            if x is None or y is None:
                return None
            strict = a[0] == 'flt'
            x, y = self.undiff(x), self.undiff(y)
            if x[0] == 'diff' or y[0] == 'diff':
                return 'signed difference', 1
            if x[0] == 'val' and y[0] == 'val' and x != y:
                return 'order', 1
            if x[0] == 'abs' and y[0] == 'abs' and x != y:
                # what is known about the larger one
                return ('abs u<=v', 1) if x[1] == 'u' else ('abs v<=u', 1)
            if x == ('absdiff',) and y[0] == 'prod':
                return ('lt-' if strict else '') + ('A1' if y[1] == 'u' else 'A2'), 1
            if y == ('absdiff',) and x[0] == 'prod':
                # e|u| < |u-v| is the negation
                return ('' if strict else 'lt-') + ('A1' if x[1] == 'u' else 'A2'), 0
            if x == ('absdiff',) and y[0] == 'eprod' or y == ('absdiff',) and x[0] == 'eprod':
                return 'signed-' + (y if y[0] == 'eprod' else x)[1], 1
            if x[0] == 'abs' and y[0] == 'const':
                return self.eps(x[1], y[1], strict, 1)
            if y[0] == 'abs' and x[0] == 'const':
                return self.eps(y[1], x[1], not strict, 0)
            if x[0] == 'val' and y[0] == 'const' or y[0] == 'val' and x[0] == 'const':
                return 'signed-eps', 1
            if x == ('absdiff',) and y[0] == 'const' or y == ('absdiff',) and x[0] == 'const':
                return 'absolute', 1
            if x in (('absdiff',),) and y == ('e',) or y == ('absdiff',) and x == ('e',):
                return 'absolute', 1
            return None
        if a[0] == 'feq':
            x, y = self.nf(a[1]), self.nf(a[2])
            if x and y and {x, y} == {('val', 'u'), ('val', 'v')}:
                return 'E', 1
            if x == ('absdiff',) and y == ('const', 0.0) or y == ('absdiff',) and x == ('const', 0.0):
                return 'E', 1
            if ('e',) in (x, y):
                return 'tol', 1
            if x and y and {x[0], y[0]} == {'abs', 'const'}:
                return None
        if a[0] == 'eq0':
            d = self.lindiff(a[1])
            if d:
                return 'E', 1
        return None

    def undiff(self, x):
        """a difference whose sign is known is its absolute value"""
        if x[0] == 'diff' and self.sign and self.sign == x[1]:
            return ('absdiff',)
        return x

    def order(self, st):
        """sign of u - v from the comparisons made (1: u >= v, -1: u <= v)"""
        self.sign = 0
        for a, val in st.facts.items():
            if a[0] not in ('flt', 'fle'):
                continue
            x, y = self.val(a[1]), self.val(a[2])
            if x and y and {x[0], y[0]} == {'u', 'v'}:
                up = (x[0] == 'v') == bool(val)     # v < u, or not u < v
                self.sign = 1 if up else -1

    def lindiff(self, t):
        if t[0] == 'n' and t[1] == 0 and len(t[2]) == 2:
            xs = {x for x, k in t[2]}
            return xs == {self.u, self.v} and sorted(k for x, k in t[2]) == [-1, 1]
        return False

    def eps(self, who, const, strict, sign):
        e = EPS.get(self.typ)
        if const == 0.0 and strict:
            return 'false', sign
        if e is not None and abs(const - e) <= abs(e) * 1e-6 and strict and e:
            return ('A3' if who == 'u' else 'A4'), sign
        return 'bad-eps', sign


def relevant(a, N):
    return contains(a, lambda t: t == N.u or t == N.v)


def formula(c, K):
    name = K.split('::')[-1]
    f = method(c, K, 'IsEqualTolerant')
    if f is None:
        raise BrokenAnalysis('%s has no tolerant comparison' % K)
    w = c.where(f)
    u, typ, gr = value_of(c, K)
    cq = role(c, K, 'GetContent')
    if u is None or cq is None:
        c.undecided('the formula', '%s: how the value is read from the content is not understood' % name, w)
        return
    pt = u[3]
    if pt != typ:
        c.violated('the type\'s own value', '%s: the content is read as %s, but values are %s' % (name, pt, typ), c.where(gr[0]))
    else:
        c.held('the type\'s own value', '%s: read as %s' % (name, pt), c.where(gr[0]))
    this, other = gr[1].this, ('d', T('par', 0))

    def setup(E, st, t, vals):
        st.typ[t] = frozenset([K])
        st.typ[other] = frozenset([K])
        st.assume(mk_not(mk_eq(T('this'), T('par', 0))))
    v = subst(u, {T('init', field(this, cq)): T('init', field(other, cq))})
    cu, cv = T('init', field(this, cq)), T('init', field(other, cq))
    ok = contains(u, lambda t: t == cu) and contains(v, lambda t: t == cv)
    if not ok:
        c.undecided('the formula', '%s: the value is not read from the content' % name, w)
        return
    pu, pv = T('parses', *u[2:]), T('parses', *v[2:])
    r = c.analyse(f, setup=setup, merge=False)
    N = Norm(u, v, typ, T('par', 1))
    n = {'unreadable': 0, 'formula': 0}
    for st, x in r.rets:
        for res, s in outcomes(st, x):
            N.problem = None
            exp, why, known = spec(s, N, typ, cu, cv, pu, pv)
            if exp == 'impossible':
                continue
            kind = 'unreadable' if why.startswith('content') else 'formula'
            n[kind] += 1
            what = '%s: %s where %s' % (name, 'equal' if res else 'different', why)
            if exp is not None and exp == res:
                c.held('the formula' if kind == 'formula' else 'what is no number', what, w)
            elif not known and not N.problem:
                c.undecided('the formula', '%s (a comparison is not understood)' % what, w, facts(s, 30))
            else:
                if N.problem:
                    what += ' (%s)' % N.problem
                c.decide(verdict(s, 0, x), 'the formula' if kind == 'formula' else 'what is no number', what, w, facts(s, 30))
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'the formula', '%s: %s' % (name, k), c.where(f, line), facts(st))
    for k, m in n.items():
        if not m:
            c.undecided('the formula', '%s: no path %s' % (name, k), w)


def outcomes(st, x):
    z = zero(st, x)
    if z is not None:
        return [(1 - z, st)]
    out = []
    if x[0] in ('b', 'B'):
        for d in (0, 1):
            s = st.fork()
            if s.assume(x if d else mk_not(x)):
                s.facts.setdefault(x[1], bool(d) == bool(x[2]))
                out.append((d, s))
        return out
    return [(0, st), (1, st)]


def spec(st, N, typ, cu, cv, pu, pv):
    """(expected truth value or None, why, are all comparisons understood)"""
    same_text = st.decide_eq(cu, cv)
    if same_text == 1:
        return 1, 'content is identical', True
    ru, rv = st.decide(mk_true(pu)), st.decide(mk_true(pv))
    if ru == 0 or rv == 0:
        return same_text, 'content cannot be read and is %s' % {0: 'different', None: 'perhaps different'}[same_text], True
    if not (ru and rv):
        return None, 'content may not be readable', True
    if typ == 'bool':
        a, b = st.decide(mk_true(N.u)), st.decide(mk_true(N.v))
        if a is not None and b is not None:
            return int(a == b), 'the values are %s' % ('the same' if a == b else 'different'), True
        e = [x for at, x in st.facts.items() if at[0] == 'eq' and {at[1], at[2]} == {mk_true(N.u), mk_true(N.v)}]
        if e:
            return int(e[0]), 'the values are %s' % ('the same' if e[0] else 'different'), True
        return None, 'the values may differ', not any(relevant(at, N) and at[0] in ('flt', 'fle', 'feq', 'eq') for at in st.facts)
    A, known = {}, True
    N.order(st)
    for a, val in st.facts.items():
        if a[0] not in ('fle', 'flt', 'feq', 'eq0', 'eq') or not relevant(a, N):
            continue
        k = N.atom(a)
        if k is None:
            known = False
            continue
        A[k[0]] = int(bool(val) == bool(k[1]))
    for t in st.le:
        if relevant(t, N):
            known = False
    for t in st.ne:
        if N.lindiff(t):
            A['E'] = 0
        elif relevant(t, N):
            known = False
    for a, b in st.bind.items():
        if a in (N.u, N.v) and unlin(b) in (N.u, N.v):
            A['E'] = 1
    if A.get('false') == 1:
        return 'impossible', 'an absolute value is negative', True
    if A.get('E') == 1:
        A['A1'] = A['A2'] = 1
    for k in ('A1', 'A2'):
        if A.get('lt-' + k) == 1:
            A[k] = 1
    # what holds for the larger of |u| and |v| decides for both
    if A.get('abs u<=v') == 1 or A.get('abs v<=u') == 0:
        if A.get('A2') == 0:
            A['A1'] = 0
    if A.get('abs v<=u') == 1 or A.get('abs u<=v') == 0:
        if A.get('A1') == 0:
            A['A2'] = 0
    if EPS.get(typ) == 0.0 or 'false' in A:
        A['A3'] = A['A4'] = 0
    a1, a2, a3, a4 = (A.get(k) for k in ('A1', 'A2', 'A3', 'A4'))
    text = ', '.join('%s%s' % ('' if A[k] else 'not ', t) for k, t in (('A1', '|u-v|<=e|u|'), ('A2', '|u-v|<=e|v|'), ('A3', '|u|<epsilon'), ('A4', '|v|<epsilon'), ('E', 'u=v'),
             ('lt-A1', '|u-v|<e|u|'), ('lt-A2', '|u-v|<e|v|'), ('bad-eps', 'below another limit'), ('absolute', 'the difference is below a limit')) if k in A) or 'nothing is known'
    if 1 in (a1, a2) or (a3 == 1 and a4 == 1):
        return 1, text, known
    if a1 == 0 and a2 == 0 and 0 in (a3, a4):
        return 0, text, known
    return None, text, known
