"""CompareMeasurement interpreted to the end: through the visitor that is really created and the class's own AcceptVisitor
down to the comparison that decides; used by C04, C05, C11."""
from .common import *
from . import compare as cmp
from .measure import M, DM, MF, concrete, bases

ND = 'testutil::NumericData'
CNT = cmp.CNT


def verdict_hook(kind):
    def h(E, st, fr, c):
        n = len(evs(st, 'judged')) + 1
        r = mk_true(T('judged', n))
        other = c.args[0][1] if c.args and c.args[0][0] == 'l' else None
        tol = c.args[1] if kind == 'tolerant' and len(c.args) > 1 else None
        s2 = st.fork()
        E.throw(s2, 'any', None, fr, c.line)
        st.emit('judged', kind, c.obj, other, tol, c.line, n)
        return [(st, r)]
    return h


def noted(kind):
    def h(E, st, fr, c):
        st.emit('noted', kind, tuple(c.args), c.line)
        return [(st, ('void',))]
    return h


def image(E, st, fr, c):
    n = len(evs(st, 'judged')) + 1
    t = T('judged', n)
    st.iv[t] = (-2**31, 2**31 - 1)
    s2 = st.fork()
    E.throw(s2, 'any', None, fr, c.line)
    st.emit('judged', 'image', c.obj, None, tuple(c.args), c.line, n)
    return [(st, lin(t))]


def hooks(ck):
    h = cmp.hooks(ck)
    for k in list(h):
        if k.endswith('::AcceptVisitor'):
            del h[k]
    for cl in cmp.measurement_classes(ck):
        h[cl + '::IsEqual'] = verdict_hook('exact')
        h[cl + '::operator=='] = verdict_hook('exact')
        h[cl + '::IsEqualTolerant'] = verdict_hook('tolerant')
    for cl in cmp.runners(ck):
        h[cl + '::MatchedMeasurement'] = noted('matched')
        h[cl + '::DifferenceMeasurement'] = noted('difference')
        h[cl + '::UnmatchedMeasurement'] = noted('unmatched')
    for cl in ck.p.derived(cmp.CV):
        h[cl + '::RegressionTestImage'] = image
    return h


TOL = RT + '::relativeTolerance'


def tolerance_role(c, cls):
    """member that holds the configured tolerance, as the setter stores it"""
    from .measure import method
    f = method(c, cls, 'SetRelativeTolerance')
    if f is None:
        raise BrokenAnalysis('no SetRelativeTolerance')
    r = c.analyse(f)
    out = set()
    for st, v in r.rets:
        out.add(frozenset(l for l, x in st.mem.items() if l[0] == 'f' and l[1] == r.this and x == T('par', 0)))
    if len(out) == 1:
        s = out.pop()
        if len(s) == 1:
            return next(iter(s))[2]
    return None


def run(c, f, cls, K, **kw):
    def setup(E, st, this, vals):
        st.typ[this] = frozenset([cls])
        st.typ[('d', T('par', 0))] = frozenset([K])
    return c.analyse(f, hooks=hooks(c), setup=setup, **kw)


PAR = ('d', T('par', 0))
FRONT = ('d', T('front', cmp.TAIL0))


def compared(st):
    """1/0/None: does the comparison take place (an entry with the same name and type)?"""
    i = lambda o, n: T('init', cmp.attr(o, n))
    e = st.decide(mk_eq0(lin(T('lsize', cmp.TAIL0))))
    if e == 1:
        return 0
    nm = st.decide_eq(i(PAR, 'name'), i(FRONT, 'name'))
    ty = st.decide_eq(i(PAR, 'type'), i(FRONT, 'type'))
    if nm == 0 or ty == 0:
        return 0
    if e == 0 and nm == 1 and ty == 1:
        return 1
    return None


def baseline_is(ck, st, cls):
    cs = st.typ.get(FRONT)
    if not cs:
        return None
    x = {bool(ck.p.is_a(k, cls)) for k in cs}
    return int(x.pop()) if len(x) == 1 else None


def pairs(ck):
    """(implementation, run class, measurement class) to analyse"""
    out = []
    for f in cmp.implementations(ck):
        for cls in cmp.runners(ck):
            if ck.p.is_a(cls, f['class']):
                for K in concrete(ck):
                    out.append((f, cls, K))
    return out
