"""C11 Every measurement type reaches the right handler in every visitor."""
from .common import *
from . import compare as cmp, dispatch as dp
from .measure import M, DM, MF, concrete, bases, method
from .strings import *
from sa import export
from sa.models import emit_out, catparts

UNITS = export.CORE + export.ITK + ['PipeToXML']
MV = 'testutil::MeasurementVisitor'
ND = 'testutil::NumericData'
PT = 'testutil::PlainText'
EXPLAIN = """
For every concrete measurement class, AcceptVisitor of the class is interpreted abstractly with a visitor of every visitor
class.  (1) A plain visitor: for every class X the measurement is one of, the overload for X is replaced by a probe; each path
has to reach the probe exactly once, with the visited object (this is what a user's visitor that overrides just that overload
gets).  (2) Every comparison visitor, in the state its setters leave it in: each returning path stores as the result either the
truth value of the one comparison of the visited object with the baseline, or the constant false when a number meets something
that is none; a result that is still the former value is a violation; with a tolerance set, numbers go through the tolerant
comparison with that tolerance, without one through the exact one.  (3) Every difference visitor: plain text gives one line
difference of the baseline's content and the visited content, printed as one text measurement under the name with the prefix
'Difference '; everything else prints the visited measurement and the baseline once each, named with 'Test ' and 'Baseline ',
to the visitor's stream; image files with an image file baseline go to the image report, which itself (4) prints at least one
measurement to the stream it is given on each of its returning paths."""
ASSUME = ['the visitor, the visited measurement and the baseline are different objects', 'equality of measurements, Diff and the image comparison are judged by C04, C05, C29 and C23']
VIS = ('d', T('par', 0))
THIS = ('d', T('this'))
BASE = ('d', T('baseline'))


def overloads(ck, cls=MV):
    """{measurement class: key} of the Visit overloads that cls declares"""
    out = {}
    for m in (ck.p.classes.get(cls) or {}).get('methods', []):
        if m['n'] == 'Visit' and len(m.get('params', [])) == 1:
            t = m['params'][0].get('c')
            if t:
                out[t] = m['f']
    return out


def distinct(st):
    ps = [T('this'), T('par', 0), T('baseline')]
    for i, a in enumerate(ps):
        st.assume(mk_not(mk_null(a)))
        for b in ps[i + 1:]:
            st.assume(mk_not(mk_eq(a, b)))


def plain_visitor(c, K):
    f = method(c, K, 'AcceptVisitor')
    if f is None:
        raise BrokenAnalysis('no AcceptVisitor for ' + K)
    ov = overloads(c)
    if len(ov) < 3 or M not in ov:
        raise BrokenAnalysis('MeasurementVisitor has no Visit overloads')
    for X in bases(c, K):
        if X not in ov:
            continue

        def probe(E, st, fr, cc):
            st.emit('visited', cc.args[0][1], cc.obj)
            return [(st, ('void',))]

        def setup(E, st, this, vals):
            st.typ[this] = frozenset([K])
            st.typ[VIS] = frozenset([MV])
            distinct(st)
        r = c.analyse(f, hooks={ov[X]: probe}, setup=setup)
        w = c.where(f)
        for st, v in r.rets:
            got = evs(st, 'visited')
            ok = len(got) == 1 and got[0][1] == THIS and got[0][2] == VIS
            c.decide(True if ok else verdict(st, 0), 'falls back along the base classes', 'visiting a %s calls the handler for %s %d times%s' % (K.split('::')[-1], X.split('::')[-1], len(got), '' if ok or not got else ' with something else'), w, facts(st))
        if not r.rets:
            c.decide(False, 'falls back along the base classes', 'visiting a %s never returns' % K, w)


def state_after(c, V, name, assume=None):
    """the members of a visitor of class V that the setter leaves, with the setter's argument as T('arg')"""
    f = method(c, V, name)
    if f is None:
        raise BrokenAnalysis('no %s in %s' % (name, V))

    def setup(E, st, this, vals):
        st.typ[this] = frozenset([V])
        if assume:
            st.assume(assume)
    r = c.analyse(f, setup=setup)
    return [({l[2]: v for l, v in st.mem.items() if l[0] == 'f' and l[1] == r.this}, list(st.facts.items())) for st, v in r.rets]


def one(states):
    return states[0][0] if len(states) == 1 else None


def visitor_setup(c, V, K, mem, extra=None):
    def setup(E, st, this, vals):
        st.typ[this] = frozenset([K])
        st.typ[VIS] = frozenset([V])
        distinct(st)
        for q, v in mem.items():
            st.mem[field(VIS, q)] = v
        if extra:
            extra(E, st)
    return setup


def ren(v, new):
    if v == T('par', 0):
        return new
    if isinstance(v, tuple):
        return tuple(ren(x, new) for x in v)
    return v


def baseline_state(c, V):
    m = one(state_after(c, V, 'SetBaselineMeasurement'))
    if m is None:
        raise BrokenAnalysis('SetBaselineMeasurement of %s not understood' % V)
    m = {q: T('baseline') for q, v in m.items() if v == T('par', 0)}
    if not m:
        raise BrokenAnalysis('SetBaselineMeasurement of %s keeps nothing' % V)
    return m


def comparing(c, V, K, mode):
    f = method(c, K, 'AcceptVisitor')
    mem = dict(baseline_state(c, V))
    tol = T('tolerance')
    zero_tol = ('b', ('feq',) + tuple(sorted((T('par', 0), ('fl', '0.0E+0')), key=skey)), 1)
    zt2 = ('b', ('feq',) + tuple(sorted((tol, ('fl', '0.0E+0')), key=skey)), 1)
    if mode == 'tolerant':
        ms = state_after(c, V, 'SetTolerance', mk_not(zero_tol))
    elif mode == 'exact':
        ms = state_after(c, V, 'SetToleranceOff')
    else:
        ms = fresh_visitor(c, V)
    if not ms:
        c.undecided('fresh verdict', 'the state after the setter of %s is not understood' % V)
    for m, fs in ms:
        judge(c, V, K, mode, f, {q: ren(v, tol) for q, v in m.items()}, [(ren(a, tol), x) for a, x in fs], mem, tol, zt2)


def judge(c, V, K, mode, f, m, fs, mem, tol, zt2):
    m.update(mem)
    get = method(c, V, 'GetResult')
    h = dp.hooks(c)

    def extra(E, st):
        if mode == 'tolerant':
            st.assume(mk_not(zt2))
            for a, x in fs:
                if a[0] not in ('null', 'isa') and contains(a, lambda t: t == tol):
                    st.assume(('b', a, 1 if x else 0))
    w = c.where(f)
    # what GetResult says before anything was visited is the former value
    r = c.analyse(f, hooks=h, setup=visitor_setup(c, V, K, {q: v for q, v in m.items()}, extra), merge=False)
    num = c.p.is_a(K, ND)
    what = '%s on a %s (%s)' % (V.replace('testutil::', ''), K.split('::')[-1], {'tolerant': 'tolerance set', 'exact': 'tolerance off', 'new': 'as constructed'}[mode])
    if not r.rets:
        c.decide(False, 'fresh verdict', what + ' never returns', w)
    for st0, _ in r.rets:
        js = evs(st0, 'judged')
        for st, v in r.E.run(get, st0.fork(), VIS, [], None, None, 0):
            img = [e for e in js if e[1] == 'image']
            if img:
                j = T('judged', img[-1][6])
                d = st.decide(mk_eq0(lin(j)))
                z = zero(st, v)
                ok = d is not None and z is not None and (1 - z) == d and len(js) == 1
                c.decide(True if ok else verdict(st, 0, v), 'fresh verdict', '%s: an image comparison that returns %s gives %s' % (what, {1: 'zero', 0: 'non-zero', None: 'something'}[d], show(v)), w, facts(st, 30))
                continue
            if not js:
                bn = st.decide(('b', ('isa', BASE, ND), 1))
                if bn is None:
                    cs = st.typ.get(BASE)
                    xs = {bool(c.p.is_a(k, ND)) for k in cs} if cs else set()
                    bn = int(xs.pop()) if len(xs) == 1 else None
                ok = num and bn == 0 and zero(st, v) == 1
                c.decide(True if ok else verdict(st, 0, v), 'fresh verdict', '%s: nothing is compared and the result is %s' % (what, 'what it was before' if contains(v, lambda t: t[:2] == ('t', 'init')) else show(v)), w, facts(st, 30))
                continue
            e = js[-1]
            d = st.decide(mk_true(T('judged', e[6])))
            z = zero(st, v)
            eq = (d is not None and z is not None and z == 1 - d) or v == mk_true(T('judged', e[6]))
            ok = len(js) == 1 and {e[2], e[3]} == {THIS, BASE} and eq
            c.decide(True if ok else verdict(st, 0, v), 'fresh verdict', '%s: %s gives the result %s' % (what, ', '.join('%s(%s, %s)' % (x[1], show(x[2]), show(x[3]) if x[3] else '') for x in js), show(v)[:120]), w, facts(st, 30))
            if num and len(js) == 1:
                t = e[4] if e[1] == 'tolerant' else None
                ok = (e[1] == 'tolerant' and t == tol) if mode == 'tolerant' else (e[1] == 'exact')
                c.decide(True if ok else verdict(st, 0, *( [t] if t else [])), 'numbers use the tolerance', '%s: compared %s%s' % (what, {'tolerant': 'with tolerance ', 'exact': 'exactly'}[e[1]], show(t) if t else ''), w, facts(st, 30))
        esc = [e for e in js if e[1] == 'tolerant' and not num]
        if esc:
            c.decide(verdict(st0, 0), 'numbers use the tolerance', what + ': something that is no number is compared with tolerance', w, facts(st0))


def fresh_visitor(c, V):
    ct = [m for m in c.p.functions.values() if m.get('class') == V and m['kind'] == 'ctor' and not m.get('params')]
    if len(ct) != 1:
        return [({}, [])]
    r = c.analyse(ct[0], setup=lambda E, st, this, vals: st.typ.update({this: frozenset([V])}))
    return [({l[2]: v for l, v in st.mem.items() if l[0] == 'f' and l[1] == r.this}, []) for st, v in r.rets]


OS = ('d', T('stream'))


def diff_hook(E, st, fr, c):
    s2 = st.fork()
    E.throw(s2, 'any', None, fr, c.line)
    a, b = [E.load(st, x[1]) if x[0] == 'l' else x for x in c.args[:2]]
    o = c.args[2][1]
    n = len(evs(st, 'diff')) + 1
    st.emit('diff', a, b, o, c.line)
    emit_out(E, st, o, T('difftext', a, b), c.line, None)
    return [(st, ('l', o))]


def image_report(E, st, fr, c):
    s2 = st.fork()
    E.throw(s2, 'any', None, fr, c.line)
    st.emit('imagereport', tuple(a[1] if a[0] == 'l' else a for a in c.args), c.line)
    t = T('after', 'imagereport', st.fresh())
    return [(st, lin(t))]


def differing(c, V, K):
    f = method(c, K, 'AcceptVisitor')
    m = one(state_after(c, V, 'SetOutStream'))
    if m is None:
        raise BrokenAnalysis('SetOutStream not understood')
    mem = {q: T('stream') for q, v in m.items() if contains(v, lambda t: t == T('par', 0)) or v == T('par', 0)}
    if not mem:
        raise BrokenAnalysis('SetOutStream of %s keeps nothing: %r' % (V, m))
    mem.update(baseline_state(c, V))
    h = cmp.attr_hooks(c)
    h['testutil::operator<<'] = cmp.printed
    h['testutil::Diff'] = diff_hook
    for cl in c.p.derived(cmp.DV):
        h[cl + '::DifferenceTestImage'] = image_report
    r = c.analyse(f, hooks=h, setup=visitor_setup(c, V, K, mem), merge=False)
    w = c.where(f)
    what = '%s on a %s' % (V.replace('testutil::', ''), K.split('::')[-1])
    i = lambda o, n: T('init', cmp.attr(o, n))
    if not r.rets:
        c.decide(False, 'always reports', what + ' never returns', w)
    for st, v in r.rets:
        ps = evs(st, 'printed')
        im = evs(st, 'imagereport')
        ds = evs(st, 'diff')
        if im:
            a = im[0][1]
            tt = st.decide_eq(i(THIS, 'type'), S('image/itk'))
            ok = len(im) == 1 and not ps and not ds and len(a) == 6 and a[0] == THIS and a[1] == BASE and a[5] == OS and c.p.is_a(K, MF)
            c.decide(True if ok else verdict(st, 0), 'image differences', '%s gives %d image reports of (%s) and %d other outputs' % (what, len(im), ', '.join(show(x)[:40] for x in a), len(ps)), w, facts(st, 20))
            continue
        if c.p.is_a(K, PT):
            ok = len(ps) == 1 and len(ds) == 1 and ps[0][1] == OS and ds[0][1] == i(BASE, 'content') and ds[0][2] == i(THIS, 'content')
            if ok:
                at = dict(ps[0][3])
                nm = at.get('attr::name')
                ok = parts(nm) == [S('Difference '), i(THIS, 'name')] and parts(at.get('attr::content')) == [T('difftext', ds[0][1], ds[0][2])] and all(c.p.is_a(x, PT) for x in ps[0][5]) and ps[0][5] != ()
                c.decide(True if ok else verdict(st, 0, *[x for x in at.values()]), 'plain text differences', '%s prints a %s named %s with content %s' % (what, '/'.join(ps[0][5]), show(nm) if nm else '?', show(at.get('attr::content', S('?')))[:80]), w, facts(st))
            else:
                c.decide(verdict(st, 0, *[x for d in ds for x in d[1:3]]), 'plain text differences', '%s makes %d line differences (%s) and prints %d measurements' % (what, len(ds), ', '.join('%s to %s' % (show(d[1])[:60], show(d[2])[:60]) for d in ds), len(ps)), w, facts(st))
            continue
        exp = {THIS: 'Test ', BASE: 'Baseline '}
        ok = len(ps) == 2 and {p[2] for p in ps} == {THIS, BASE} and all(p[1] == OS for p in ps)
        c.decide(True if ok else verdict(st, 0), 'always reports', '%s prints %s' % (what, ', '.join('%s to %s' % ({THIS: 'the test value', BASE: 'the baseline'}.get(p[2], show(p[2])), 'its stream' if p[1] == OS else show(p[1])) for p in ps) or 'nothing'), w, facts(st))
        for p in ps:
            if p[2] not in exp:
                continue
            at = dict(p[3])
            nm = at.get('attr::name', i(p[2], 'name'))
            ok = parts(nm) == [S(exp[p[2]]), i(p[2], 'name')]
            c.decide(True if ok else verdict(st, 0, nm), 'labelled', '%s prints %s under the name %s' % (what, {THIS: 'the test value', BASE: 'the baseline'}[p[2]], show(nm)), w, facts(st))
            bad = [k for k, v in at.items() if k.startswith('attr::') and k != 'attr::name' and v != i(p[2], k[6:])]
            c.decide(True if not bad else verdict(st, 0), 'labelled', '%s prints it with its own %s' % (what, ', '.join(x[6:] for x in bad) or 'content and attributes'), w, facts(st))


def parts(v):
    return None if v is None else list(catparts(v))


def print_hook(E, st, fr, c):
    st.emit('printed', c.args[0][1], c.obj, (), c.line, ())
    return [(st, ('l', c.args[0][1]))]


def image_reporting(c, f):
    """on every way out of the image report something about the difference has been printed to the stream it was given"""
    h = cmp.attr_hooks(c)
    h['testutil::operator<<'] = cmp.printed
    for cl in cmp.measurement_classes(c):
        h[cl + '::Print'] = print_hook
    mine = {g['key'] for g in c.p.functions.values() if g['file'] == f['file']}
    os = [i for i, q in enumerate(f['params']) if 'ostream' in q['t']]
    if len(os) != 1:
        raise BrokenAnalysis('the image report has %d streams' % len(os))
    os = ('d', T('par', os[0]))
    r = c.analyse(f, hooks=h, inline=lambda g: g['key'] in mine, maxsteps=2000000)
    w = c.where(f)
    for st, v in r.rets:
        ps = evs(st, 'printed')
        ok = bool(ps) and all(p[1] == os for p in ps)
        c.decide(ok, 'the image report reports', '%s returns %s after printing %d measurements%s' % (f['qual'], show(v), len(ps), '' if ok or not ps else ', not all to the given stream'), w, facts(st))


def check(ck):
    tasks = []
    for f in ck.p.functions.values():
        if f['name'] == 'DifferenceTestImage' and f.get('class') and ck.p.is_a(f['class'], cmp.DV):
            tasks.append(('image report of ' + f['class'], lambda c, f=f: image_reporting(c, f)))
    vs = [v for v in ck.p.derived(MV)]
    for K in concrete(ck):
        tasks.append(('plain visitor, ' + K, lambda c, K=K: plain_visitor(c, K)))
        for V in vs:
            if ck.p.is_a(V, cmp.CV):
                for mode in ('tolerant', 'exact', 'new'):
                    tasks.append(('%s %s %s' % (V, K, mode), lambda c, V=V, K=K, mode=mode: comparing(c, V, K, mode)))
            elif ck.p.is_a(V, cmp.DV):
                tasks.append(('%s %s' % (V, K), lambda c, V=V, K=K: differing(c, V, K)))
    ck.count('pairs', len(tasks))
    ck.run(tasks)
