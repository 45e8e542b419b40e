"""C23 Two images match only if geometry and pixels agree within tolerance."""
from .common import *
from . import itkmodel as im, compare as cmp, dispatch as dp
from .measure import MF, method, role
from .c11 import plain_visitor, visitor_setup, one, state_after, baseline_state, ren, distinct, print_hook, VIS, BASE, THIS
from sa import export

UNITS = export.CORE + export.ITK
WITNESS = 'c23.cpp'
EXPLAIN = """
The image comparison is interpreted abstractly with a model of the toolkit's readers, region extraction, geometry getters,
smart pointers and pipeline: an image is known by the file it was read from or the region it is a part of, every read and update
may fail, and comparing two sizes, spacings, origins or regions gives a fact about the two images.  (1) Visiting an image file
with the image comparison visitor: on each path the stored result is 'equal' exactly if the path knows both files as read, size,
spacing and origin of the two as equal, and one run of the difference filter with the baseline as valid input, the visited image
as test input, the visitor's intensity tolerance as threshold and its radius, whose count is at most the visitor's pixel
tolerance.  (2) The overloads of the direct comparison (witness instantiation): zero exactly if sizes are equal (or a region is
given) and the count of the one filter run over the right inputs, restricted to the region if there is one, is at most the
tolerance.  (3) The setters store each argument in a member of its own, 'off' stores zeros, and the functions that create
visitors hand the members over in order; nobody else writes them.  (4) The difference report runs the filter with the same
inputs and tolerances.  (5) The filter's setters and getters are interpreted with their bodies."""
ASSUME = ['the toolkit reads, extracts and updates as documented; a failing read throws itk::ExceptionObject',
          'the filter counts what C24 says', 'which image type is dispatched to this comparison is judged by C11',
          'rounding of geometry values in files is not considered; orientation is not compared']

RG = 'itk::Regression'
RULE1 = 'equal exactly if geometry and pixels agree'
RULE2 = 'direct comparison'
RULE3 = 'tolerances are handed over unswapped'
RULE4 = 'the difference report uses the tolerances'
RULE5 = 'the filter is compared with the right inputs'


def tolerance_setter(c, cls):
    return method(c, cls, 'SetImageInsightTolerance')


def roles(c, cls):
    """members that hold the tolerances, in the order of the public setter's parameters"""
    f = tolerance_setter(c, cls)
    if f is None:
        raise BrokenAnalysis('no SetImageInsightTolerance in ' + cls)
    r = c.analyse(f)
    out = None
    for st, v in r.rets:
        o = []
        for i in range(len(f['params'])):
            t = T('par', i)
            qs = [l[2] for l, x in st.mem.items() if l[0] == 'f' and l[1] == r.this and x in (t, lin(t))]
            o.append(qs[0] if len(qs) == 1 else None)
        if out is not None and out != o:
            return None
        out = o
    if not out or None in out or len(set(out)) != len(out):
        return None
    return out


def setters(c, cls):
    f = tolerance_setter(c, cls)
    rs = roles(c, cls)
    c.decide(rs is not None or None, RULE3, 'the tolerances given to %s are stored in members of their own' % cls, c.where(f))
    if rs is None:
        # definite: a parameter that reaches no member at all
        r = c.analyse(f)
        for st, v in r.rets:
            vals = [x for l, x in st.mem.items() if l[0] == 'f' and l[1] == r.this]
            for i, q in enumerate(f['params']):
                if not any(contains(x, lambda t: t == T('par', i)) for x in vals):
                    c.decide(verdict(st, 0, *vals), RULE3, 'the %s given to %s is not stored' % (q['n'], cls), c.where(f))
        return
    for q in rs:
        c.count('members', 1)
    off = method(c, cls, 'SetImageInsightToleranceOff')
    if off is not None:
        r = c.analyse(off, setup=lambda E, st, this, vals: st.typ.update({this: frozenset([cls])}))
        for st, v in r.rets:
            bad = [q for q in rs if zero_value(st, r.E.load(st, field(r.this, q))) != 1]
            c.decide(True if not bad else verdict(st, 0, *[r.E.load(st, field(r.this, q)) for q in bad]), RULE3, 'switching the tolerances of %s off leaves %s' % (cls, ', '.join(bad) or 'zeros'), c.where(off))
    ct = [f for f in c.p.functions.values() if f.get('class') == cls and f['kind'] == 'ctor' and not f['params'] and 'body' in f]
    for f in ct:
        r = c.analyse(f, setup=lambda E, st, this, vals: st.typ.update({this: frozenset([cls])}))
        for st, v in r.rets:
            vs = [r.E.load(st, field(r.this, q)) for q in rs]
            bad = [q for q, x in zip(rs, vs) if zero_value(st, x) != 1]
            raw = [q for q in bad if T('init', field(r.this, q)) == r.E.load(st, field(r.this, q)) or lin(T('init', field(r.this, q))) == r.E.load(st, field(r.this, q))]
            c.decide(True if not bad else False if raw else verdict(st, 0, *vs), RULE3, 'a new %s has %s' % (cls, ('not zero: ' + ', '.join(bad)) if bad else 'no tolerances'), c.where(f))
    # nobody else changes them
    ok = {'SetImageInsightTolerance', 'SetImageInsightToleranceOff'}
    for q in rs:
        for g in [c.p.functions[k] for k in writers(c, q)]:
            good = g['name'] in ok or g['kind'] == 'ctor'
            c.decide(True if good else None, RULE3, '%s is written by %s' % (q, g['qual']), c.where(g))


def zero_value(st, v):
    if v[0] == 'fl':
        return int(float(v[1]) == 0)
    return zero(st, v)


def creator(c, cls, name, vbase):
    f = method(c, cls, name)
    if f is None:
        raise BrokenAnalysis('no %s in %s' % (name, cls))
    rs = roles(c, cls)
    if rs is None:
        c.undecided(RULE3, 'members of %s unknown' % cls, c.where(f))
        return
    r = c.analyse(f, setup=lambda E, st, this, vals: st.typ.update({this: frozenset([cls])}))
    for st, v in r.rets:
        o = im.obj(v)
        cs = st.typ.get(o)
        if not cs or len(cs) != 1:
            c.undecided(RULE3, '%s returns an object of unknown class' % f['qual'], c.where(f))
            continue
        V = next(iter(cs))
        if tolerance_setter(c, V) is None:
            c.decide(verdict(st, 0), RULE3, '%s returns a %s, which knows no tolerances' % (f['qual'], V), c.where(f))
            continue
        vr = roles(c, V)
        if vr is None:
            c.undecided(RULE3, 'members of %s unknown' % V, c.where(f))
            continue
        for i, (a, b) in enumerate(zip(rs, vr)):
            got = r.E.load(st, field(o, b))
            exp = [T('init', field(r.this, a)), lin(T('init', field(r.this, a)))]
            ok = got in exp
            c.decide(True if ok else verdict(st, 0, got), RULE3, '%s gives the visitor %s as its %s' % (f['qual'], show(got), tolerance_setter(c, V)['params'][i]['n']), c.where(f))


# ------------------------------------------------------------------ the filter's side

def filter_functions(c):
    fs = [f for f in c.p.functions.values() if f['qual'].startswith(im.DIFF) and 'body' in f]
    return {f['name']: f for f in fs if f['kind'] != 'ctor' or not f['params']}, [f for f in fs if f['kind'] == 'ctor' and not f['params']]


def filter_roles(c):
    """members behind the filter's setters and the count getter, and the inputs behind its two input setters"""
    fs, ct = filter_functions(c)
    out = {'fields': {}, 'inputs': {}}
    h = im.hooks(c)

    def differs(E, st, this, vals):
        pass
    for n in ('SetMagnitudeThreshold', 'SetToleranceRadius'):
        if n not in fs:
            raise BrokenAnalysis('the filter has no ' + n)
        r = c.analyse(fs[n], hooks=h)
        qs = {l[2] for st, v in r.rets for l, x in st.mem.items() if l[0] == 'f' and l[1] == r.this and x in (T('par', 0), lin(T('par', 0)))}
        # or a cut off part of it
        qs = qs or {l[2] for st, v in r.rets for l, x in st.mem.items() if l[0] == 'f' and l[1] == r.this and contains(x, lambda t: t == T('par', 0))}
        if len(qs) != 1:
            raise BrokenAnalysis('%s stores its argument in %r' % (n, qs))
        out[n] = qs.pop()
        for st, v in r.rets:
            x = r.E.load(st, field(r.this, out[n]))
            ok = same_value(st, x, T('par', 0))
            c.decide(True if ok == 1 else verdict(st, 0, x), RULE5, '%s leaves %s in the filter' % (n, show(x)), c.where(fs[n]), facts(st))
    for n in ('SetValidInput', 'SetTestInput'):
        if n not in fs:
            raise BrokenAnalysis('the filter has no ' + n)
        r = c.analyse(fs[n], hooks=h)
        for st, v in r.rets:
            qs = [l[2] for l, x in st.mem.items() if l[0] == 'f' and l[1] == r.this and l[2].startswith('itk::input') and x == T('par', 0)]
            if len(qs) != 1:
                c.decide(verdict(st, 0), RULE5, '%s gives its argument to %d inputs of the filter' % (n, len(qs)), c.where(fs[n]))
                raise BrokenAnalysis('%s not understood' % n)
            out[n] = int(qs[0][len('itk::input'):])
    if out['SetValidInput'] == out['SetTestInput']:
        c.decide(False, RULE5, 'both input setters of the filter set input %d' % out['SetTestInput'], c.where(fs['SetTestInput']))
    n = 'GetNumberOfPixelsWithDifferences'
    if n not in fs:
        raise BrokenAnalysis('the filter has no ' + n)
    r = c.analyse(fs[n], hooks=h)
    qs = set()
    for st, v in r.rets:
        t = walkterm_init(v)
        qs |= {l[2] for l in t if l[0] == 'f' and l[1] == r.this}
    if len(qs) != 1:
        raise BrokenAnalysis('%s reads %r' % (n, qs))
    out['count'] = qs.pop()
    out['fields'] = [out['SetMagnitudeThreshold'], out['SetToleranceRadius']]
    return out


def walkterm_init(v):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x[:2] == ('t', 'init'):
                out.append(x[2])
            for y in x:
                go(y)
    go(v)
    return out


def same_value(st, a, b):
    """1/0/None, also for floating point values known to be equal"""
    if a == b or lin(a) == b or a == lin(b):
        return 1
    if a[0] == 'fl' or b[0] == 'fl' or st.decide(feq(a, b)) is not None:
        return st.decide(feq(a, b))
    if a[0] in ('t', 'n') and b[0] in ('t', 'n'):
        return st.decide(mk_eq0(sub(a if a[0] == 'n' else lin(a), b if b[0] == 'n' else lin(b))))
    return None


def feq(a, b):
    return ('b', ('feq',) + tuple(sorted((a, b), key=skey)), 1)


def new_diff(c):
    fs, ct = filter_functions(c)
    if len(ct) != 1:
        raise BrokenAnalysis('%d constructors of the filter' % len(ct))
    cls = ct[0]['class']

    def h(E, st, fr, cc):
        o = T('diff', st.fresh())
        st.assume(mk_not(mk_null(o)))
        st.typ[('d', o)] = frozenset([cls])
        for s2, _ in E.run(ct[0], st, ('d', o), [], None, fr, cc.line):
            st = s2
        return im.put(st, cc, o)
    return h


def all_hooks(c, base=None):
    h = im.hooks(c, base)
    for f in filter_functions(c)[0].values():
        if f['name'] == 'New':
            h[im.DIFF + '::New'] = new_diff(c)
            h[f['key']] = h[im.DIFF + '::New']
    h['itk::ProcessObject::SetNumberOfRequiredInputs'] = im.void
    h['itk::ImageToImageFilter::ImageToImageFilter'] = im.void
    h['itk::ImageSource::DynamicMultiThreadingOff'] = im.void
    return h


def with_roles(fr_):
    def s(E):
        E.itk_diff_roles = fr_
    return s


def eqfact(st, kind, a, b):
    return 1 if a == b else st.decide(mk_eq(T(kind, a), T(kind, b)))


def judge(c, st, E, ro, equal, base, test, tol, rule, what, w, whole=True, geometry=('size', 'spacing', 'origin')):
    """equal: 1/0/None what the path says; base, test: the images; tol: [intensity, pixels, radius] values"""
    cs = evs(st, 'compared')
    fails = evs(st, 'itkfail')
    diff = [k for k in geometry if eqfact(st, k, base, test) == 0]
    agree = [k for k in geometry if eqfact(st, k, base, test) == 1]
    over = None
    wrong = []
    if len(cs) == 1:
        e = cs[0]
        ins = e[2]
        if ins[ro['SetValidInput']] != base:
            wrong.append('valid input %s' % show_image(ins[ro['SetValidInput']]))
        if ins[ro['SetTestInput']] != test:
            wrong.append('test input %s' % show_image(ins[ro['SetTestInput']]))
        for n, i in (('SetMagnitudeThreshold', 0), ('SetToleranceRadius', 2)):
            if same_value(st, e[3][ro[n]], tol[i]) != 1:
                wrong.append('%s %s' % (n[3:], show(e[3][ro[n]])))
        n = tol[1] if tol[1][0] == 'n' else lin(tol[1])
        over = st.decide(mk_le(sub(lin(e[4]), n)))
        over = None if over is None else 1 - over
    d = '%s; %d comparisons' % (facts(st, 12), len(cs))
    if wrong:
        c.decide(verdict(st, 0, *[x for e in cs for x in list(e[3].values())]), rule, '%s: the filter is given %s' % (what, ', '.join(wrong)), w, d)
        return
    if equal is None:
        c.undecided(rule, '%s: result not understood' % what, w, d)
        return
    if equal:
        miss = [k for k in geometry if k not in agree]
        if fails:
            ok, m = verdict(st, 0), 'though an image could not be read or compared'
        elif miss:
            ok, m = verdict(st, 0), 'though the two images may differ in ' + ', '.join(miss)
        elif len(cs) != 1:
            ok, m = verdict(st, 0), 'after %d pixel comparisons' % len(cs)
        elif over != 0:
            ok, m = verdict(st, 0), 'though more pixels may differ than the tolerance allows'
        else:
            ok, m = True, 'the images agree'
        c.decide(ok, rule, '%s: equal, %s' % (what, m), w, d)
    else:
        good = bool(fails) or bool(diff) or over == 1
        c.decide(True if good else verdict(st, 0), rule, '%s: different, %s' % (what, 'which is so' if good else 'though nothing is known to differ'), w, d)


def show_image(v):
    return 'none' if v is None else show(v)[:80]


# ------------------------------------------------------------------ the comparison visitor

def visiting(c, V):
    f = method(c, MF, 'AcceptVisitor')
    ro = filter_roles(c)
    rs = roles(c, V)
    if rs is None:
        c.undecided(RULE1, 'members of %s unknown' % V, '')
        return
    mem = dict(baseline_state(c, V))
    get = method(c, V, 'GetResult')
    h = all_hooks(c, cmp.attr_hooks(c))
    i = lambda o, n: T('init', cmp.attr(o, n))

    def extra(E, st):
        E.itk_diff_roles = ro
        st.typ[BASE] = frozenset([MF])
        st.assume(mk_eq(i(THIS, 'type'), S('image/itk')))
    r = c.analyse(f, hooks=h, setup=visitor_setup(c, V, MF, mem, extra), merge=False)
    mine = [g for g in c.p.functions.values() if g.get('class') == V and g['name'] == 'RegressionTestImage']
    w = c.where(mine[0] if mine else f)
    base, test = T('image', i(BASE, 'file')), T('image', i(THIS, 'file'))
    tol = [T('init', field(VIS, q)) for q in rs]
    n = 0
    for st0, _ in r.rets:
        for st, v in r.E.run(get, st0.fork(), VIS, [], None, None, 0):
            n += 1
            z = zero(st, v)
            if contains(v, lambda t: t[:2] == ('t', 'init')) and z is None:
                c.decide(verdict(st, 0), RULE1, 'an image comparison leaves the former result', w, facts(st, 12))
                continue
            judge(c, st, r.E, ro, None if z is None else 1 - z, base, test, tol, RULE1, 'comparing image files', w)
    if not n:
        c.decide(False, RULE1, 'comparing image files never returns', w)
    c.count('paths of the image comparison', n)


def direct(c, f):
    ro = filter_roles(c)
    h = all_hooks(c)
    ps = f['params']
    w = c.where(f)
    files = 'PathName' in ps[0]['t']
    reg = [i for i, q in enumerate(ps) if 'ImageRegion' in q['t'] or 'RegionType' in q['t']]
    what = 'CompareImage(%s)' % ', '.join(q['n'] for q in ps)

    given = []

    def setup(E, st, this, vals):
        E.itk_diff_roles = ro
        given.extend(vals)
    r = c.analyse(f, hooks=h, setup=setup, merge=False)
    r.vals = given
    for st, v in r.rets:
        test, base = [r.E.load(st, vals_loc(r, k)) for k in (0, 1)]
        if files:
            test, base = [T('image', r.E.load(st, ('f', vals_loc(r, k), 'fileutil::PathName::pathName'))) for k in (0, 1)]
        if len(ps) < 5:
            tol = [('fl', '0.0E+0'), num(0), num(0)]
        else:
            tol = [T('par', 2), T('par', 3), T('par', 4)]
        cases = [(st, test, base, ('size',))]
        if reg:
            g = r.E.load(st, vals_loc(r, reg[0]))
            cases = []
            for s2, whole in r.E.fork_bool(st, mk_eq(g, T('region0'))):
                cases.append((s2, test, base, ('size',)) if whole else (s2, T('part', g, test), T('part', g, base), ()))
        for s2, t, b, geo in cases:
            z = zero(s2, v)
            for s3, eq in ([(s2, z)] if z is not None else r.E.fork_bool(s2, mk_eq0(v if v[0] == 'n' else lin(v)))):
                judge(c, s3, r.E, ro, eq, b, t, tol, RULE2, what, w, geometry=geo)
    if not r.rets:
        c.decide(False, RULE2, '%s never returns' % what, w)


def vals_loc(r, k):
    v = r.vals[k]
    return v[1] if v[0] in ('l', 'o') else v


# ------------------------------------------------------------------ the difference report

def reporting(c, V):
    f = method(c, MF, 'AcceptVisitor')
    ro = filter_roles(c)
    rs = roles(c, V)
    if rs is None:
        c.undecided(RULE4, 'members of %s unknown' % V, '')
        return
    mem = dict(baseline_state(c, V))
    h = all_hooks(c, cmp.attr_hooks(c))
    h['testutil::operator<<'] = cmp.printed
    for cl in cmp.measurement_classes(c):
        h[cl + '::Print'] = print_hook
    for g in c.p.functions.values():
        if g['name'] == 'ImageThing':
            h[g['key']] = lambda E, st, fr, cc: [(st, num(0))]
    i = lambda o, n: T('init', cmp.attr(o, n))

    # two images of the same geometry and pixel type: no further lines are printed
    h['itk::ImageFileReader::GetImageIO'] = lambda E, st, fr, cc: [(st, T('imageio', cc.obj[1]))]
    for n in ('GetPixelType', 'GetComponentType', 'GetNumberOfComponents'):
        h['itk::ImageIOBase::' + n] = lambda E, st, fr, cc, n=n: [(st, lin(T(n)))]
    base, test = T('image', i(BASE, 'file')), T('image', i(THIS, 'file'))

    def extra(E, st):
        E.itk_diff_roles = ro
        st.typ[BASE] = frozenset([MF])
        st.assume(mk_eq(i(THIS, 'type'), S('image/itk')))
        for k in ('size', 'spacing', 'origin'):
            st.assume(mk_eq(T(k, base), T(k, test)))
    r = c.analyse(f, hooks=h, setup=visitor_setup(c, V, MF, mem, extra), merge=False, maxsteps=3000000)
    w = c.where(f)
    base, test = T('image', i(BASE, 'file')), T('image', i(THIS, 'file'))
    tol = [T('init', field(VIS, q)) for q in rs]
    seen = False
    for st, v in r.rets:
        for e in evs(st, 'compared'):
            seen = True
            wrong = []
            if e[2][ro['SetValidInput']] != base:
                wrong.append('valid input %s' % show_image(e[2][ro['SetValidInput']]))
            if e[2][ro['SetTestInput']] != test:
                wrong.append('test input %s' % show_image(e[2][ro['SetTestInput']]))
            for n, k in (('SetMagnitudeThreshold', 0), ('SetToleranceRadius', 2)):
                if same_value(st, e[3][ro[n]], tol[k]) != 1:
                    wrong.append('%s %s' % (n[3:], show(e[3][ro[n]])))
            c.decide(True if not wrong else verdict(st, 0, *list(e[3].values())), RULE4, 'the difference report: %s' % (', '.join(wrong) or 'inputs and tolerances as configured'), w, facts(st, 12))
    if not seen:
        c.undecided(RULE4, 'the difference report runs no filter', w)


def check(ck):
    tasks = []
    classes = [cl for cl in sorted(ck.p.classes) if tolerance_setter_own(ck, cl)]
    if RG not in classes:
        raise BrokenAnalysis('itk::Regression has no SetImageInsightTolerance')
    for cl in classes:
        tasks.append(('setters of ' + cl, lambda c, cl=cl: setters(c, cl)))
    tasks.append(('compare visitor', lambda c: creator(c, RG, 'CreateCompareVisitor', cmp.CV)))
    tasks.append(('difference visitor', lambda c: creator(c, RG, 'CreateDifferenceVisitor', cmp.DV)))
    for V in classes:
        if ck.p.is_a(V, cmp.CV):
            tasks.append(('visiting ' + V, lambda c, V=V: visiting(c, V)))
        elif ck.p.is_a(V, cmp.DV):
            tasks.append(('report ' + V, lambda c, V=V: reporting(c, V)))
    fs = [f for f in ck.p.functions.values() if f['qual'] == RG + '::CompareImage' and 'body' in f]
    if len(fs) < 3:
        raise BrokenAnalysis('%d overloads of CompareImage' % len(fs))
    for f in fs:
        tasks.append(('direct %d' % len(f['params']), lambda c, f=f: direct(c, f)))
    ck.run(tasks)


def tolerance_setter_own(ck, cl):
    return any(m['n'] == 'SetImageInsightTolerance' for m in ck.p.classes[cl].get('methods', []))
