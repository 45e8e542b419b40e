"""C03 The n-th measurement is compared with the n-th baseline entry."""
from .common import *
from . import compare as cmp
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
The list of baseline entries is tracked as an abstract sequence.  For CompareMeasurement (every class that can run tests,
arbitrary state): on every path, also those that end in an exception of the comparison, exactly the first entry is removed
when one is left, nothing is removed or looked at otherwise, and every comparison or difference visit is made by the test
measurement with exactly that first entry as baseline.  The reader's end-of-element handler appends the element's
measurement at the end of its list once, reading hands that list over unchanged, and a who-may-write analysis shows nothing
else changes the list of entries."""
ASSUME = ['the XML parser reports elements in document order']
INPUT = cmp.INPUT


def check(ck):
    tasks = []
    for f in cmp.implementations(ck):
        for cls in cmp.runners(ck):
            if ck.p.is_a(cls, f['class']):
                tasks.append(('%s as %s' % (f['qual'], cls), lambda c, f=f, cls=cls: compare(c, f, cls)))
    tasks.append(('reader', reader))
    ck.run(tasks)
    wr = writers(ck, INPUT)
    allow = reach(ck, {f['key'] for f in cmp.implementations(ck)})
    for n in ('ReadXMLInput', 'ReadXMLInputFree', '~RegressionTest', 'RegressionTest'):
        allow |= {f['key'] for f in ck.p.fn(RT + '::' + n)}
        if n.startswith('Read'):
            allow |= reach(ck, {f['key'] for f in ck.p.fn(RT + '::' + n)})
    for k, ws in wr.items():
        f = ck.p.functions[k]
        ck.decide(k in allow, 'who may change the entries', '%s changes the list of baseline entries (%s)' % (f['qual'], ws[0][1]), ck.where(f, ws[0][0]))
    if not wr:
        raise BrokenAnalysis('nothing changes the list of entries')


def compare(c, f, cls):
    r = cmp.run(c, f, cls)
    L0 = cmp.TAIL0
    front, tl = T('front', L0), T('tail', L0)
    n = 0
    for st, v, how in [(s, v, 'returns') for s, v in r.rets] + [(s, None, 'throws') for s, e, v in r.throws]:
        e = st.decide(mk_eq0(lin(T('lsize', L0))))
        now = r.E.load(st, field(r.this, INPUT))
        visits = evs(st, 'accept')
        if how == 'throws' and not evs(st, 'stepthrow'):
            continue
        untouched = now == L0 or now == ('L', (), L0, ())
        popped = now == ('L', (), tl, ()) or now == tl
        if e == 1:
            ok = untouched
            what = 'nothing is left'
        elif e == 0:
            ok = popped
            what = 'an entry is left'
        else:
            ok, what = False, 'it was not checked whether an entry is left'
        c.decide(True if ok else verdict(st, 0, now), 'one entry is used up', 'as %s: %s %s with the entries %s where %s' % (cls, f['qual'], how, show(now), what), c.where(f), facts(st))
        for x in evs(st, 'front-maybe-empty'):
            c.decide(verdict(st, 0), 'no entry is looked at when none is left', '%s looks at an entry that may not exist' % f['qual'], c.where(f, x[2]), facts(st))
        for x in visits + [('accept', z[2]) for z in ()]:
            kind, obj, vis, snap, line, alive = x[1], x[2], x[3], dict(x[4]), x[6], x[7]
            if kind == 'other':
                continue
            n += 1
            b = snap.get((cmp.CV if kind == 'compare' else cmp.DV) + '::_baseline')
            ok = b == front and obj == ('d', T('par', 0)) and alive
            c.decide(True if ok else verdict(st, 0, b or NULL), 'compared with the first entry', 'as %s: %s visit of %s with baseline %s' % (cls, kind, show(obj), show(b) if b else 'unset'),
                     c.where(f, line), facts(st))
    if not n:
        raise BrokenAnalysis('%s makes no comparison' % f['qual'])


def reader(c):
    from . import reader as rd
    for f in rd.handlers(c)['end']:
        r = c.analyse(f, setup=rd.handler_setup, hooks=rd.measurement_hooks(c))
        k = 0
        for st, v in r.rets:
            pd = rd.pd_obj(c)
            before = T('init', rd.pd_field(c, 'measurements'))
            now = r.E.load(st, rd.pd_field(c, 'measurements'))
            m = T('init', rd.pd_field(c, 'm'))
            app = now == ('L', (), before, (m,))
            same_ = now == before or now == ('L', (), before, ())
            depth = st.decide(mk_eq0(sub(T('init', rd.pd_field(c, 'depth')), num(2))))
            isn = st.decide_null(m)
            if depth == 0 or isn == 1:
                ok = same_
            elif depth == 1 and isn == 0:
                ok = app
                k += 1
            else:
                ok = False
            c.decide(True if ok else verdict(st, 0, now), 'measurements are kept in document order', '%s: list is %s' % (f['qual'], show(now)), c.where(f), facts(st))
        if not k:
            raise BrokenAnalysis('no measurement is kept')
