"""C02 Each compared measurement is one match or exactly one mismatch."""
from .common import *
from . import compare as cmp
from .c01 import STEPS
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
CompareMeasurement is interpreted abstractly for every class that can run tests, from an arbitrary object state, with
measurements' attributes as abstract fields and the comparison visitor's verdict as an unknown truth value.  On each
returning path the change of the mismatch counter and the returned value are compared with the outcome the branch facts
determine: no entry left, names differ, types differ or verdict false: +1 and non-zero; else +0 and 0.  A path whose facts
do not determine the outcome it produces is a violation.  A who-may-write analysis over the call graph shows that the
counter is otherwise only written by the constructor and the run driver (whose net effect C01 decides)."""
ASSUME = ['int arithmetic on the counter does not overflow (fewer than 2^31 mismatches)', 'subclasses outside the repository do not write the counter']
CNT = cmp.CNT
STEPS = STEPS + ['Test', 'GetCompareMode', 'CloseFiles', 'ReadXMLInputFree']


def outcome(st, r):
    """(decided mismatch or not, why) from the facts of the path"""
    par = ('d', T('par', 0))
    front = ('d', T('front', cmp.TAIL0))
    i = lambda o, n: T('init', cmp.attr(o, n))
    e = st.decide(mk_eq0(lin(T('lsize', cmp.TAIL0))))
    if e == 1:
        return 1, 'no baseline entry is left'
    nm = st.decide_eq(i(par, 'name'), i(front, 'name'))
    ty = st.decide_eq(i(par, 'type'), i(front, 'type'))
    if nm == 0:
        return 1, 'the names differ'
    if ty == 0:
        return 1, 'the types differ'
    acc = [x for x in evs(st, 'accept') if x[1] == 'compare']
    vd = None
    if acc:
        n = 1 + [x for x in evs(st, 'accept')].index(acc[-1])
        vd = st.decide(mk_true(T('verdict', n)))
    if vd == 0:
        return 1, 'the comparison says different'
    if e == 0 and nm == 1 and ty == 1 and vd == 1:
        return 0, 'name, type and comparison agree'
    miss = [w for w, x in (('whether an entry is left', e), ('whether the names are equal', nm), ('whether the types are equal', ty), ('the verdict', vd)) if x is None]
    return None, 'the path does not depend on ' + ', '.join(miss)


def check(ck):
    tasks = []
    for f in cmp.implementations(ck):
        for cls in cmp.runners(ck):
            if not ck.p.is_a(cls, f['class']):
                continue

            def go(c, f=f, cls=cls):
                r = cmp.run(c, f, cls)
                seen = set()
                for st, v in r.rets:
                    d = sub(r.E.load(st, field(r.this, CNT), 'int'), lin(T('init', field(r.this, CNT))))
                    exp, why = outcome(st, r)
                    seen.add(exp)
                    got = 0 if same(st, d, num(0)) == 1 else 1 if same(st, d, num(1)) == 1 else None
                    ok = exp is not None and got == exp
                    c.decide(True if ok else verdict(st, 0, d), 'counter', 'as %s: %s changes the mismatch count by %s where %s' % (cls, f['qual'], show(d), why), c.where(f), facts(st))
                    z = zero(st, v)
                    ok = exp is not None and z is not None and z == 1 - exp
                    c.decide(True if ok else verdict(st, 0, v), 'result', 'as %s: %s returns %s where %s' % (cls, f['qual'], show(v), why), c.where(f), facts(st))
                if not {0, 1} <= seen:
                    raise BrokenAnalysis('%s has no %s path' % (f['qual'], 'matching' if 0 not in seen else 'mismatching'))
                if cls != RT and not r.throws:
                    pass
            tasks.append(('%s as %s' % (f['qual'], cls), go))
    ck.run(tasks)
    # who may write the counter
    wr = writers(ck, CNT)
    if not wr:
        raise BrokenAnalysis('nothing writes the mismatch counter')
    cmps = {f['key'] for f in cmp.implementations(ck)}
    mains = {f['key'] for f in ck.p.functions.values() if f['name'] == 'Main' and f.get('class') and ck.p.is_a(f['class'], RT)}
    # helpers that only the driver or a constructor calls are part of it: C01 interprets the driver through them.  The
    # steps of a run are not, those may not touch the counter
    calls = {k: callees(ck, f) for k, f in ck.p.functions.items()}
    by = {}
    for j, ds in calls.items():
        for k in ds:
            by.setdefault(k, set()).add(j)
    roots = mains | {k for k, f in ck.p.functions.items() if f.get('kind') == 'ctor'}
    todo = sorted(roots)
    while todo:
        for k in calls[todo.pop()]:
            f = ck.p.functions[k]
            if k not in roots and k not in cmps and f['name'] not in STEPS and by[k] <= roots:
                mains.add(k)
                roots.add(k)
                todo.append(k)
    under = reach(ck, cmps)
    # everything that runs without going through CompareMeasurement
    entry = [f for f in ck.p.functions.values() if f.get('class') and ck.p.is_a(f['class'], RT) and f.get('kind') == 'method'
             and f['key'] not in cmps and f['key'] not in under and f['key'] not in mains]
    for k, ws in wr.items():
        f = ck.p.functions[k]
        if f['kind'] in ('ctor',) or k in mains:
            ck.held('who may write the counter', '%s: constructor or run driver' % f['qual'], ck.where(f))
        elif k in under or k in cmps:
            ck.held('who may write the counter', '%s, reached from CompareMeasurement' % f['qual'], ck.where(f))
        else:
            ck.violated('who may write the counter', '%s changes the mismatch count outside a comparison' % f['qual'], ck.where(f, ws[0][0]))
    for f in entry:
        rs = reach(ck, [f['key']], stop=cmps | mains) & set(wr)
        for k in rs:
            if k == f['key']:
                continue
            ck.violated('counter only through a comparison', '%s reaches %s without a comparison' % (f['qual'], ck.p.functions[k]['qual']), ck.where(f))
        if not rs:
            ck.held('counter only through a comparison', f['qual'], ck.where(f))
    ck.stats['writers_of_counter'] = len(wr)
