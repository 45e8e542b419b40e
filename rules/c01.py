"""C01 A run that failed never reports success."""
from .common import *
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
The run driver (RegressionTest::Main and every override or wrapper of it that the program has) is interpreted abstractly
with its steps (parsing arguments, opening files, test body, finishing) replaced by 'returns normally with an arbitrary
result and arbitrary settings, or throws an exception of an unknown type'.  On every abstract path: a path on which a step
threw must return a value that is provably not 0 and let no exception out; a path without must return the test body's value
if that differs from the expected value in force, else the number of mismatches added during the run when the run was in
compare mode while its files were open, else 0.  Drivers (main functions) must return the run's value unchanged."""
ASSUME = ['a subclass that replaces the steps keeps their contracts', 'the operating system truncates an exit value to 8 bits',
          'memory exhaustion inside the error handling is out of scope']
CNT = RT + '::inputUnmatched'
EXP = RT + '::expectedReturn'
STEPS = ['ParseAndRemoveArguments', 'BeginMeasurement', 'EndMeasurement', 'WriteXMLOutputStart', 'WriteXMLOutputEnd', 'ReadXMLInput']


def run_hooks(ck, etype):
    wr = writers(ck, CNT)
    reachw = {}

    def settings(E, st, fr, c):
        """a step may change every setting of the object, but not the mismatch counter unless its code does"""
        obj = c.obj
        if obj is not None:
            st.mem[field(obj, EXP)] = lin(T('after', 'expectedReturn', st.fresh()))
            E.fit(st, st.mem[field(obj, EXP)][2][0][0], 'int')
            fn = ck.p.functions.get(c.e['f'])
            if fn and c.name != RT + '::Test':
                if c.name not in reachw:
                    reachw[c.name] = bool(reach(ck, [fn['key']]) & set(wr))
                if reachw[c.name]:
                    st.unknown('the step %s changes the counter' % c.name)
        st.emit('ran', c.name)
        return [(st, ('void',))]

    def test(E, st, fr, c):
        settings(E, st, fr, c)
        k = T('mismatches', st.fresh())
        t = T('testret', st.fresh())
        st.iv[k] = (0, 2**31 - 2)
        st.iv[t] = (-2**31, 2**31 - 1)
        l = field(c.obj, CNT)
        st.mem[l] = add(E.load(st, l, 'int'), lin(k))
        st.emit('testret', lin(t), lin(k))
        return [(st, lin(t))]

    def mode(E, st, fr, c):
        ran = [e[1] for e in evs(st, 'ran')]
        ph = 'open' if RT + '::BeginMeasurement' in ran and RT + '::EndMeasurement' not in ran else 'closed'
        return [(st, mk_true(T('comparemode', ph)))]

    h = throwing([RT + '::' + s for s in STEPS], etype, settings)
    h.update(throwing([RT + '::Test'], etype, test))
    h[RT + '::GetCompareMode'] = mode
    for n in ('CloseFiles', 'ReadXMLInputFree'):
        h[RT + '::' + n] = step
    return h


def judge(ck, main, r, etype):
    nthrow = nnorm = 0
    for st, et, v in r.throws:
        ck.decide(None if st.unk else False, 'no exception leaves a run', 'an exception (%s) leaves %s' % (et, main['qual']), ck.where(main), facts(st))
    for a in r.aborts:
        ck.decide(None if a[0].unk else False, 'a run ends in a result', '%s ends by %s' % (main['qual'], a[1]), ck.where(main, a[3]), facts(a[0]))
    for st, v in r.rets:
        bad = evs(st, 'stepthrow', 'throw')
        if bad:
            nthrow += 1
            which = ', '.join(e[1].split('::')[-1] for e in evs(st, 'stepthrow')) or 'a step'
            z = zero(st, v)
            ok = True if z == 0 else verdict(st, 0, v)
            ck.decide(ok, 'failed run is non-zero', '%s returns %s after an exception (%s) in %s' % (main['qual'], show(v), etype, which),
                      ck.where(main), facts(st))
            continue
        nnorm += 1
        tr = evs(st, 'testret')
        if len(tr) != 1:
            ck.violated('the test body runs once', '%s runs the test body %d times' % (main['qual'], len(tr)), ck.where(main))
            continue
        ran = [e[1].split('::')[-1] for e in evs(st, 'ran')]
        order = [s for s in ran if s in ('ParseAndRemoveArguments', 'BeginMeasurement', 'EndMeasurement', 'Test')]
        if order != ['ParseAndRemoveArguments', 'BeginMeasurement', 'Test', 'EndMeasurement']:
            ck.violated('steps of a run', '%s performs the steps %s' % (main['qual'], ', '.join(order)), ck.where(main))
        t, k = tr[0][1], tr[0][2]
        # the expected value at the end of the run
        exp = r.E.load(st, field(r.this, EXP), 'int')
        eq = same(st, t, exp)
        cm = st.decide(mk_true(T('comparemode', 'open')))
        if eq == 0:
            ok = same(st, v, t)
            want = 'the test body\'s value'
        elif eq == 1 and cm == 1:
            ok = same(st, v, k)
            want = 'the number of mismatches'
        elif eq == 1 and cm == 0:
            ok = zero(st, v)
            want = '0'
        elif eq == 1:
            # mode not asked on this path: only right if both answers agree, which they do not in general
            ok, want = 0, 'a result that depends on the compare mode'
        else:
            ok, want = 0, 'a result that depends on the expected value'
        ck.decide(verdict(st, ok, v), 'result of a completed run', '%s returns %s where %s is required' % (main['qual'], show(v), want) if ok != 1
                  else '%s returns %s' % (main['qual'], want), ck.where(main), facts(st))
    nthrow += len(r.throws)
    if not nthrow or not nnorm:
        raise BrokenAnalysis('no %s path through %s' % ('failing' if not nthrow else 'normal', main['qual']))


def check(ck):
    base = ck.need(RT + '::Main')
    mains = [f for f in ck.p.functions.values() if f['name'] == 'Main' and f.get('class') and ck.p.is_a(f['class'], RT)]
    tasks = []
    for etype in ('any', 'std::runtime_error', 'std::exception', 'int', 'std::logic_error', 'itk::ExceptionObject'):
        def one(c, etype=etype):
            r = c.analyse(base, hooks=run_hooks(c, etype))
            judge(c, base, r, etype)
        tasks.append(('Main/' + etype, one))

    def wrapper(f):
        def go(c):
            vals = {}

            def inner(E, st, fr, cl):
                v = T('mainret', st.fresh())
                st.iv[v] = (-2**31, 2**31 - 1)
                st.emit('mainret', lin(v), cl.line)
                return [(st, lin(v))]
            r = c.analyse(f, hooks={RT + '::Main': inner, 'itk::Regression::SetTestName': nothing})
            n = 0
            for st, v in r.rets:
                m = evs(st, 'mainret')
                if len(m) != 1:
                    if not m and f['name'] == 'main' and zero(st, v) == 0:
                        continue
                    c.decide(None if st.unk and not m else False, 'driver runs the test once', '%s calls Main %d times' % (f['qual'], len(m)), c.where(f), facts(st))
                    continue
                n += 1
                ok = same(st, v, m[0][1])
                c.decide(True if ok == 1 else False, 'driver hands the result on', '%s returns %s instead of the run\'s result' % (f['qual'], show(v)) if ok != 1
                         else '%s returns the run\'s result' % f['qual'], c.where(f, m[0][2]), facts(st))
            if not n:
                raise BrokenAnalysis('%s does not reach Main' % f['qual'])
        return go
    for f in mains:
        if f is not base:
            tasks.append((f['qual'], wrapper(f)))
    drv = [f for f in ck.p.functions.values() if f['name'] == 'main' and not f.get('class')]
    if not drv:
        raise BrokenAnalysis('no command line driver found')
    for f in drv:
        tasks.append((f['key'], wrapper(f)))
    ck.run(tasks)
    ck.stats['drivers'] = len(drv) + len(mains)
