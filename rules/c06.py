"""C06 Every recording call records or compares exactly its own measurement."""
from .common import *
from . import compare as cmp
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
Each recording call (every Measurement... method of the run classes) is interpreted abstractly from an arbitrary object state
with the mode as an unknown truth value and measurements' attributes as abstract fields.  On each returning path: in record
mode exactly one measurement element is written to the configured output, of the call's own class and type, with the given
name and value (numeric values through the class's own value conversion, file names through their tail), nothing else but
white space is written, nothing is compared and zero is returned; in compare mode nothing is written, exactly one
comparison is made of the measurement with those attributes (file names in full) and the call's own tolerance flag, and its
result is returned.  The value conversions write exactly their argument; the fixed types of the classes are read from the
type accessors."""
ASSUME = ['subclasses outside the repository are not analysed', 'an integer, float or bool is formatted by the standard library as documented']

# call -> (class of the measurement, type, value parameter kind)
CALLS = {'MeasurementTextString': ('testutil::StringText', 'text/string', 'text'),
         'MeasurementTextPlain': ('testutil::PlainText', 'text/plain', 'text'),
         'MeasurementFileTextPlain': ('testutil::MeasurementFile', 'text/plain', 'file'),
         'MeasurementFileImagePNG': ('testutil::MeasurementFile', 'image/png', 'file'),
         'MeasurementFileImageJPEG': ('testutil::MeasurementFile', 'image/jpeg', 'file'),
         'MeasurementNumericInteger': ('testutil::IntegerNumeric', 'numeric/integer', 'value'),
         'MeasurementNumericFloat': ('testutil::FloatNumeric', 'numeric/float', 'value'),
         'MeasurementNumericDouble': ('testutil::DoubleNumeric', 'numeric/double', 'value'),
         'MeasurementNumericBoolean': ('testutil::BooleanNumeric', 'numeric/boolean', 'value'),
         'MeasurementInsightFileImage': ('testutil::MeasurementFile', 'image/itk', 'file')}


DIGITS = {'float': 6, 'double': 15}


def mode(E, st, fr, c):
    st.emit('mode', c.line)
    return [(st, mk_true(T('compare-mode')))]


def compared(E, st, fr, c):
    s2 = st.fork()
    E.throw(s2, 'any', None, fr, c.line)
    o = c.args[0][1]
    n = len(evs(st, 'compared')) + 1
    r = T('comparison', n)
    st.emit('compared', o, tuple(sorted((l[2], v) for l, v in st.mem.items() if l[0] == 'f' and l[1] == o)), c.args[1] if len(c.args) > 1 else None, r, c.line, tuple(sorted(st.typ.get(o) or ())))
    return [(st, lin(r))]


def the_hooks(ck):
    h = cmp.hooks(ck)
    # a file measurement's content is its file name
    for cl in cmp.measurement_classes(ck):
        if ck.p.is_a(cl, 'testutil::MeasurementFile'):
            h[cl + '::SetContent'] = h[cl + '::SetFileName']
            h[cl + '::GetContent'] = h[cl + '::GetFileName']
        if ck.p.is_a(cl, 'testutil::NumericData'):
            def setvalue(E, st, fr, c, cl=cl):
                st.mem[cmp.attr(c.obj, 'content')] = T('value', cl, c.args[0])
                return [(st, ('void',))]
            h[cl + '::SetValue'] = setvalue
    for cl in cmp.runners(ck):
        h[cl + '::GetCompareMode'] = mode
        h[cl + '::CompareMeasurement'] = compared
    return h


def recorders(ck):
    out = []
    for f in ck.p.functions.values():
        if f.get('class') and f.get('kind') == 'method' and f['name'].startswith('Measurement') and ck.p.is_a(f['class'], RT) and 'body' in f:
            out.append(f)
    return sorted(out, key=lambda f: f['qual'])


def check(ck):
    rs = recorders(ck)
    names = {f['name'] for f in rs}
    for n in CALLS:
        if n not in names:
            raise BrokenAnalysis('recording call %s is gone' % n)
    tasks = []
    for f in rs:
        if f['name'] in CALLS:
            tasks.append((f['qual'], lambda c, f=f: one(c, f)))
        elif f['qual'].startswith('testutil::'):
            ck.undecided('every recording call', '%s is not a known recording call' % f['qual'], ck.where(f))
    for cl in sorted({v[0] for v in CALLS.values()}):
        if ck.p.is_a(cl, 'testutil::NumericData'):
            tasks.append(('SetValue of ' + cl, lambda c, cl=cl: value(c, cl)))
        if not ck.p.is_a(cl, 'testutil::MeasurementFile'):
            tasks.append(('type of ' + cl, lambda c, cl=cl: fixed_type(c, cl)))
    ck.run(tasks)


def par(f, pred):
    r = [i for i, x in enumerate(f['params']) if pred(x)]
    return r


def one(c, f):
    cls, typ, kind = CALLS[f['name']]
    strings = par(f, lambda x: 'basic_string' in x['t'] or x['t'].startswith('const std::string'))
    bools = par(f, lambda x: x['t'] == 'bool' and x is f['params'][-1] and len(f['params']) > 2)
    if not strings:
        raise BrokenAnalysis('%s has no name parameter' % f['qual'])
    namep = strings[-1]
    others = [i for i in range(len(f['params'])) if i != namep and i not in bools]
    if len(others) != 1:
        raise BrokenAnalysis('%s: value parameter not found' % f['qual'])
    vp = others[0]

    r = c.analyse(f, hooks=the_hooks(c))

    def pv(i):
        return T('init', ('d', T('par', i))) if 'basic_string' in f['params'][i]['t'] else T('par', i)
    name, val = pv(namep), pv(vp)
    flag = T('par', bools[0]) if bools else None
    seen = set()
    for st, v in r.rets:
        m = st.decide(mk_true(T('compare-mode')))
        pr, cm = evs(st, 'printed'), evs(st, 'compared')
        w = c.where(f)
        if m is None:
            c.decide(verdict(st, 0), 'depends on the mode', '%s does the same in both modes' % f['qual'], w, facts(st))
            continue
        seen.add(m)
        text = [e for e in evs(st, 'out') if e[1] == ('d', T('configured-output'))]
        if m == 0:
            ok = len(pr) == 1 and not cm and pr[0][1] == ('d', T('configured-output'))
            c.decide(True if ok else verdict(st, 0), 'record mode writes one element', '%s writes %d elements%s and makes %d comparisons' % (
                f['qual'], len(pr), ''.join(' to ' + show(e[1]) for e in pr), len(cm)), w, facts(st))
            if pr:
                attrs(c, f, r, st, pr[0][2], pr[0][3], pr[0][5], cls, typ, kind, name, val, True)
            bad = [e for e in text if e[2][0] != 's' or e[2][1].strip()]
            c.decide(True if not bad else verdict(st, 0), 'nothing else is written', '%s writes %s besides' % (f['qual'], [show(e[2]) for e in bad] or 'only white space'), w, facts(st))
            z = zero(st, v)
            c.decide(True if z == 1 else verdict(st, 0, v), 'record mode returns zero', '%s returns %s' % (f['qual'], show(v)), w, facts(st))
        else:
            ok = len(cm) == 1 and not pr and not text
            c.decide(True if ok else verdict(st, 0), 'compare mode makes one comparison', '%s makes %d comparisons and writes %d elements' % (f['qual'], len(cm), len(pr) + len(text)), w, facts(st))
            for e in cm[:1]:
                attrs(c, f, r, st, e[1], e[2], e[6], cls, typ, kind, name, val, False)
                fl = e[3]
                if flag is None:
                    ok = fl is None or zero(st, fl) == 1
                else:
                    ok = fl is not None and (fl == flag or same(st, fl, mk_true(flag)) == 1 or fl == mk_true(flag))
                c.decide(True if ok else verdict(st, 0, fl or ()), 'the call\'s own tolerance flag', '%s compares with the flag %s' % (f['qual'], show(fl) if fl else 'left at its default'), w, facts(st))
                ok = same(st, v, lin(e[4]))
                c.decide(True if ok == 1 else verdict(st, 0, v), 'the comparison\'s result is returned', '%s returns %s' % (f['qual'], show(v)), w, facts(st))
    if seen != {0, 1}:
        raise BrokenAnalysis('%s: not both modes have a way through' % f['qual'])
    for st, et, v in r.throws:
        if et != 'any':
            c.decide(verdict(st, 0), 'recording does not throw by itself', '%s throws %s' % (f['qual'], et), c.where(f), facts(st))
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'no abort', '%s: %s' % (f['qual'], k), c.where(f, line), facts(st))


def attrs(c, f, r, st, obj, snap, cl, cls, typ, kind, name, val, record):
    w = c.where(f)
    a = dict(snap)
    cut = [e[1] for e in evs(st, 'ntbs')]
    for t, what in ((name, 'name'), (val, 'value')):
        if t in cut:
            c.decide(verdict(st, 0), 'the given ' + what, '%s keeps the %s up to its first zero byte only' % (f['qual'], what), w, facts(st))
    ok = cl and all(x == cls for x in cl)
    c.decide(True if ok else verdict(st, 0), 'the call\'s own kind of measurement', '%s uses a %s' % (f['qual'], sorted(cl) if cl else 'measurement of unknown class'), w, facts(st))
    n = a.get('attr::name')
    c.decide(True if n == name else verdict(st, 0, n or ()), 'the given name', '%s names the measurement %s' % (f['qual'], show(n) if n else 'not at all'), w, facts(st))
    if cls == 'testutil::MeasurementFile':
        t = a.get('attr::type')
        c.decide(True if t == S(typ) else verdict(st, 0, t or ()), 'the call\'s own type', '%s gives the type %s' % (f['qual'], show(t) if t else 'none'), w, facts(st))
    if kind == 'file':
        x = a.get('attr::file')
        if record:
            ok = x == T('tail', val)
        else:
            ok = x == val
        c.decide(True if ok else verdict(st, 0, x or ()), 'the given value', '%s %s the file name %s' % (f['qual'], 'records' if record else 'compares', show(x) if x else 'unset'), w, facts(st))
    else:
        x = a.get('attr::content')
        want = [val] if kind == 'text' else [T('value', cls, val), T('value', cls, lin(val)), T('value', cls, mk_true(val))]
        c.decide(True if x in want else verdict(st, 0, x or ()), 'the given value', '%s gives the content %s' % (f['qual'], show(x) if x else 'none'), w, facts(st))


def value(c, cl):
    """SetValue makes the content exactly the formatted argument"""
    f = c.need(cl + '::SetValue')
    r = c.analyse(f, hooks=cmp.attr_hooks(c))
    for st, v in r.rets:
        x = r.E.load(st, cmp.attr(r.this, 'content')) if cmp.attr(r.this, 'content') in st.mem else None
        p = catparts(x) if x is not None else ()
        want = (T('par', 0), lin(T('par', 0)), mk_true(T('par', 0)))
        ok = len(p) == 1 and p[0][0] == 't' and p[0][1] in ('fmt', 'tostr') and p[0][2] in want
        if ok and len(p[0]) > 3:
            # floating point: at least the digits the type holds
            prec = p[0][3]
            prec = prec[1] if prec[0] == 'n' and not prec[2] else 6
            ok = prec >= DIGITS.get(f['params'][0]['t'].replace('const ', ''), 0)
        if not ok and x in (S('0'), S('1')) and f['params'][0]['t'].replace('const ', '') == 'bool':
            b = st.decide(mk_true(T('par', 0)))
            ok = b is not None and x == S('1' if b else '0')
        c.decide(True if ok else verdict(st, 0, x or ()), 'a number is formatted as it is', '%s makes the content %s' % (f['qual'], show(x) if x else 'nothing'), c.where(f), facts(st))
    if not r.rets:
        raise BrokenAnalysis('%s has no way through' % f['qual'])


def fixed_type(c, cl):
    typ = {v[0]: v[1] for v in CALLS.values()}[cl]
    k = None
    for f in c.p.functions.values():
        if f['name'] == 'GetAttributeType' and f.get('class') == cl:
            k = f
    if k is None:
        raise BrokenAnalysis('%s has no type accessor' % cl)
    r = c.analyse(k)
    for st, v in r.rets:
        x = r.E.load(st, v[1]) if v[0] == 'l' else v
        c.decide(True if x == S(typ) else verdict(st, 0, x), 'the class\'s own type', '%s has the type %s' % (cl, show(x)), c.where(k), facts(st))
