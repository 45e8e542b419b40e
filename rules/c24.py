"""C24 The image difference statistics count every pixel exactly once."""
from .common import *
from . import itkmodel as im
from .c23 import walkterm_init
from . import c23
from sa import export

UNITS = export.CORE + export.ITK
WITNESS = 'c24.cpp'
EXPLAIN = """
The filter's three phases are interpreted abstractly (instantiated for an image of numbers) over a model of the toolkit's image
iterators: an iterator is an image, a region and a position, and a pixel value is a term of the three.  (1) The constructor turns
dynamic multithreading off (or the class overrides the dynamic phase), and each phase overrides the toolkit's.  (2) Before the
threads run, each counter vector has one element per thread and all of them are zero.  (3) The threaded work: the only writes to
members are to the counters' elements of its own thread; each face of the region computed by the toolkit for this thread's
region is visited by exactly one pixel loop that starts at the first and ends behind the last position and steps both input
iterators together (or is left out because it is a boundary face and these are ignored); on each path through a pixel the
count is raised by one and the sum by the square root of the minimum exactly if the path knows that the minimum exceeds the
squared threshold, where the minimum is followed through the neighbourhood loop: it starts with the centre pixel, becomes a
neighbour's difference exactly if that is smaller, and the search ends only behind the last neighbour or when the minimum no
longer exceeds the threshold.  (4) Afterwards the total members are the sums over all elements, starting with zero of the
element's type; no other function writes the counters or totals."""
ASSUME = ['the toolkit calls the three phases once per execution, the threaded one with disjoint regions that cover the image and thread numbers below the number of threads',
          'the boundary face calculator splits a region without overlap; the neighbourhood iterator contains all pixels within the radius',
          'instantiations for other pixel types share the source of the one analysed', 'pixels that are no numbers are not considered']

RULET = 'the threaded work is run'
RULEZ = 'counters are sized and reset'
RULEO = 'a thread touches only its own counters'
RULEP = 'every pixel is looked at once'
RULEC = 'counted exactly if the minimum exceeds the threshold'
RULEM = 'the smallest difference of the neighbourhood'
RULES = 'totals are the sums over all threads'


def flt(a, b):
    return ('b', ('flt', a, b), 1)


def fle(a, b):
    return ('b', ('fle', a, b), 1)


def le(st, a, b):
    """is a <= b known (numbers)?"""
    return 1 if a == b or st.decide(fle(a, b)) == 1 or st.decide(flt(a, b)) == 1 or st.decide(flt(b, a)) == 0 or st.decide(fle(b, a)) == 0 else 0


def lt(st, a, b):
    """is a < b known (numbers)?"""
    return 1 if st.decide(flt(a, b)) == 1 or st.decide(fle(b, a)) == 0 else 0


def greater(st, a, b):
    """1/0/None: is the number a greater than b?"""
    for atom, pol in ((flt(b, a), 1), (fle(a, b), 0), (fle(b, a), 0), (flt(a, b), 0)):
        d = st.decide(atom)
        if d is None:
            continue
        if atom == flt(b, a):
            return d
        if atom == fle(a, b):
            return 1 - d
        if atom == flt(a, b) and d == 1:
            return 0
        if atom == fle(b, a) and d == 0:
            return 0
    return None


def float_feasible(st):
    for a in list(st.facts):
        if a[0] not in ('flt', 'fle'):
            continue
        v, o = st.facts[a], 'fle' if a[0] == 'flt' else 'flt'
        # a < b and b <= a, a < b and b < a, or neither a < b nor b <= a (no numbers)
        if st.facts.get((o, a[2], a[1])) == v and v is not None or a[0] == 'flt' and v and st.facts.get(('flt', a[2], a[1])):
            return False
        if a[0] == 'fle' and v == 0 and st.facts.get(('fle', a[2], a[1])) == 0:
            return False
    return True


feasible = float_feasible


PIXEL = ["double"]
all_functions = c23.filter_functions


def filter_functions(c):
    fs, ct = all_functions(c)
    mine = lambda f: '<itk::Image<%s,' % PIXEL[0] in f['qual']
    fs = {f['name']: f for f in c.p.functions.values() if f['qual'].startswith(im.DIFF) and 'body' in f and mine(f) and (f['kind'] != 'ctor' or not f['params'])}
    return fs, [f for f in ct if mine(f)]


def filter_roles(c):
    keep = c23.filter_functions
    c23.filter_functions = filter_functions
    try:
        return c23.filter_roles(c)
    finally:
        c23.filter_functions = keep


def get(c, name):
    fs = filter_functions(c)[0]
    return fs.get(name)


# ------------------------------------------------------------------ which phases run

def phases(c):
    fs, ct = filter_functions(c)
    if not ct:
        raise BrokenAnalysis('the filter has no constructor')
    cls = ct[0]['class']
    ms = {m['n']: m for m in c.p.classes[cls]['methods']}
    for n in ('BeforeThreadedGenerateData', 'AfterThreadedGenerateData', 'ThreadedGenerateData', 'DynamicThreadedGenerateData'):
        m = ms.get(n)
        if m is None:
            if n in ('BeforeThreadedGenerateData', 'AfterThreadedGenerateData'):
                c.undecided(RULET, 'the filter has no %s' % n, c.where(ct[0]))
            continue
        c.decide(bool(m.get('over')), RULET, '%s %s' % (n, 'overrides the phase of the toolkit' if m.get('over') else 'overrides nothing, so it is never called'), c.where(fs.get(n, ct[0])))
    dyn = 'DynamicThreadedGenerateData' in ms and ms['DynamicThreadedGenerateData'].get('over')
    thr = 'ThreadedGenerateData' in ms
    if not thr and not dyn:
        c.undecided(RULET, 'no threaded phase', c.where(ct[0]))
        return
    # is dynamic multithreading off after construction?  (it is on by default)
    h = im.pixel_hooks(c)
    note = lambda n: lambda E, st, fr, cc: (st.emit('dynamic', n), [(st, ('void',))])[1]
    h['itk::ImageSource::DynamicMultiThreadingOff'] = note(0)
    h['itk::ImageSource::DynamicMultiThreadingOn'] = note(1)

    def setd(E, st, fr, cc):
        d = st.decide(cc.args[0]) if cc.args[0][0] == 'b' else zero(st, cc.args[0])
        st.emit('dynamic', d if cc.args[0][0] == 'b' else None if d is None else 1 - d)
        return [(st, ('void',))]
    h['itk::ImageSource::SetDynamicMultiThreading'] = setd
    for f in ct:
        r = c.analyse(f, hooks=h, setup=lambda E, st, this, vals: st.typ.update({this: frozenset([cls])}))
        for st, v in r.rets:
            e = evs(st, 'dynamic')
            last = e[-1][1] if e else 1
            if last is None:
                c.undecided(RULET, 'the threading of the filter is not understood', c.where(f))
            elif last == 0:
                c.decide(thr, RULET, 'dynamic multithreading is off and the class %s the threaded phase' % ('overrides' if thr else 'does not override'), c.where(f))
            else:
                c.decide(bool(dyn), RULET, 'dynamic multithreading is on and the class %s the dynamic phase%s' % ('overrides' if dyn else 'does not override', '' if dyn or not thr else ': its threaded phase is never called'), c.where(f))
    for f in fs.values():
        for n in walk(f['body']):
            if n['k'] == 'call' and n.get('n', '').split('::')[-1] in ('DynamicMultiThreadingOn', 'SetDynamicMultiThreading', 'DynamicMultiThreadingOff') and f['kind'] != 'ctor':
                c.undecided(RULET, '%s changes the threading' % f['qual'], c.where(f))


# ------------------------------------------------------------------ vectors of counters

def vec_hooks(h, c):
    def begin(kind):
        def g(E, st, fr, cc):
            return im.put(st, cc, T(kind, cc.obj))
        return g
    h['std::vector::begin'] = h['std::vector::cbegin'] = begin('vbegin')
    h['std::vector::end'] = h['std::vector::cend'] = begin('vend')

    def resize(E, st, fr, cc):
        old = E.load(st, cc.obj)
        n = cc.args[0]
        v = im.content(E, st, cc.args[1]) if len(cc.args) > 1 else None
        emptied = old[:2] == ('t', 'vec') and old[2] == num(0)
        st.mem[cc.obj] = T('vec', n, v if v is not None else num(0)) if emptied else T('vec', n, T('kept', old))
        return [(st, ('void',))]

    def assign(E, st, fr, cc):
        if len(cc.args) != 2 or cc.args[0][0] not in ('n', 't'):
            return None
        st.mem[cc.obj] = T('vec', cc.args[0], im.content(E, st, cc.args[1]))
        return [(st, ('void',))]

    def ctor(E, st, fr, cc):
        o = cc.obj if cc.obj is not None else cc.dest
        a = [x for x in cc.args]
        if a and a[-1][0] in ('l', 'o') and 'allocator' in str((cc.e.get('a') or [{}])[-1].get('t')):
            a = a[:-1]
        if not a:
            st.mem[o] = T('vec', num(0), num(0))
        elif len(a) == 1 and a[0][0] in ('l', 'o'):
            st.mem[o] = E.load(st, a[0][1])
        elif a[0][0] in ('n', 't'):
            st.mem[o] = T('vec', a[0], im.content(E, st, a[1]) if len(a) > 1 else num(0))
        else:
            return None
        return [(st, ('void',))]

    def copy(E, st, fr, cc):
        st.mem[cc.obj] = im.content(E, st, cc.args[0])
        return [(st, ('l', cc.obj))]

    def clear(E, st, fr, cc):
        st.mem[cc.obj] = T('vec', num(0), num(0))
        return [(st, ('void',))]

    def size(E, st, fr, cc):
        v = E.load(st, cc.obj)
        if v[:2] == ('t', 'vec'):
            return [(st, v[2] if v[2][0] == 'n' else lin(v[2]))]
        t = T('vsize', v)
        st.iv.setdefault(t, (0, 2**32))
        return [(st, lin(t))]

    def fill(E, st, fr, cc):
        a, b, v = [im.content(E, st, x) for x in cc.args[:3]]
        if a[:2] == ('t', 'vbegin') and b == T('vend', a[2]):
            o = E.load(st, a[2])
            n = o[2] if o[:2] == ('t', 'vec') else lin(T('vsize', o))
            st.mem[a[2]] = T('vec', n, v)
        elif a[:2] in (('t', 'vbegin'), ('t', 'viter')):
            st.emit('partfill', a, b, v, cc.line)
        else:
            return None
        return [(st, ('void',))]

    def fill_n(E, st, fr, cc):
        a, n, v = [im.content(E, st, x) for x in cc.args[:3]]
        if a[:2] != ('t', 'vbegin'):
            return None
        o = E.load(st, a[2])
        sz = o[2] if o[:2] == ('t', 'vec') else lin(T('vsize', o))
        d = st.decide(mk_eq0(sub(n if n[0] == 'n' else lin(n), sz if sz[0] == 'n' else lin(sz))))
        if d != 1:
            return None
        st.mem[a[2]] = T('vec', sz, v)
        return im.put(st, cc, T('vend', a[2]))

    def accumulate(E, st, fr, cc):
        if len(cc.args) != 3:
            return None
        a, b, v = [im.content(E, st, x) for x in cc.args]
        t = cc.e.get('t') or cc.e.get('rt')
        x = T('sum', a, b, v, t)
        st.iv[x] = (0, 2**64 - 1)
        return [(st, x if t in ('double', 'float') else lin(x))]

    def shift(E, st, fr, cc):
        xs = ([E.load(st, cc.obj)] if cc.obj is not None else []) + [im.content(E, st, x) for x in cc.args]
        return im.put(st, cc, T('viter', *xs))
    h['std::vector::resize'] = resize
    h['std::vector::assign'] = assign
    h['std::vector::vector'] = ctor
    h['std::vector::operator='] = copy
    h['std::vector::clear'] = clear
    h['std::vector::size'] = size
    h['std::fill'] = fill
    h['std::fill_n'] = fill_n
    h['std::accumulate'] = accumulate
    h['__gnu_cxx::__normal_iterator::operator+'] = h['__gnu_cxx::__normal_iterator::operator-'] = h['__gnu_cxx::operator+'] = shift
    return h


def threads(E, st, fr, cc):
    t = T('threads')
    st.iv.setdefault(t, (1, 2**16))
    return [(st, lin(t))]


def vectors(c):
    """members that are vectors: {qual: element type}"""
    cls = filter_functions(c)[1][0]['class']
    out = {}
    for f in c.p.classes[cls]['fields']:
        t = f['t']
        if 'vector<' in t:
            out['%s::%s' % (cls, f['n'])] = t
    return out


def counters(c):
    """vector members whose elements the threaded phase changes"""
    f = get(c, 'ThreadedGenerateData')
    if f is None:
        return {}
    vs = vectors(c)
    out = set()
    for g in [f] + [c.p.functions[k] for k in reach_keys(c, f)]:
        for q in vs:
            if any(is_field(n, q) for n in walk(g.get('body', {}))):
                out.add(q)
    return {q: vs[q] for q in out}


def reach_keys(c, f):
    try:
        return [k for k in reach(c, [f['key']] if 'key' in f else []) if k in c.p.functions]
    except Exception:
        return []


def before(c):
    f = get(c, 'BeforeThreadedGenerateData')
    if f is None:
        c.undecided(RULEZ, 'no BeforeThreadedGenerateData')
        return
    cs = counters(c)
    if not cs:
        raise BrokenAnalysis('the threaded phase uses no counters')
    h = vec_hooks(im.pixel_hooks(c), c)
    for n in ('GetNumberOfThreads', 'GetNumberOfWorkUnits'):
        h['itk::ProcessObject::' + n] = threads
    r = c.analyse(f, hooks=h, merge=False)
    w = c.where(f)
    if not r.rets:
        c.undecided(RULEZ, '%s never returns' % f['qual'], w)
    for st, v in r.rets:
        for q in sorted(cs):
            name = q.split('::')[-1]
            x = r.E.load(st, field(r.this, q))
            by_loop = zero_loop(st, r, q)
            if x[:2] != ('t', 'vec'):
                # untouched: neither sized nor reset
                raw = q not in [l[2] for l in st.mem if l[0] == 'f' and l[1] == r.this]
                c.decide(False if raw and not st.unk else None, RULEZ, '%s is neither sized nor reset' % name if raw else '%s is not understood: %s' % (name, show(x)[:80]), w)
                continue
            n, val = x[2], x[3]
            d = st.decide(mk_le(sub(lin(T('threads')), n if n[0] == 'n' else lin(n))))
            c.decide(True if d == 1 else False if d == 0 and not st.unk else verdict(st, 0, n), RULEZ, '%s has %s elements for all threads' % (name, show(n)), w, facts(st))
            if by_loop:
                val = by_loop
            z = 1 if numeric_zero(val) else 1 if val[0] == 'fl' and float(val[1]) == 0 else 0 if val[0] == 'fl' else 0 if val[:2] == ('t', 'kept') else zero(st, val)
            part = [e for e in evs(st, 'partfill') if contains((e[1], e[2]), lambda t: t == field(r.this, q))]
            first = len(part) == 1 and part[0][1][:2] == ('t', 'viter') and part[0][1][2] == T('vbegin', field(r.this, q)) and len(part[0][1]) == 4 and part[0][1][3][0] == 'n' and part[0][1][3][2] == () and part[0][1][3][1] > 0
            part = (part and not first) or evs(st, 'loop')
            c.decide(True if z == 1 else None if part or z is None else verdict(st, 0, val if val[:2] != ('t', 'kept') else num(0)), RULEZ, '%s starts with %s' % (name, 'what the last execution left' if val[:2] == ('t', 'kept') else show(val)), w, facts(st))


def numeric_zero(v):
    """the toolkit's zero of a type"""
    return contains(v, lambda t: t[:1] == ('g',) and isinstance(t[1], str) and t[1].startswith('itk::NumericTraits<') and t[1].endswith('::Zero')) and not contains(v, lambda t: t[:2] == ('t', 'phi') or str(t[:2]).find('f+') > 0)


def zero_loop(st, r, q):
    """a loop over all elements that stores zero in each"""
    for e in evs(st, 'loop'):
        L = e[1]
        for l, ph in L.phi.items():
            if l[0] != 'v':
                continue
            cell = ('e', ('vec', field(r.this, q)), lin(ph))
            if r.E.load(L.entry, l) != num(0) or not L.iters:
                continue
            good = True
            for it in L.iters:
                b = it[2]
                s = [x for x in L.iter_events(it) if x[0] == 'store' and x[1] == cell]
                if len(s) != 1 or b.mem.get(l) != add(lin(ph), num(1)):
                    good = False
                    break
                v = s[0][2]
                if not (v[0] == 'fl' and float(v[1]) == 0 or v == num(0)):
                    good = False
            for x in L.exits:
                vec = r.E.load(x[2] or x[1], field(r.this, q))
                n = vec[2] if vec[:2] == ('t', 'vec') else None
                if n is None or not (x[2] or x[1]).prove_le(sub(n if n[0] == 'n' else lin(n), lin(ph))):
                    good = False
            if good:
                return num(0)
    return None


def after(c):
    f = get(c, 'AfterThreadedGenerateData')
    if f is None:
        c.undecided(RULES, 'no AfterThreadedGenerateData')
        return
    cs = counters(c)
    h = vec_hooks(im.pixel_hooks(c), c)
    roles = {}
    for n in ('GetNumberOfPixelsWithDifferences', 'GetTotalMagnitude'):
        g = get(c, n)
        if g is None:
            raise BrokenAnalysis('no ' + n)
        rr = c.analyse(g, hooks=im.hooks(c))
        qs = set()
        one = [(st, v) for st, v in rr.rets if contains(v, lambda t: t[:1] == ('e',) and t[1][0] == 'vec' and t[1][1][0] == 'f' and t[1][1][2] in cs) and not contains(v, lambda t: t[:2] in (('t', 'sum'), ('t', 'phi'), ('t', 'ret')))]
        if one:
            c.decide(verdict(one[0][0], 0), RULES, '%s returns the counter of a single thread: %s' % (n, show(one[0][1])), c.where(g), facts(one[0][0]))
            continue
        for st, v in rr.rets:
            qs |= {l[2] for l in walkterm_init(v) if l[0] == 'f' and l[1] == rr.this}
        if len(qs) != 1:
            c.undecided(RULES, '%s returns no member' % n, c.where(g))
            continue
        roles[n] = qs.pop()
    own = kinds(c)
    for q, t in sorted(cs.items()):
        e = t.split('vector<', 1)[1].split(',')[0].split('>')[0].strip()
        if kind_of(t) == 'count':
            c.decide(False if e in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'bool') else True if e in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long') else None, RULES, 'the counts of a thread are of type %s' % e, c.where(f))
    r = c.analyse(f, hooks=h, merge=False)
    w = c.where(f)
    if not r.rets:
        c.undecided(RULES, '%s never returns' % f['qual'], w)
    for st, v in r.rets:
        for n, q in sorted(roles.items()):
            vec = own.get('count' if n == 'GetNumberOfPixelsWithDifferences' else 'sum')
            if vec is None:
                c.undecided(RULES, 'the counters behind %s are not known' % n, w)
                continue
            x = r.E.load(st, field(r.this, q))
            t = x
            if x[0] == 'n' and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1:
                t = x[2][0][0]
            loc = field(r.this, vec)
            if t[:2] in (('t', 'byte'), ('t', 'trunc'), ('t', 'f2i')) and contains(t, lambda u: u[:2] == ('t', 'sum')):
                c.decide(verdict(st, 0, num(0)), RULES, '%s is a part of the sum that is cut off: %s' % (q.split('::')[-1], show(t)[:60]), w, facts(st))
                continue
            if t[:2] == ('t', 'i2f') and len(t) >= 3:
                u = t[2]
                t = u[2][0][0] if u[0] == 'n' and u[1] == 0 and len(u[2]) == 1 and u[2][0][1] == 1 else u
            if t == T('init', field(r.this, q)):
                c.decide(verdict(st, 0), RULES, '%s keeps its former value' % q.split('::')[-1], w, facts(st))
                continue
            if t[:2] == ('t', 'sum'):
                whole = t[2] == T('vbegin', loc) and t[3] == T('vend', loc)
                z = 1 if t[4][0] == 'fl' and float(t[4][1]) == 0 or t[4] == num(0) else None if t[4][0] != 'fl' and zero(st, t[4]) is None else 0
                elem = 'double' if n == 'GetTotalMagnitude' else None
                typ = t[5]
                okt = typ in ('double', 'long double') if elem else typ in ('unsigned long', 'unsigned long long', 'long', 'unsigned __int128')
                if contains(t[4], lambda u: u == field(r.this, q)) and {c.p.functions[k]['name'] for k in writers(c, q) if c.p.functions[k]['kind'] != 'ctor'} <= {'AfterThreadedGenerateData'}:
                    z = 0
                known = t[2][:2] in (('t', 'vbegin'), ('t', 'viter'), ('t', 'vend')) and t[3][:2] in (('t', 'vbegin'), ('t', 'viter'), ('t', 'vend'))
                ok = whole and z == 1 and okt
                c.decide(True if ok else (verdict(st, 0, num(0)) if known and z is not None else None), RULES, '%s is the sum from %s to %s, starting with %s, in %s' % (q.split('::')[-1], show(t[2])[-40:], show(t[3])[-40:], show(t[4]), typ), w, facts(st))
                continue
            s = sum_loop(st, r, vec, t)
            few = {u for u in subterms(t) if u[:1] == ('e',) and u[1] == ('vec', loc)}
            if few and not evs(st, 'loop') and not contains(t, lambda u: u[:2] in (('t', 'sum'), ('t', 'ret'), ('t', 'call'))):
                c.decide(verdict(st, 0), RULES, '%s is made of %d element%s only: %s' % (q.split('::')[-1], len(few), 's' * (len(few) > 1), show(x)[:60]), w, facts(st))
                continue
            c.decide(True if s else None, RULES, '%s is %s' % (q.split('::')[-1], 'the sum over all elements (loop)' if s else show(x)[:80]), w, facts(st))
    ok = {'BeforeThreadedGenerateData', 'ThreadedGenerateData', 'AfterThreadedGenerateData'}
    for q in list(roles.values()) + list(cs):
        for g in [c.p.functions[k] for k in writers(c, q)]:
            good = g['name'] in ok or g['kind'] == 'ctor' or (callers(c, g['key'] if 'key' in g else None) or {''}) <= ok
            c.decide(True if good else None, RULES, '%s is written by %s' % (q.split('::')[-1], g['name']), c.where(g))


def callers(c, key):
    """names of the phases and other functions from which the function is reached directly or through helpers"""
    up, todo = set(), [key]
    seen = {key}
    while todo:
        k = todo.pop()
        for k2, f in c.p.functions.items():
            if k2 in seen or not any(n['k'] == 'call' and n.get('f') == k for n in walk(f.get('body') or {})):
                continue
            seen.add(k2)
            if f['name'] in PHASES:
                up.add(f['name'])
            else:
                up |= {f['name']} if not helper(c, k2) else set()
                todo.append(k2)
    return up


PHASES = {'BeforeThreadedGenerateData', 'ThreadedGenerateData', 'AfterThreadedGenerateData'}


def helper(c, k):
    return any(n['k'] == 'call' and n.get('f') == k for f in c.p.functions.values() for n in walk(f.get('body') or {}))


def subterms(v):
    out = set()
    contains(v, lambda t: (isinstance(t, tuple) and t and out.add(t)) and False)
    return out


def sum_loop(st, r, vec, t):
    """t is what a loop over all elements adds up"""
    for e in evs(st, 'loop'):
        L = e[1]
        for l, ph in L.phi.items():
            if ph != t or not L.iters:
                continue
            e0 = r.E.load(L.entry, l)
            if not (e0 == num(0) or e0[0] == 'fl' and float(e0[1]) == 0):
                continue
            for li, pi in L.phi.items():
                if li == l or r.E.load(L.entry, li) != num(0):
                    continue
                cell = T('init', ('e', ('vec', field(r.this, vec)), lin(pi)))
                vals = {add(lin(ph), lin(cell))} | {T('f+', *x, y) for x in ((ph, cell), (cell, ph)) for y in ('double', 'long double')}
                if not all(it[2].mem.get(li) == add(lin(pi), num(1)) and it[2].mem.get(l) in vals for it in L.iters):
                    continue
                n = lin(T('vsize', r.E.load(L.entry, field(r.this, vec))))
                if all((x[2] or x[1]).prove_le(sub(n, lin(pi))) for x in L.exits):
                    return True
    return False


# ------------------------------------------------------------------ the threaded phase

def sq(E, st, fr, cc):
    return [(st, T('sqrt', cc.args[0]))]


def threaded(c):
    f = get(c, 'ThreadedGenerateData')
    if f is None:
        raise BrokenAnalysis('no ThreadedGenerateData')
    h = im.pixel_hooks(c)
    for n in ('sqrt', 'std::sqrt', 'vcl_sqrt', 'sqrtf'):
        h[n] = sq
    r = c.analyse(f, hooks=h, merge=False, maxsteps=2000000)
    return f, r


def elem_store(e, this):
    """(member, index) of a store to an element of a vector member"""
    l = e[1]
    if e[0] == 'store' and l[0] == 'e' and l[1][0] == 'vec' and l[1][1][0] == 'f' and l[1][1][1] == this:
        return l[1][1][2], l[2]
    return None


def kinds(c):
    """which vector counts and which sums up"""
    out = {}
    for q, t in counters(c).items():
        k = kind_of(t)
        out[k] = q if k not in out else None
    return out


def kind_of(t):
    return 'sum' if any(x in t.split('vector<', 1)[1].split(',')[0] for x in ('double', 'float', 'RealType')) else 'count'


def thread_index(f):
    return [i for i, q in enumerate(f['params']) if 'ImageRegion' not in q['t'] and 'RegionType' not in q['t']]


def own(c):
    f, r = threaded(c)
    w = c.where(f)
    ti = thread_index(f)
    if len(ti) != 1:
        raise BrokenAnalysis('the threaded phase has %d thread numbers' % len(ti))
    tid = lin(T('par', ti[0]))
    n = 0
    seen = set()
    states = []
    for L in r.loops:
        for it in L.iters:
            states.append((it[2], L.iter_events(it)))
    for st, v in r.rets:
        states.append((st, st.events()))
    for st, es in states:
        for e in es:
            if e[0] != 'store':
                continue
            m = elem_store(e, r.this)
            if m is not None:
                n += 1
                idx = m[1] if m[1][0] == 'n' else lin(m[1])
                d = 1 if idx == tid else st.decide(mk_eq0(sub(idx, tid)))
                k = (m, e[3], d)
                if k in seen:
                    continue
                seen.add(k)
                # an index that can be something else than the own number on this path
                c.decide(True if d == 1 else False if not st.unk and not imprecise(idx) else None, RULEO, 'element %s of %s is written' % (show(m[1]), m[0].split('::')[-1]), '%s:%s' % (w.rsplit(':', 1)[0], e[3]), facts(st, 8))
            elif e[1][0] == 'f' and e[1][1] == r.this and not e[1][2].startswith('itk::in'):
                k = (e[1][2], e[3])
                if k in seen:
                    continue
                seen.add(k)
                c.decide(False if not st.unk else None, RULEO, 'the member %s, shared by all threads, is written' % e[1][2].split('::')[-1], '%s:%s' % (w.rsplit(':', 1)[0], e[3]), facts(st, 8))
            elif e[1][0] == 'g':
                k = (e[1], e[3])
                if k in seen:
                    continue
                seen.add(k)
                c.decide(False if not st.unk else None, RULEO, 'the global %s is written' % e[1][1], '%s:%s' % (w.rsplit(':', 1)[0], e[3]), facts(st, 8))
        for q in vectors(c):
            x = st.mem.get(field(r.this, q))
            if x is not None and x != T('init', field(r.this, q)) and x != ('L', (), T('init', field(r.this, q)), ()) and (q, 'shape') not in seen and not (x[0] == 'L' and x[1] == () and x[3] == ()):
                seen.add((q, 'shape'))
                c.decide(verdict(st, 0), RULEO, 'the vector %s, shared by all threads, changes its shape' % q.split('::')[-1], w, facts(st, 8))
    if not n:
        c.undecided(RULEO, 'no counters are written', w)
    c.count('counter updates', n)


class Shape:
    """loops of the threaded phase by what they do"""

    def __init__(self, c, ro):
        self.c, self.ro = c, ro
        self.f, self.r = threaded(c)
        self.pix, self.near, self.face = [], [], []
        self.valid, self.test = T('input', ro['SetValidInput']), T('input', ro['SetTestInput'])
        thr = T('init', field(self.r.this, ro['SetMagnitudeThreshold']))
        self.thr2 = T('f*', thr, thr, 'double')
        self.thr = thr
        self.radius = lin(T('init', field(self.r.this, ro['SetToleranceRadius'])))
        for L in self.r.loops:
            steps = [e for it in L.iters for e in own_events(L, it) if e[0] == 'step']
            sets = any(e[0] in ('faces',) for e in ())
            if any(self.iter_of(it, e) and self.iter_of(it, e)[2] in (self.valid, self.test) for it in L.iters for e in own_events(L, it) if e[0] == 'step'):
                self.pix.append(L)
            elif any(e[0] == 'loop' or e[0] == 'iterating' for it in L.iters for e in L.iter_events(it)):
                self.face.append(L)

        self.cells = {}
        self.mincell, self.same = {}, {}
        self.local = {}
        self.kind = {}
        for q, t in counters(c).items():
            self.kind[q] = kind_of(t)
        for k in ('count', 'sum'):
            self.cells[k] = any(self.elems(L, it, k) for L in self.pix for it in L.iters)
            if not self.cells[k]:
                self.local[k] = self.accumulator(k)

    def elems(self, L, it, k):
        out = []
        for e in L.iter_events(it):
            m = elem_store(e, self.r.this)
            if m and self.kind.get(m[0]) == k:
                out.append(e)
        return out

    def accumulator(self, k):
        """the local that is stored into the thread's counter in the end: its cell, None if there is no store at all, False if it is not understood"""
        r = self.r
        cells = set()
        for st, v in r.rets:
            es = [e for e in st.events() if elem_store(e, r.this) and self.kind.get(elem_store(e, r.this)[0]) == k]
            if not es:
                cells.add(None)
                continue
            if len(es) > 1:
                return False
            v, loc = es[0][2], es[0][1]
            i = T('init', loc)
            hit = False
            for F in self.face or self.pix:
                for l, ph in F.phi.items():
                    if v in (ph, lin(ph), add(lin(i), lin(ph))) or v in [T('f+', p, q, 'double') for p, q in ((i, ph), (ph, i))]:
                        cells.add(l)
                        hit = True
            if not hit:
                return False
        if cells == {None}:
            return None
        if len(cells) != 1 or None in cells:
            return False
        l = cells.pop()
        zero_ = lambda x: x == num(0) or x[0] == 'fl' and float(x[1]) == 0 or numeric_zero(x)
        for F in self.face:
            if not zero_(r.E.load(F.entry, l)):
                return False
            for it in F.iters:
                n = [x[1] for x in F.iter_events(it) if x[0] == 'loop' and x[1] in self.pix]
                v = it[2].mem.get(l)
                ok = {F.phi.get(l), lin(F.phi[l])} if not n else {n[-1].phi.get(l), lin(n[-1].phi[l])} if l in n[-1].phi else set()
                if v not in ok or any(r.E.load(L.entry, l) not in (F.phi[l], lin(F.phi[l])) for L in n):
                    return False
        if not self.face and not all(zero_(r.E.load(L.entry, l)) for L in self.pix):
            return False
        return l

    def updates(self, L, it, k):
        """changes of the counter in an iteration; None if unknown"""
        if self.cells[k]:
            return self.elems(L, it, k)
        l = self.local[k]
        if l is None:
            return []
        if l is False:
            return None
        o, n = self.r.E.load(it[1], l), it[2].mem.get(l)
        return [] if n in (o, lin(o) if o[0] == 't' else o) else [('store', l, n, L.line)]

    def iter_of(self, it, e):
        x = it[2].mem.get(e[1])
        return x if x is not None and x[:2] == ('t', 'iter') else None


def own_events(L, it):
    """events of an iteration without those of the loops inside (which are events of their own)"""
    return L.iter_events(it)


def centre(S, L):
    """(difference terms, their squares) of the centre pixel at the current position of pixel loop L, from the iterators' contents"""
    out = set()
    for it in L.iters:
        b = it[1]
        its = [(o, x) for o, x in b.mem.items() if isinstance(x, tuple) and x[:2] == ('t', 'iter')]
        for o, x in its:
            for o2, y in its:
                if x[2] == S.valid and y[2] == S.test:
                    out.add((x, S.r.E.load(b, im.pos(o)), y, S.r.E.load(b, im.pos(o2))))
    return out


def diffs(a, b):
    if PIXEL[0] == 'double':
        return [T('f-', a, b, 'double'), T('f-', b, a, 'double')]
    real = lambda x: [T('i2f', x, 'double'), T('i2f', lin(x), 'double')]
    return [T('f-', *o, 'double') for x in real(a) for y in real(b) for o in ((x, y), (y, x))]


def wrapped(v):
    """a number made of the difference of two integer pixels"""
    px = lambda t: t[:2] in (('t', 'pix'), ('t', 'near'))
    return contains(v, lambda t: t[:2] == ('t', 'i2f') and (t[2][0] == 'n' and sum(px(x[0]) for x in t[2][2]) > 1 or t[2][0] != 'n' and t[2][:2] not in (('t', 'pix'), ('t', 'near')) and len({u for u in subterms(t[2]) if px(u)}) > 1))


def squares(a, b):
    return {T('f*', d, d, 'double') for d in diffs(a, b)}


def pixels(c):
    ro = filter_roles(c)
    S = Shape(c, ro)
    f, r = S.f, S.r
    w = c.where(f)
    par = T('init', ('d', T('par', [i for i in range(len(f['params'])) if i not in thread_index(f)][0])))
    if not S.pix:
        c.undecided(RULEP, 'no loop over pixels', w)
        return
    # the faces of this thread's region
    region_ok = {}
    for L in S.pix:
        for (x, px, y, py) in centre(S, L):
            reg = x[3]
            pw = '%s:%s' % (w.rsplit(':', 1)[0], L.line)
            c.decide(True if y[3] == reg else verdict(L.entry, 0, x, y) if not phis(x, y) else False, RULEP, 'both inputs are walked over the same region', pw)
            if len(y) == 5:
                rad = y[4]
                ok = rad == T('filled', S.radius)
                c.decide(True if ok else verdict(L.entry, 0, rad), RULEM, 'the neighbourhood has the configured radius in every direction: %s' % show(rad)[-60:], pw)
            else:
                c.undecided(RULEM, 'the test image is not walked with a neighbourhood', pw)
            if len(x) == 5:
                c.undecided(RULEM, 'the valid image is walked with a neighbourhood', pw)
            region_ok[id(L)] = reg
        # from the first ...
        es = [e for e in ()]
        for it in L.iters[:1]:
            b = it[1]
            for o, x in b.mem.items():
                if isinstance(x, tuple) and x[:2] == ('t', 'iter') and x[2] in (S.valid, S.test):
                    p = r.E.load(L.entry, im.pos(o))
                    d = st0(L.entry, p)
                    c.decide(True if d == 1 else False if d == 0 and not L.entry.unk else False if not L.entry.unk and p == lin(T('npix', x[3])) else verdict(L.entry, 0, p), RULEP, 'the walk over the %s image starts at position %s' % ('valid' if x[2] == S.valid else 'test', show(p)), pw_(w, L))
        # ... one by one ...
        for it in L.iters:
            if not float_feasible(it[2]) or not feasible(it[2]):
                continue
            b = it[2]
            for o, x in it[1].mem.items():
                if isinstance(x, tuple) and x[:2] == ('t', 'iter') and x[2] in (S.valid, S.test):
                    p0, p1 = r.E.load(it[1], im.pos(o)), r.E.load(b, im.pos(o))
                    d = b.decide(mk_eq0(sub(sub(p1, p0), num(1))))
                    c.decide(True if d == 1 else False if d == 0 and not b.unk else None, RULEP, 'each turn steps the %s image by one' % ('valid' if x[2] == S.valid else 'test'), pw_(w, L), None if d == 1 else facts(b, 8))
            # the two stay together
            for (x, px, y, py) in centre(S, L):
                if it[1].decide(mk_eq0(sub(px, py))) != 1:
                    c.decide(None, RULEP, 'both inputs are at the same position', pw_(w, L))
                else:
                    c.held(RULEP, 'both inputs are at the same position', pw_(w, L))
        # ... to behind the last
        for x in L.exits:
            st = x[2] or x[1]
            if not float_feasible(st) or not feasible(st):
                continue
            reg = region_ok.get(id(L))
            if reg is None:
                continue
            ok = False
            for o, y in st.mem.items():
                if isinstance(y, tuple) and y[:2] == ('t', 'iter') and y[2] in (S.valid, S.test):
                    p = r.E.load(st, im.pos(o))
                    ok = ok or st.prove_le(sub(lin(T('npix', reg)), p))
            c.decide(True if ok else False if not st.unk and x[3] == 'n' else None, RULEP, 'the walk ends behind the last pixel', pw_(w, L), None if ok else facts(st, 12))
    covering(c, S, region_ok, par, w)
    for L in S.pix:
        counting(c, S, L, w)


def pw_(w, L):
    return '%s:%s' % (w.rsplit(':', 1)[0], L.line)


def st0(st, p):
    return 1 if p == num(0) else st.decide(mk_eq0(p if p[0] == 'n' else lin(p)))


def phis(*vs):
    return any(contains(v, lambda t: t[:2] == ('t', 'phi')) for v in vs)


def covering(c, S, region_ok, par, w):
    """each face of the thread's region has one pixel loop"""
    r = S.r
    pixids = {id(L) for L in S.pix}
    ign = [q for q in class_fields_bool(c)]
    if not S.face:
        # the region is walked as a whole
        for st, v in r.rets:
            n = [e for e in evs(st, 'loop') if id(e[1]) in pixids]
            ok = len(n) == 1 and region_ok.get(id(n[0][1])) == par
            c.decide(True if ok else None, RULEP, 'the region of the thread is walked over once', w)
        return
    for F in S.face:
        e = F.entry
        # the list that is walked
        for l, ph in F.phi.items():
            x = r.E.load(e, l)
            if not (isinstance(x, tuple) and x[:2] in (('t', 'it'), ('t', 'lend'))):
                continue
            lst = E_list(r, e, x)
            if lst is None or not (lst[0] == 'L' and lst[2] is not None and lst[2][:2] == ('t', 'faces')):
                c.undecided(RULEP, 'a loop over something else than the faces', pw_(w, F))
                continue
            fst = x[:2] == ('t', 'it') and x[3] == num(0) and lst[1] == () and lst[3] == ()
            c.decide(True if fst else verdict(e, 0, x) if lst[1] == () and lst[3] == () else None, RULEP, 'the walk over the faces starts with the first', pw_(w, F))
            a = lst[2][2:]
            ok = len(a) == 3 and a[1] == par and a[0] in (S.test, S.valid)
            c.decide(True if ok else verdict(e, 0, *a), RULEP, 'the faces are those of the region of the thread: %s' % ', '.join(show(y)[-50:] for y in a[:2]), pw_(w, F))
            ok = len(a) == 3 and a[2] == T('filled', S.radius) and a[0] == S.test
            c.decide(True if ok else verdict(e, 0, *a), RULEM, 'the faces are split for the test image and the configured radius', pw_(w, F))
            for it in F.iters:
                b = it[2]
                c.decide(True if b.mem.get(l) == T('itn', ph, 1) else None, RULEP, 'each turn goes to the next face', pw_(w, F))
            for x in F.exits:
                st = x[2] or x[1]
                obj = r.E.load(e, l)[2]
                d = st.decide(mk_eq(T('lend', obj), ph))
                c.decide(True if d == 1 else False if not st.unk and d == 0 else None, RULEP, 'the walk over the faces ends behind the last', pw_(w, F), None if d == 1 else facts(st, 8))
        for it in F.iters:
            b = it[2]
            if not feasible(b):
                continue
            n = [x[1] for x in F.iter_events(it) if x[0] == 'loop' and id(x[1]) in pixids]
            ig = [q for q in ign if b.decide(mk_true(T('init', field(r.this, q)))) == 1]
            bd = any(a[0] == 'true' and b.facts[a] and a[1][:2] == ('t', 'boundary') for a in b.facts)
            if not n and ig and bd:
                c.held(RULEP, 'a boundary face is left out because boundary pixels are ignored', pw_(w, F))
                continue
            ok = len(n) == 1
            c.decide(True if ok else False if not b.unk else None, RULEP, 'a face is walked over %d times' % len(n), pw_(w, F), None if ok else facts(b, 8))
            for L in n:
                reg = region_ok.get(id(L))
                good = reg is not None and any(contains(reg, lambda t, ph=ph: t == ph) for ph in F.phi.values())
                c.decide(True if good else None, RULEP, 'the walk is over the current face', pw_(w, L))


def class_fields_bool(c):
    cls = filter_functions(c)[1][0]['class']
    return ['%s::%s' % (cls, f['n']) for f in c.p.classes[cls]['fields'] if f['t'] == 'bool']


def E_list(r, st, x):
    o = x[2]
    return st.mem.get(o) if isinstance(o, tuple) else None


def counting(c, S, L, w):
    r = S.r
    inner = [N for N in S.r.loops if N is not L and N not in S.face and N not in S.pix]
    for it in L.iters:
        b = it[2]
        if not float_feasible(b) or not feasible(b):
            continue
        es = L.iter_events(it)
        inc, sums = S.updates(L, it, 'count'), S.updates(L, it, 'sum')
        if inc is None or sums is None:
            c.undecided(RULEC, 'the counters are not updated pixel by pixel', pw_(w, L))
            continue
        cnt = inc + sums
        ns = [e[1] for e in es if e[0] == 'loop']
        cs = centre(S, L)
        if len(cs) != 1:
            c.undecided(RULEC, '%d pairs of iterators' % len(cs), pw_(w, L))
            continue
        (x, px, y, py), = cs
        a = T('pix', x[2], x[3], px)
        ctr = {m for p in {px, py} for q in {px, py} for m in squares(T('pix', x[2], x[3], p), T('pix', y[2], y[3], q))}
        if len(ns) > 1:
            c.undecided(RULEC, 'more than one search', pw_(w, L))
            continue
        d = facts(b, 12)
        if not ns:
            gs = {greater(b, m, S.thr2) for m in ctr} - {None}
            g = gs.pop() if len(gs) == 1 else None
            if cnt:
                c.decide(False if g is not None and not b.unk else None, RULEM, 'a pixel is counted without looking at its neighbourhood', pw_(w, L), d)
            else:
                c.decide(True if g == 0 else False if g == 1 and not b.unk else None, RULEC, 'a pixel is not counted, its centre %s the threshold' % {0: 'does not exceed', 1: 'exceeds', None: 'may exceed'}[g], pw_(w, L), d)
            continue
        N = ns[0]
        ms = search(c, S, N, a, y, ctr, {px, py}, w, L, it, sums, b)
        if ms is None:
            continue
        ph, mags = ms
        # the minimum with which the search was left on this path
        ks = [(e[2], e[3]) for e in es if e[0] == 'loopexit' and e[1] is N]
        left = {x[2].mem.get(S.mincell[id(N)]) for x in N.exits if x[2] is not None and (x[0], x[3]) in ks and all(b.facts.get(at) == v for at, v in x[2].facts.items()) and float_feasible(x[2])}
        if len(left) > 1:
            # an exit with more facts says more
            best = max(len(x[2].facts) for x in N.exits if x[2] is not None and (x[0], x[3]) in ks and all(b.facts.get(at) == v for at, v in x[2].facts.items()))
            left = {x[2].mem.get(S.mincell[id(N)]) for x in N.exits if x[2] is not None and (x[0], x[3]) in ks and len(x[2].facts) == best and all(b.facts.get(at) == v for at, v in x[2].facts.items())}
        M = left.pop() if len(left) == 1 else None
        if M is None or M != ph and M not in mags:
            c.undecided(RULEC, 'the minimum is not known', pw_(w, L))
            continue
        Ms = {M} | ({T('f*', q, q, 'double') for q in S.same.get(id(N), ())} if M == ph else set())
        gs = {greater(b, m, S.thr2) for m in Ms} - {None}
        g = gs.pop() if len(gs) == 1 else None
        if g is None:
            terms = set(N.phi.values()) - {M}
            other = [at for at in b.facts if at[0] in ('flt', 'fle', 'feq') and contains(at, lambda t: t == M or t in terms)]
            c.decide(verdict(b, 0, num(0)) if cnt and not other else None, RULEC, 'whether the minimum exceeds the squared threshold is not asked', pw_(w, L), d)
            continue
        if g == 0:
            c.decide(True if not cnt else False if not b.unk else None, RULEC, 'the minimum does not exceed the threshold: %d counter updates' % len(cnt), pw_(w, L), d)
            continue
        o = old(L, it, r, inc[0][1]) if inc else None
        ok1 = len(inc) == 1 and inc[0][2] == add(o if o[0] == 'n' else lin(o), num(1))
        c.decide(True if ok1 else False if not b.unk and all(exact(e, old(L, it, r, e[1])) for e in inc) else None, RULEC, 'the minimum exceeds the threshold: %s' % (', '.join('%s becomes %s' % (show(e[1])[-40:], show(e[2])) for e in inc) or 'the count is not raised'), pw_(w, L), d)
        o = old(L, it, r, sums[0][1]) if len(sums) == 1 else None
        sv = {T('f+', p, q, 'double') for m in Ms for p, q in ((o, T('sqrt', m)), (T('sqrt', m), o))} if o is not None else set()
        ok2 = len(sums) == 1 and sums[0][2] in sv
        defin = not b.unk and (not sums or len(sums) > 1 or contains(sums[0][2], lambda t: t in Ms or t == o))
        c.decide(True if ok2 else False if defin else None, RULEC, 'the minimum exceeds the threshold: %s' % (', '.join('%s becomes %s' % (show(e[1])[-40:], show(e[2])[:120]) for e in sums) or 'its magnitude is not added'), pw_(w, L), d)


def exact(e, o):
    v = e[2]
    return v[0] == 'n' and (v == num(v[1]) or sub(v, o if o[0] == 'n' else lin(o))[2] == ())


def old(L, it, r, loc):
    v = r.E.load(it[1], loc)
    return v if v[0] in ('n', 'fl') else lin(v) if loc[0] == 'e' and loc in getattr(L, 'counts', ()) else v


def search(c, S, N, a, y, ctr, poss, w, L=None, it=None, sums=(), b=None):
    """the loop over the neighbourhood: (minimum at its head, candidate magnitudes) or None"""
    r = S.r
    cand = []
    for l, ph in N.phi.items():
        e = r.E.load(N.entry, l)
        if e in ctr:
            cand.append((l, ph))
    if not cand and b is not None:
        # the path after the search: does anything depend on it?
        idxs = {pi for li, pi in N.phi.items() if r.E.load(N.entry, li)[0] == 'n'}
        uses = lambda v: contains(v, lambda t: t[:2] == ('t', 'phi') and t in N.phi.values() and t not in idxs)
        new = [e for e in sums if any(e[2] in {T('f+', p, q, 'double') for p, q in ((o, T('sqrt', m)), (T('sqrt', m), o))} for m in ctr for o in (old(L, it, r, e[1]),))]
        if new and not b.unk and not any(uses(at) for at in b.facts):
            c.violated(RULEM, 'the magnitude of the centre pixel is added, whatever the search found', pw_(w, L), facts(b, 8))
            return None
    if not cand:
        px = lambda t: t[:2] in (('t', 'pix'), ('t', 'near'))
        for l in N.phi:
            v = r.E.load(N.entry, l)
            if not contains(v, px) or N.entry.unk or contains(v, lambda t: t[:2] in (('t', 'ret'), ('t', 'call'))):
                continue
            asked = [at for at in N.entry.facts if at[0] in ('flt', 'fle') and v in at[1:] and S.thr2 in at[1:]]
            if not asked:
                continue
            if contains(v, lambda t: t[:2] == ('t', 'f2i') and contains(t, px)):
                c.violated(RULEM, 'the difference is cut to an integer: %s' % show(v)[:120], pw_(w, N))
                return None
            if v[:2] in (('t', 'f-'), ('t', 'fneg'), ('t', 'f+')) and not contains(v, lambda t: t[:2] == ('t', 'f*')):
                c.violated(RULEM, 'a difference that is not squared is compared with the squared threshold: %s' % show(v)[:120], pw_(w, N))
                return None
        w_ = [r.E.load(N.entry, l) for l in N.phi if wrapped(r.E.load(N.entry, l))]
        if w_ and not N.entry.unk:
            c.violated(RULEM, 'the difference of two unsigned pixels is computed before it becomes a real number: %s' % show(w_[0])[:120], pw_(w, N))
            return None
    if len(cand) != 1:
        c.undecided(RULEM, 'the search starts with %d minima that are the centre' % len(cand), pw_(w, N))
        return None
    l, ph = cand[0]
    size = lin(T('nsize', y[4])) if len(y) == 5 else None
    # the index
    idx = []
    for li, pi in N.phi.items():
        e = r.E.load(N.entry, li)
        ds = {sub(it[2].mem.get(li), lin(pi)) if it[2].mem.get(li, ('?',))[0] == 'n' else None for it in N.iters}
        if e[0] == 'n' and len(ds) == 1 and ds != {None} and num(0) not in ds:
            idx.append((li, pi, e, ds.pop()))
    if len(idx) != 1 or size is None:
        c.undecided(RULEM, 'the search has %d indices' % len(idx), pw_(w, N))
        return None
    li, pi, e0, d0 = idx[0]
    if d0 != num(1):
        at = {t for it in N.iters for t in nears(it[2]) if contains(t, lambda u: u == pi)}
        only = all(t[-1] in (pi, lin(pi)) for t in at) and at and d0[2] == () and d0[1] > 1
        c.decide(False if only and not any(it[2].unk for it in N.iters) else None, RULEM, 'the search steps by %s' % show(d0), pw_(w, N))
        return None
    c.decide(True if e0 == num(0) else False if e0[2] == () else None, RULEM, 'the search starts with neighbour %s' % show(e0), pw_(w, N))
    mags = set()
    for p in poss:
        for q in poss:
            near = T('near', y[2], y[3], p, y[4], lin(pi))
            mags |= squares(T('pix', a[2], a[3], q), near)
            near = T('near', y[2], y[3], p, y[4], pi)
            mags |= squares(T('pix', a[2], a[3], q), near)
    outs = [(it[2], it[2].mem.get(l), False) for it in N.iters] + [(x[2] or x[1], (x[2] or x[1]).mem.get(l), True) for x in N.exits]
    for st, m, leaving in outs:
        if m is None or not float_feasible(st) or not feasible(st):
            continue
        looked = leaving and m == ph and not any(contains(at, lambda t: t in mags) for at in st.facts)
        d = facts(st, 12)
        if not looked:
            nearer = any(lt(st, g, ph) for g in mags)
            if m == ph:
                ok = any(le(st, ph, g) for g in mags)
                c.decide(None if ok and nearer else True if ok else False if nearer and not st.unk else None, RULEM, 'a neighbour is left aside%s' % ('' if ok else ' although it is nearer' if nearer else ', which it is compared with is not understood'), pw_(w, N), d)
            elif m in mags:
                ok, bad = le(st, m, ph), lt(st, ph, m)
                c.decide(True if ok else False if bad and not st.unk else None, RULEM, 'a neighbour becomes the minimum%s' % ('' if ok else ' although it is not nearer'), pw_(w, N), d)
            elif wrapped(m):
                c.decide(False if not st.unk else None, RULEM, 'the difference of two unsigned pixels is computed before it becomes a real number: %s' % show(m)[:120], pw_(w, N), d)
            elif contains(m, lambda t: t[:2] == ('t', 'near')) and not contains(m, lambda t: t[:2] == ('t', 'f*') or t[:2] == ('t', 'phi') and t in N.phi.values() and t != pi or t[:1] == ('t',) and t[1] in ('ret', 'abs', 'fabs', 'call')):
                c.decide(False if not st.unk and m[:2] in (('t', 'f-'), ('t', 'f+'), ('t', 'near')) else None, RULEM, 'the minimum becomes %s, not the squared difference' % show(m)[:80], pw_(w, N), d)
            else:
                c.undecided(RULEM, 'the minimum becomes %s' % show(m)[:80], pw_(w, N), d)
        if leaving:
            end = st.prove_le(sub(size, lin(pi)))
            g = greater(st, m, S.thr2)
            c.decide(True if end or g == 0 else False if not st.unk and not contains_unknown(st) else None, RULEM, 'the search ends %s' % ('behind the last neighbour' if end else 'because the minimum is within the threshold' if g == 0 else 'before the last neighbour'), pw_(w, N), None if end or g == 0 else d)
    S.mincell[id(N)] = l
    # a difference that is kept together with its square
    for lq, q in N.phi.items():
        sq_ = lambda v: T('f*', v, v, 'double')
        if lq != l and sq_(r.E.load(N.entry, lq)) == r.E.load(N.entry, l) and all((st.mem.get(lq) == q and m == ph) or (st.mem.get(lq) is not None and sq_(st.mem.get(lq)) == m) for st, m, leaving in outs):
            S.same.setdefault(id(N), set()).add(q)
    return ph, mags


def nears(st):
    out = set()
    for x in list(st.facts) + list(st.mem.values()):
        contains(x, lambda t: (t[:2] == ('t', 'near') and out.add(t)) and False)
    return out


def contains_unknown(st):
    return any(at[0] == 'true' and at[1][:2] == ('t', 'ret') for at in st.facts)


def for_pixel(t, fn):
    def g(c):
        PIXEL[0] = t
        try:
            if not filter_functions(c)[1]:
                raise BrokenAnalysis('the difference filter is not there for %s' % t)
            fn(c)
        finally:
            PIXEL[0] = 'double'
    return g


def check(ck):
    if not filter_functions(ck)[1]:
        raise BrokenAnalysis('the difference filter is not there')
    tasks = []
    for t in ('double', 'unsigned int'):
        tasks += [('%s (%s)' % (n, t), for_pixel(t, f)) for n, f in (('phases', phases), ('before', before), ('after', after), ('own counters', own), ('pixels', pixels))]
    ck.run(tasks)
